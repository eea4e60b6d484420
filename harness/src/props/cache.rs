//! C12: the persistent cache returns exactly what was published under that
//! key, or nothing — whatever happened to its files, to other users of the
//! same directory, or to a process in the middle of publishing.
use crate::runner::*;
use crate::tape::Tape;
use ruby_fast_lsp::persistent_cache::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::mpsc;
use std::time::Duration;

fn content(seed: u64, len: usize, flat: bool) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    (0..len)
        .map(|i| {
            if flat {
                return (seed as u8).wrapping_add((i / 97) as u8);
            }
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 32) as u8
        })
        .collect()
}
fn key(k: usize) -> CompiledWasmProductKey {
    // keys 0/1 share the source, keys 0/2 share the compiler
    CompiledWasmProductKey::new(&[b"source a".as_slice(), b"source a", b"source b", b"", b"source c", b"source d"][k % 6], [1u64, 2, 1, 3, 1, u64::MAX][k % 6])
}
fn products(root: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else if p.extension().is_some_and(|e| e == "rflsp-product") {
                out.push(p);
            }
        }
    }
    out.sort();
    out
}
fn leftovers(root: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else if p.extension().is_some_and(|e| e == "tmp") {
                out.push(p);
            }
        }
    }
    out
}
fn path_of(root: &Path, k: &CompiledWasmProductKey) -> Option<PathBuf> {
    products(root).into_iter().find(|p| p.file_stem().is_some_and(|s| s.to_string_lossy() == k.cache_id()))
}

/// Damage a stored file; returns a description.
fn damage(t: &mut Tape, p: &Path, all: &[PathBuf]) -> String {
    let mut b = std::fs::read(p).unwrap_or_default();
    let n = b.len().max(1);
    let what = match t.below(9) {
        0 if !b.is_empty() => {
            // header bytes get more than their share
            let i = if t.bool() { t.below(n.min(60)) } else { t.below(n) };
            let bit = t.below(8);
            b[i] ^= 1 << bit;
            format!("flip bit {bit} of byte {i}")
        }
        1 => {
            let k = t.below(n);
            b.truncate(k);
            format!("truncate to {k}")
        }
        2 => {
            let k = t.range(1, 40);
            b.extend(content(7, k, false));
            format!("append {k} bytes")
        }
        3 => {
            b.clear();
            "empty it".into()
        }
        4 | 5 if all.len() > 1 => {
            let o = t.pick(all);
            b = std::fs::read(o).unwrap_or_default();
            format!("replace it by {}", o.file_name().unwrap().to_string_lossy().chars().take(8).collect::<String>())
        }
        6 if b.len() > 60 => {
            // a length field claims anything
            let at = *t.pick(&[12usize, 20]);
            let v = *t.pick(&[0u64, 1, 91, 92, 93, 1 << 20, 1 << 30, u64::MAX, u64::MAX - 59]);
            b[at..at + 8].copy_from_slice(&v.to_le_bytes());
            format!("length field at {at} says {v}")
        }
        7 if b.len() > 2 => {
            let i = t.below(b.len() - 1);
            let j = t.range(i + 1, b.len() - 1);
            for x in &mut b[i..=j] {
                *x = 0;
            }
            format!("zero bytes {i}..={j}")
        }
        _ => {
            let k = t.below(200);
            b = content(11, k, false);
            format!("replace it by {k} random bytes")
        }
    };
    // keep the file's place: a crash or a stray tool rewrites contents
    std::fs::write(p, &b).expect("HARNESS: cannot damage the file");
    what
}

struct World {
    dir: tempfile::TempDir,
    root: PathBuf,
    caches: Vec<PersistentDerivedProductCache>,
    /// key -> published bytes believed to be on disk, intact
    model: BTreeMap<usize, Vec<u8>>,
    /// every artifact that was ever published under the key
    ever: BTreeMap<usize, Vec<Vec<u8>>>,
    log: Vec<String>,
    sure: bool,
}

impl World {
    fn new(t: &mut Tape, tight: bool) -> World {
        let dir = tempfile::Builder::new().prefix("vh-cache").tempdir().expect("HARNESS: tempdir");
        let root = dir.path().join("cache");
        std::fs::write(dir.path().join("neighbour"), b"precious").unwrap();
        std::fs::create_dir_all(&root).unwrap();
        std::fs::write(root.join("user-file"), b"precious").unwrap();
        let n = if tight { 1 } else { t.range(1, 3) };
        let (me, mb) = if tight { (t.range(1, 4), *t.pick(&[1u64, 300, 2000, 1 << 20])) } else { (4096, 1 << 30) };
        let caches = (0..n).map(|_| PersistentDerivedProductCache::with_limits(root.clone(), me, mb)).collect();
        World { root, dir, caches, model: BTreeMap::new(), ever: BTreeMap::new(), log: vec![format!("{n} caches, limits {me} entries {mb} bytes")], sure: !tight }
    }
    fn fail(&self, sig: &str, msg: String) -> Case {
        Case::bad(self.log.join("\n"), format!("cache:{sig}"), format!("{msg}\n history:\n  {}", self.log.join("\n  ")))
    }
    fn intruded(&self) -> Option<Case> {
        for p in [self.dir.path().join("neighbour"), self.root.join("user-file")] {
            if std::fs::read(&p).ok().as_deref() != Some(b"precious") {
                return Some(self.fail("foreign-file", format!("{} was touched", p.display())));
            }
        }
        None
    }
}

/// Operation histories on one directory.
fn history(t: &mut Tape, tight: bool) -> Case {
    let mut w = World::new(t, tight);
    let mut damaged = false;
    let mut hits = 0;
    for _ in 0..t.range(3, 14) {
        let c = t.below(w.caches.len());
        let k = t.below(6);
        let kk = key(k);
        match t.below(12) {
            0..=6 => {
                let got = match w.caches[c].lookup_compiled_wasm_or_reserve(&kk) {
                    Ok(g) => g,
                    Err(e) => return w.fail("lookup-error", format!("lookup of key {k} failed: {e:#}")),
                };
                match got {
                    PersistentCompiledWasmLookup::Hit(b) => {
                        hits += 1;
                        w.log.push(format!("cache {c}: key {k} hit, {} bytes", b.len()));
                        if !w.ever.get(&k).is_some_and(|v| v.iter().any(|x| x == b.as_ref())) {
                            return w.fail("wrong-bytes", format!("key {k} returned {} bytes that were never published under it", b.len()));
                        }
                        match w.model.get(&k) {
                            Some(x) if x == b.as_ref() => {}
                            Some(_) => return w.fail("stale-bytes", format!("key {k} returned an older artifact")),
                            None if damaged => {
                                // the damage left the stored bytes as they were
                                w.model.insert(k, b.as_ref().clone());
                            }
                            None => return w.fail("ghost", format!("key {k} returned an artifact that had been removed")),
                        }
                    }
                    PersistentCompiledWasmLookup::Reservation(r) => {
                        if w.model.contains_key(&k) && w.sure {
                            return w.fail("lost", format!("key {k} is not found although it was published and never removed"));
                        }
                        w.model.remove(&k);
                        if let Some(p) = path_of(&w.root, &kk) {
                            return w.fail("kept-corrupt", format!("a reservation was handed out while {} is still there", p.display()));
                        }
                        match t.below(8) {
                            0 => {
                                w.log.push(format!("cache {c}: key {k} reserved, dropped"));
                                drop(r);
                            }
                            1 => {
                                let other = key(k + 1);
                                w.log.push(format!("cache {c}: key {k} reserved, published under another key"));
                                if r.publish(&other, b"other").is_ok() {
                                    return w.fail("wrong-key", format!("a reservation of key {k} accepted a product of key {}", (k + 1) % 6));
                                }
                                if path_of(&w.root, &kk).is_some() {
                                    return w.fail("wrong-key", "a rejected publication left a file".into());
                                }
                            }
                            _ => {
                                let len = *t.pick(&[0usize, 1, 2, 92, 500, 4096, 70000]);
                                let b = content(t.draw(1 << 20) as u64, len, t.bool());
                                w.log.push(format!("cache {c}: key {k} reserved, published {len} bytes"));
                                if let Err(e) = r.publish(&kk, &b) {
                                    return w.fail("publish-error", format!("publishing key {k} failed: {e:#}"));
                                }
                                w.ever.entry(k).or_default().push(b.clone());
                                w.model.insert(k, b);
                            }
                        }
                    }
                }
            }
            7 | 8 => {
                let ps = products(&w.root);
                if ps.is_empty() {
                    continue;
                }
                let p = t.pick(&ps).clone();
                let before = std::fs::read(&p).unwrap();
                let what = damage(t, &p, &ps);
                let stem = p.file_stem().unwrap().to_string_lossy().to_string();
                let dk = (0..6).find(|k| key(*k).cache_id() == stem).expect("HARNESS: unknown product");
                w.log.push(format!("damage key {dk}: {what}"));
                if std::fs::read(&p).unwrap() != before {
                    damaged = true;
                    w.model.remove(&dk);
                }
            }
            9 => {
                w.log.push(format!("cache {c}: invalidate key {k}"));
                let there = path_of(&w.root, &kk).is_some();
                match w.caches[c].invalidate_compiled_wasm(&kk) {
                    Ok(r) if r != there => return w.fail("invalidate", format!("invalidating key {k} says {r}, the file was there: {there}")),
                    Ok(_) => {}
                    Err(e) => return w.fail("invalidate", format!("invalidating key {k} failed: {e:#}")),
                }
                if path_of(&w.root, &kk).is_some() {
                    return w.fail("invalidate", format!("key {k} is still stored"));
                }
                w.model.remove(&k);
            }
            10 => {
                w.log.push(format!("cache {c}: clear"));
                let ps = products(&w.root);
                match w.caches[c].clear() {
                    Ok(s) if s.entries != ps.len() => return w.fail("clear", format!("clear reports {} entries, there were {}", s.entries, ps.len())),
                    Ok(_) => {}
                    Err(e) => return w.fail("clear", format!("clear failed: {e:#}")),
                }
                if !products(&w.root).is_empty() {
                    return w.fail("clear", "products remain after clear".into());
                }
                w.model.clear();
            }
            _ => {
                w.log.push(format!("cache {c}: summary"));
                let ps = products(&w.root);
                let bytes: u64 = ps.iter().map(|p| p.metadata().unwrap().len()).sum();
                match w.caches[c].summary() {
                    Ok(s) if s.entries != ps.len() || s.bytes != bytes => return w.fail("summary", format!("summary says {} entries {} bytes, there are {} entries {bytes} bytes", s.entries, s.bytes, ps.len())),
                    Ok(_) => {}
                    Err(e) => return w.fail("summary", format!("summary failed: {e:#}")),
                }
            }
        }
        if tight {
            let ps = products(&w.root);
            let bytes: u64 = ps.iter().map(|p| p.metadata().unwrap().len()).sum();
            let lim: Vec<u64> = w.log[0].split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            // damage may enlarge a file; only publications enforce limits
            if !damaged && (ps.len() as u64 > lim[1] || bytes > lim[2]) {
                return w.fail("over-limit", format!("{} entries, {bytes} bytes stored with one user", ps.len()));
            }
        }
        if let Some(f) = leftovers(&w.root).first() {
            return w.fail("leftover", format!("{} left behind", f.display()));
        }
    }
    if let Some(c) = w.intruded() {
        return c;
    }
    let mut c = Case::ok(w.log.join("\n"), hits > 0 || damaged);
    if hits > 0 {
        c = c.label("hit");
    }
    if damaged {
        c = c.label("damaged file");
    }
    c
}
fn histories(t: &mut Tape) -> Case {
    history(t, false)
}
fn limits(t: &mut Tape) -> Case {
    history(t, true)
}

/// Several users ask for the same keys at once: one produces, the others wait
/// and get what it produced, or the right to produce if it gave up.
fn contention(t: &mut Tape) -> Case {
    let w = World::new(t, false);
    let n = t.range(2, 4);
    let nk = t.range(1, 2);
    let plan: Vec<(usize, bool, u64)> = (0..n).map(|_| (t.below(nk), t.chance(30), t.below(30) as u64)).collect();
    let text = format!("{plan:?} on {} caches", w.caches.len());
    let (tx, rx) = mpsc::channel();
    for (i, (k, give_up, hold)) in plan.clone().into_iter().enumerate() {
        let tx = tx.clone();
        // every other user is another process' cache on the same directory
        let cache = if i % 2 == 0 { w.caches[0].clone() } else { PersistentDerivedProductCache::with_limits(w.root.clone(), 4096, 1 << 30) };
        std::thread::spawn(move || {
            let r = match cache.lookup_compiled_wasm_or_reserve(&key(k)) {
                Ok(PersistentCompiledWasmLookup::Hit(b)) => (i, k, "hit", b.as_ref().clone(), String::new()),
                Ok(PersistentCompiledWasmLookup::Reservation(r)) => {
                    std::thread::sleep(Duration::from_millis(hold));
                    if give_up {
                        drop(r);
                        (i, k, "gave up", vec![], String::new())
                    } else {
                        let b = content(i as u64, 1000 + i, false);
                        match r.publish(&key(k), &b) {
                            Ok(()) => (i, k, "published", b, String::new()),
                            Err(e) => (i, k, "error", vec![], format!("{e:#}")),
                        }
                    }
                }
                Err(e) => (i, k, "error", vec![], format!("{e:#}")),
            };
            let _ = tx.send(r);
        });
    }
    drop(tx);
    let mut rs = vec![];
    for _ in 0..n {
        match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(r) => rs.push(r),
            Err(_) => return Case::bad(text.clone(), "cache:stuck", format!("only {} of {n} users finished within 60 s: {text}", rs.len())),
        }
    }
    for k in 0..nk {
        let of = |s: &str| rs.iter().filter(|r| r.1 == k && r.2 == s).collect::<Vec<_>>();
        let p = of("published");
        if let Some(e) = of("error").first() {
            return Case::bad(text.clone(), "cache:contention-error", format!("{text}: user {} failed: {}", e.0, e.4));
        }
        if p.len() > 1 {
            return Case::bad(text.clone(), "cache:two-producers", format!("{text}: {} users published key {k}", p.len()));
        }
        for h in of("hit") {
            if p.first().map(|p| &p.3) != Some(&h.3) {
                return Case::bad(text.clone(), "cache:contention-bytes", format!("{text}: user {} got bytes nobody published", h.0));
            }
        }
        let total = rs.iter().filter(|r| r.1 == k).count();
        if total > 0 && p.is_empty() && of("gave up").len() != total {
            return Case::bad(text.clone(), "cache:no-producer", format!("{text}: nobody produced key {k}"));
        }
    }
    Case::ok(text, true)
}

/// While one user holds the right to produce a key, others clear the cache,
/// invalidate the key, look it up or fill the cache to its limits.  Nobody else
/// gets the right to produce that key before the first user is done, and the
/// first user's publication succeeds.
fn held(t: &mut Tape) -> Case {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::Arc;
    let w = World::new(t, false);
    let k = t.below(3);
    let before: Vec<usize> = (0..3).filter(|x| *x != k && t.chance(60)).collect();
    let main = w.caches[0].clone();
    for x in &before {
        if let Ok(PersistentCompiledWasmLookup::Reservation(r)) = main.lookup_compiled_wasm_or_reserve(&key(*x)) {
            let _ = r.publish(&key(*x), b"earlier");
        }
    }
    let mut ops: Vec<u64> = (0..t.range(1, 2)).map(|_| t.below(5) as u64).collect();
    ops.push(if t.chance(80) { 5 } else { 6 });
    let names: Vec<&str> = ops.iter().map(|o| ["clear", "invalidate that key", "summary", "publish another key beyond the limit", "look up a stored key", "look up that key", "drop the reservation's cache"][*o as usize]).collect();
    let give_up = t.chance(20);
    let text = format!("key {k} reserved with {before:?} stored; meanwhile {}; then {}", names.join(", "), if give_up { "given up" } else { "published" });
    let bad = |sig: &str, m: String| Case::bad(text.clone(), format!("cache:{sig}"), format!("{m}: {text}"));
    let r = match main.lookup_compiled_wasm_or_reserve(&key(k)) {
        Ok(PersistentCompiledWasmLookup::Reservation(r)) => r,
        Ok(_) => return bad("ghost", "a key nobody published is found".into()),
        Err(e) => return bad("lookup-error", format!("{e:#}")),
    };
    let released = Arc::new(AtomicBool::new(false));
    let (tx, rx) = mpsc::channel::<Result<(), (String, String)>>();
    let n = ops.len();
    for o in ops {
        let (tx, released, root) = (tx.clone(), released.clone(), w.root.clone());
        let mine = if t.bool() { main.clone() } else { PersistentDerivedProductCache::with_limits(root.clone(), if o == 3 { 1 } else { 4096 }, 1 << 30) };
        let other = (k + 1) % 3;
        std::thread::spawn(move || {
            let res = match o {
                0 => mine.clear().map(|_| ()).map_err(|e| ("held-clear".to_string(), format!("clear failed: {e:#}"))),
                1 => mine.invalidate_compiled_wasm(&key(k)).map(|_| ()).map_err(|e| ("held-invalidate".to_string(), format!("invalidation failed: {e:#}"))),
                2 => mine.summary().map(|_| ()).map_err(|e| ("held-summary".to_string(), format!("summary failed: {e:#}"))),
                3 | 4 => match mine.lookup_compiled_wasm_or_reserve(&key(if o == 3 { 4 } else { other })) {
                    Ok(PersistentCompiledWasmLookup::Reservation(r)) => r.publish(&key(if o == 3 { 4 } else { other }), b"another").map_err(|e| ("held-publish".to_string(), format!("publishing another key failed: {e:#}"))),
                    Ok(_) => Ok(()),
                    Err(e) => Err(("held-lookup".to_string(), format!("looking up another key failed: {e:#}"))),
                },
                5 => match mine.lookup_compiled_wasm_or_reserve(&key(k)) {
                    Ok(PersistentCompiledWasmLookup::Reservation(r)) => {
                        let early = !released.load(SeqCst);
                        drop(r);
                        if early {
                            Err(("two-producers".to_string(), "a second user got the right to produce the key while the first held it".to_string()))
                        } else {
                            Ok(())
                        }
                    }
                    Ok(PersistentCompiledWasmLookup::Hit(_)) if !released.load(SeqCst) => Err(("ghost".to_string(), "the key is found before it is published".to_string())),
                    Ok(PersistentCompiledWasmLookup::Hit(b)) if b.as_ref() != b"the product" => Err(("contention-bytes".to_string(), "the key holds bytes nobody published".to_string())),
                    Ok(_) => Ok(()),
                    Err(e) => Err(("held-lookup".to_string(), format!("looking up the key failed: {e:#}"))),
                },
                _ => {
                    drop(mine);
                    Ok(())
                }
            };
            let _ = tx.send(res);
        });
        std::thread::sleep(Duration::from_millis(t.range(10, 35) as u64));
    }
    drop(tx);
    let early = rx.try_iter().collect::<Vec<_>>();
    released.store(true, SeqCst);
    let produced = if give_up {
        drop(r);
        Ok(())
    } else {
        r.publish(&key(k), b"the product")
    };
    let mut rs = early;
    while rs.len() < n {
        match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(x) => rs.push(x),
            Err(_) => return bad("stuck", format!("only {} of {n} others finished within 60 s", rs.len())),
        }
    }
    if let Err(e) = produced {
        return bad("publish-error", format!("publishing the reserved key failed: {e:#}"));
    }
    if let Some(Err((s, m))) = rs.into_iter().find(|r| r.is_err()) {
        return bad(&s, m);
    }
    if let Some(f) = leftovers(&w.root).first() {
        return bad("leftover", format!("{} left behind", f.display()));
    }
    if let Some(c) = w.intruded() {
        return c;
    }
    Case::ok(text, true)
}

/// Several processes' caches publish, look up, clear and count at full speed:
/// no call fails and no bytes are mixed up.
fn stress(t: &mut Tape) -> Case {
    let w = World::new(t, false);
    let n = t.range(3, 4);
    let plans: Vec<Vec<(u64, usize)>> = (0..n).map(|i| (0..t.range(8, 24)).map(|_| (if i == 0 { 0 } else { t.below(7) as u64 }, t.below(4))).collect()).collect();
    let text = format!("{n} users at once: {}", plans.iter().map(|p| p.iter().map(|(o, k)| format!("{}{k}", ["publish", "publish", "publish", "clear", "summary", "invalidate", "fresh"][*o as usize])).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | "));
    let (tx, rx) = mpsc::channel::<Option<(String, String)>>();
    for p in plans {
        let (tx, root) = (tx.clone(), w.root.clone());
        std::thread::spawn(move || {
            let mut c = PersistentDerivedProductCache::with_limits(root.clone(), 3, 1 << 30);
            let mut bad = None;
            for (o, k) in p {
                let r: Result<(), (String, String)> = match o {
                    3 => c.clear().map(|_| ()).map_err(|e| ("stress-clear".to_string(), format!("clear failed: {e:#}"))),
                    4 => c.summary().map(|_| ()).map_err(|e| ("stress-summary".to_string(), format!("summary failed: {e:#}"))),
                    5 => c.invalidate_compiled_wasm(&key(k)).map(|_| ()).map_err(|e| ("stress-invalidate".to_string(), format!("invalidation failed: {e:#}"))),
                    _ => {
                        if o == 6 {
                            c = PersistentDerivedProductCache::with_limits(root.clone(), 3, 1 << 30);
                        }
                        let want = content(k as u64, 300 + k, false);
                        match c.lookup_compiled_wasm_or_reserve(&key(k)) {
                            Ok(PersistentCompiledWasmLookup::Hit(b)) if *b != want => Err(("stress-bytes".to_string(), format!("key {k} holds bytes of another key"))),
                            Ok(PersistentCompiledWasmLookup::Hit(_)) => Ok(()),
                            Ok(PersistentCompiledWasmLookup::Reservation(r)) => r.publish(&key(k), &want).map_err(|e| ("stress-publish".to_string(), format!("publishing key {k} failed: {e:#}"))),
                            Err(e) => Err(("stress-lookup".to_string(), format!("looking up key {k} failed: {e:#}"))),
                        }
                    }
                };
                if let Err(e) = r {
                    bad = Some(e);
                    break;
                }
            }
            let _ = tx.send(bad);
        });
    }
    drop(tx);
    for i in 0..n {
        match rx.recv_timeout(Duration::from_secs(120)) {
            Ok(None) => {}
            Ok(Some((s, m))) => return Case::bad(text.clone(), format!("cache:{s}"), format!("{m}: {text}")),
            Err(_) => return Case::bad(text.clone(), "cache:stuck", format!("only {i} of {n} users finished within 120 s: {text}")),
        }
    }
    if let Some(f) = leftovers(&w.root).first() {
        return Case::bad(text.clone(), "cache:leftover", format!("{} left behind: {text}", f.display()));
    }
    if let Some(c) = w.intruded() {
        return c;
    }
    Case::ok(text, true)
}

/// `vh cache-child ROOT N HOLD LIMIT`: publish N keys in a process of its own.
pub fn child(a: &[String]) -> i32 {
    let (root, seed, limit): (PathBuf, u64, u64) = (a[0].clone().into(), a[1].parse().unwrap(), a[2].parse().unwrap());
    if limit > 0 {
        unsafe {
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
    }
    let c = PersistentDerivedProductCache::with_limits(root, 4096, 1 << 30);
    println!("ready");
    let mut rc = 0;
    for k in 0..6 {
        match c.lookup_compiled_wasm_or_reserve(&key(k)) {
            Ok(PersistentCompiledWasmLookup::Reservation(r)) => {
                let b = content(seed + k as u64, 20000 * (k + 1), k % 2 == 0);
                println!("start {k}");
                match r.publish(&key(k), &b) {
                    Ok(()) => println!("done {k}"),
                    Err(_) => {
                        println!("failed {k}");
                        rc = 1;
                    }
                }
            }
            Ok(_) => println!("hit {k}"),
            Err(_) => {
                println!("error {k}");
                rc = 1;
            }
        }
    }
    rc
}

/// A process dies (or cannot write) in the middle of publishing.
fn crash(t: &mut Tape) -> Case {
    use std::io::Read;
    let w = World::new(t, false);
    let seed = t.draw(1000) as u64;
    let limit = if t.chance(40) { t.range(1, 130000) as u64 } else { 0 };
    let delay = Duration::from_micros(t.below(12000) as u64);
    let text = format!("seed {seed}, file size limit {limit}, killed after {delay:?}");
    let mut p = std::process::Command::new(std::env::current_exe().expect("HARNESS: exe"))
        .args(["cache-child", &w.root.to_string_lossy(), &seed.to_string(), &limit.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("HARNESS: spawn");
    let mut out = p.stdout.take().unwrap();
    let mut buf = [0u8; 6];
    let _ = out.read_exact(&mut buf);
    if limit == 0 {
        std::thread::sleep(delay);
        let _ = p.kill();
    }
    let mut rest = String::new();
    let _ = out.read_to_string(&mut rest);
    let _ = p.wait();
    let c = &w.caches[0];
    let mut hit = 0;
    let (tx, rx) = mpsc::channel();
    let cc = c.clone();
    let rest2 = rest.clone();
    std::thread::spawn(move || {
        let mut bad: Option<(String, String)> = None;
        let mut hits = 0;
        for k in 0..6usize {
            let b = content(seed + k as u64, 20000 * (k + 1), k % 2 == 0);
            match cc.lookup_compiled_wasm_or_reserve(&key(k)) {
                Ok(PersistentCompiledWasmLookup::Hit(x)) => {
                    hits += 1;
                    if *x != b {
                        bad = Some(("crash-bytes".into(), format!("key {k} holds bytes that were not published")));
                    }
                    if rest2.contains(&format!("failed {k}\n")) {
                        bad = Some(("failed-visible".into(), format!("key {k} is stored although publishing it failed")));
                    }
                }
                Ok(PersistentCompiledWasmLookup::Reservation(r)) => {
                    if rest2.contains(&format!("done {k}\n")) {
                        bad = Some(("crash-lost".into(), format!("key {k} was published before the crash and is gone")));
                    }
                    if let Err(e) = r.publish(&key(k), &b) {
                        bad = Some(("crash-recover".into(), format!("key {k} cannot be published after the crash: {e:#}")));
                    }
                }
                Err(e) => bad = Some(("crash-error".into(), format!("key {k}: {e:#}"))),
            }
        }
        let _ = tx.send((bad, hits));
    });
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok((Some((s, m)), _)) => return Case::bad(text.clone(), format!("cache:{s}"), format!("{m}; {text}; child said:\n{rest}")),
        Ok((None, h)) => hit += h,
        Err(_) => return Case::bad(text.clone(), "cache:stuck", format!("the cache is blocked after a crash; {text}; child said:\n{rest}")),
    }
    if limit > 0 {
        // nothing of a failed write may stay
        if let Some(f) = leftovers(&w.root).first() {
            return Case::bad(text.clone(), "cache:leftover", format!("{} left behind by a failed write; {text}", f.display()));
        }
    }
    let mid = rest.lines().last().is_some_and(|l| l.starts_with("start")) || rest.contains("failed");
    let mut case = Case::ok(text, mid);
    if mid {
        case = case.label("interrupted in the middle of publishing");
    }
    if hit > 0 {
        case = case.label("published before");
    }
    case
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "a history is non-trivial if it reads an entry back or damages a stored file; contention always; a crash if the process died or failed in the middle of publishing",
        assumptions: &["the file system's rename is atomic and its locks end with their process"],
        lanes: vec![Lane::new("histories", 20000, 600000, histories), Lane::new("limits", 10000, 300000, limits), Lane::new("contention", 2000, 60000, contention), Lane::new("held", 1200, 40000, held), Lane::new("stress", 400, 20000, stress), Lane::new("crash", 3000, 60000, crash)],
        case_limit: CASE_LIMIT,
    }
}
