//! Deterministic generated-input runner: seeds, parallel workers, shrinking,
//! replay files, evidence and known findings.
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const ROOT: &str = "/verif";

#[derive(Debug, Clone)]
pub struct Violation {
    /// Stable identification of what fails (for known findings).
    pub signature: String,
    pub message: String,
}

pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// canonical text of the case, used for distinctness and samples
    pub text: String,
    pub violation: Option<Violation>,
}

impl Case {
    pub fn ok(text: String, nontrivial: bool) -> Self {
        Case { nontrivial, labels: vec![], text, violation: None }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn bad(text: String, sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Case { nontrivial: true, labels: vec![], text, violation: Some(Violation { signature: sig.into(), message: msg.into() }) }
    }
}

pub type LaneFn = fn(&mut Tape) -> Case;

#[derive(Clone)]
pub struct Lane {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    pub run: LaneFn,
}

impl Lane {
    pub fn new(name: &'static str, quick: usize, thorough: usize, run: LaneFn) -> Self {
        Lane { name, quick, thorough, threads: 8, run }
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub lanes: Vec<Lane>,
    /// A case that takes longer than this counts as a hang.
    pub case_limit: Duration,
}
pub const CASE_LIMIT: Duration = Duration::from_secs(120);

thread_local! {
    static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static INPUT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
pub static WATCH_PANICS: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let text = format!("{} at {}", msg, loc);
        if std::env::var_os("VH_VERBOSE").is_some() {
            eprintln!("[panic] {text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text.clone());
        // a panic on a case's own thread is caught and reported by that case
        if IN_CASE.with(|c| c.get()) {
            return;
        }
        let mut g = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if g.len() < 5000 {
            g.push((std::thread::current().name().unwrap_or("").to_string(), text));
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// A number identifying this case thread (used in its runtime's thread names).
pub fn thread_key() -> usize {
    static NEXT: AtomicUsize = AtomicUsize::new(1);
    thread_local! {
        static KEY: usize = NEXT.fetch_add(1, Ordering::SeqCst);
    }
    KEY.with(|k| *k)
}
pub fn panic_log_len() -> usize {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).len()
}
/// Panics since `n` on the runtime threads of this case thread.
pub fn panic_log_since(n: usize) -> Vec<String> {
    let me = format!("rt-{}", thread_key());
    PANICS.lock().unwrap_or_else(|e| e.into_inner())[n..].iter().filter(|(t, _)| *t == me).map(|(_, m)| m.clone()).collect()
}

/// Remember the input of the running case, for reports of panics.
pub fn note_input(s: &str) {
    INPUT.with(|p| *p.borrow_mut() = s.to_string());
}

/// A harness-side failure (not a property violation): error exit.
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    std::process::exit(3);
}

fn run_one(lane: &Lane, tape: &mut Tape) -> Case {
    note_input("");
    IN_CASE.with(|c| c.set(true));
    match catch_unwind(AssertUnwindSafe(|| (lane.run)(tape))) {
        Ok(c) => c,
        Err(_) => {
            let p = last_panic();
            if p.contains("HARNESS") || p.contains("/verif/harness/") || p.contains(" at src/") {
                harness_error(&format!("lane {}: {p}", lane.name));
            }
            // strip line numbers in the signature
            let sig = p.chars().take(120).collect::<String>();
            Case::bad(INPUT.with(|i| i.borrow().clone()), format!("panic:{sig}"), format!("panic in code under test: {p}"))
        }
    }
}

fn shrink(lane: &Lane, data: Vec<u32>, sig: &str, budget: Duration, max_evals: usize) -> (Vec<u32>, Case) {
    let start = Instant::now();
    let mut evals = 0usize;
    let class = |s: &str| s.to_string();
    let want = class(sig);
    let mut best = data;
    let mut best_case = {
        let mut t = Tape::replay(best.clone());
        let c = run_one(lane, &mut t);
        best = t.into_data();
        c
    };
    if best_case.violation.is_none() {
        return (best, best_case);
    }
    let mut attempt = |cand: Vec<u32>, best: &mut Vec<u32>, best_case: &mut Case| -> bool {
        if evals >= max_evals || start.elapsed() > budget {
            return false;
        }
        evals += 1;
        let mut t = Tape::replay(cand);
        let c = run_one(lane, &mut t);
        let d = t.into_data();
        if let Some(v) = &c.violation {
            if class(&v.signature) == want && (d.len() < best.len() || (d.len() == best.len() && d < *best)) {
                *best = d;
                *best_case = c;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !attempt(cand, &mut best, &mut best_case) {
                    i += size;
                }
            }
            if size == 1 { break; }
            size /= 2;
        }
        let mut size = 8usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[i..end] { *v = 0; }
                    attempt(cand, &mut best, &mut best_case);
                }
                i += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if nv < v && i < best.len() {
                    let mut cand = best.clone();
                    cand[i] = nv;
                    attempt(cand, &mut best, &mut best_case);
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget {
            break;
        }
    }
    (best, best_case)
}

pub struct KnownFinding {
    pub property: String,
    pub signature: String,
    pub lane: Option<String>,
    pub what: String,
    pub tape: Option<Vec<u32>>,
}

fn load_known() -> Vec<KnownFinding> {
    let p = format!("{ROOT}/known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(&p) else { return vec![] };
    s.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .map(|l| {
            let v: Value = serde_json::from_str(l).unwrap_or_else(|e| harness_error(&format!("known_findings: {e}: {l}")));
            KnownFinding {
                property: v["property"].as_str().unwrap_or("").into(),
                signature: v["signature"].as_str().unwrap_or("").into(),
                lane: v["lane"].as_str().map(|s| s.to_string()),
                what: v["what"].as_str().unwrap_or("").into(),
                tape: v["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()),
            }
        })
        .collect()
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Cases in flight, one slot per worker: (slot, lane, case, start).
static INFLIGHT: Mutex<Vec<(usize, String, usize, Instant)>> = Mutex::new(Vec::new());
fn inflight_dir() -> Option<PathBuf> {
    std::env::var_os("VH_INFLIGHT").map(PathBuf::from)
}
fn mark_inflight(lane: &str, i: usize) {
    let key = thread_key();
    let mut g = INFLIGHT.lock().unwrap_or_else(|e| e.into_inner());
    g.retain(|x| x.0 != key);
    g.push((key, lane.into(), i, Instant::now()));
    drop(g);
    if let Some(d) = inflight_dir() {
        let _ = std::fs::write(d.join(key.to_string()), format!("{lane} {i}"));
    }
}
fn clear_inflight() {
    let key = thread_key();
    INFLIGHT.lock().unwrap_or_else(|e| e.into_inner()).retain(|x| x.0 != key);
    if let Some(d) = inflight_dir() {
        let _ = std::fs::remove_file(d.join(key.to_string()));
    }
}
/// Record a source text of the running case (used to tell a crash of the
/// vendored parser from one of the code under test).
pub fn note_source(text: &str) {
    if let Some(d) = std::env::var_os("VH_SOURCES") {
        let d = PathBuf::from(d);
        let n = std::fs::read_dir(&d).map(|r| r.count()).unwrap_or(0);
        let _ = std::fs::write(d.join(format!("{n}.src")), text);
    }
}

fn report_by_number(prop: &str, lane: &str, seed: u64, case: usize, sig: &str, msg: &str) {
    let dir = PathBuf::from(format!("{ROOT}/replays"));
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{lane}.json"));
    let rep = json!({"property": prop, "lane": lane, "seed": seed, "case": case, "signature": sig, "message": msg});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
    println!("--- {prop} lane {lane} case {case}: {msg}");
    println!("VIOLATION property={prop} replay={}", path.display());
}
fn evidence_stub(prop: &Prop, tier: &str, seed: u64, start: Instant, case: &str) {
    let ev = json!({"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": prop.rule, "samples": [case]},
        "assumptions": prop.assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": 1});
    let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
    let _ = std::fs::write(format!("{ROOT}/evidence/{}.json", prop.id), serde_json::to_string_pretty(&ev).unwrap());
}

/// Run the property in a child process, so that a crash of the whole process
/// (stack overflow, abort, segmentation fault) is attributed to its case.
pub fn supervise(prop: &Prop, tier: &str, seed: u64, scratch: &std::path::Path) -> i32 {
    let start = Instant::now();
    let exe = std::env::current_exe().expect("HARNESS exe");
    let mut skip: Vec<String> = vec![];
    for attempt in 0..6 {
        let dir = scratch.join(format!("inflight{attempt}"));
        std::fs::create_dir_all(&dir).expect("HARNESS scratch");
        let st = std::process::Command::new(&exe).args(["check-child", prop.id, tier]).env("VH_INFLIGHT", &dir).env("VH_SKIP", skip.join(",")).status().expect("HARNESS spawn");
        if let Some(c) = st.code() {
            return c;
        }
        let mut cases: Vec<(String, usize)> = vec![];
        for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
            let t = std::fs::read_to_string(e.path()).unwrap_or_default();
            if let Some((l, i)) = t.split_once(' ') {
                if let Ok(i) = i.parse() {
                    cases.push((l.into(), i));
                }
            }
        }
        cases.sort();
        eprintln!("[{}] the process died ({st}); in flight: {cases:?}", prop.id);
        let mut progress = false;
        for (lane, i) in cases {
            let src = scratch.join(format!("src-{lane}-{i}"));
            std::fs::create_dir_all(&src).expect("HARNESS scratch");
            let st = std::process::Command::new(&exe).args(["case", prop.id, &lane, &i.to_string()]).env("VH_SOURCES", &src).status().expect("HARNESS spawn");
            if st.code().is_some() {
                continue;
            }
            let parser = std::process::Command::new(&exe).arg("parse").arg(&src).status().expect("HARNESS spawn");
            if parser.code().is_none() {
                eprintln!("[{}] lane {lane} case {i}: the vendored parser itself crashes on this text; case skipped", prop.id);
                skip.push(format!("{lane}:{i}"));
                progress = true;
                continue;
            }
            evidence_stub(prop, tier, seed, start, &format!("lane {lane} case {i}"));
            report_by_number(prop.id, &lane, seed, i, "crash", &format!("the process died: {st}"));
            return 1;
        }
        if !progress {
            eprintln!("[{}] the crash did not reproduce in isolation", prop.id);
        }
    }
    3
}

pub fn run_case(prop: &Prop, lane: &str, seed: u64, i: usize) -> i32 {
    let lane = prop.lanes.iter().find(|l| l.name == lane).expect("HARNESS lane");
    let c = on_big_stack(|| run_one(lane, &mut Tape::random(&[&seed.to_string(), prop.id, lane.name, &i.to_string()])));
    println!("{}", c.text);
    match c.violation {
        Some(v) => {
            println!("sig={}\n{}", v.signature, v.message);
            1
        }
        None => 0,
    }
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn start_watchdog(prop: &Prop, tier: &str, seed: u64, start: Instant) {
    let limit = prop.case_limit;
    let p = Prop { id: prop.id, rule: prop.rule, assumptions: prop.assumptions, lanes: vec![], case_limit: limit };
    let tier = tier.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let hung = INFLIGHT.lock().unwrap_or_else(|e| e.into_inner()).iter().find(|x| x.3.elapsed() > limit).cloned();
        if let Some((_, lane, i, _)) = hung {
            evidence_stub(&p, &tier, seed, start, &format!("lane {lane} case {i}"));
            report_by_number(p.id, &lane, seed, i, "hang", &format!("no answer within {} s", limit.as_secs()));
            std::process::exit(1);
        }
    });
}

pub fn run_property(prop: &Prop, tier: &str, seed: u64) -> i32 {
    let start = Instant::now();
    start_watchdog(prop, tier, seed, start);
    let skip: Vec<String> = std::env::var("VH_SKIP").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let known: Vec<KnownFinding> = load_known().into_iter().filter(|k| k.property == prop.id).collect();
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VH_LANE").ok();
    let mut total = 0usize;
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, usize> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut lanes_json = serde_json::Map::new();
    let mut known_hits: BTreeMap<String, usize> = BTreeMap::new();
    let mut failure: Option<(Lane, Vec<u32>, Violation)> = None;

    // Known findings with a stored reproduction are re-executed every run.
    for k in &known {
        if let (Some(t), Some(l)) = (&k.tape, &k.lane) {
            if let Some(lane) = prop.lanes.iter().find(|x| x.name == l) {
                let mut tape = Tape::replay(t.clone());
                let c = on_big_stack(|| run_one(lane, &mut tape));
                if c.violation.as_ref().is_some_and(|v| v.signature == k.signature) {
                    *known_hits.entry(k.signature.clone()).or_default() += 1;
                }
            }
        }
    }

    for lane in &prop.lanes {
        if only.as_deref().is_some_and(|o| o != lane.name) {
            continue;
        }
        let lane_start = Instant::now();
        let n = ((if tier == "thorough" { lane.thorough } else { lane.quick }) as f64 * scale).ceil() as usize;
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        struct Acc {
            total: usize,
            nt: HashSet<u64>,
            labels: BTreeMap<String, usize>,
            samples: Vec<(usize, String)>,
            known: BTreeMap<String, usize>,
            fail: Option<(usize, Vec<u32>, Violation)>,
            survey: BTreeMap<String, Vec<u32>>,
        }
        let acc = Mutex::new(Acc { total: 0, nt: HashSet::new(), labels: BTreeMap::new(), samples: vec![], known: BTreeMap::new(), fail: None, survey: BTreeMap::new() });
        std::thread::scope(|s| {
            for _ in 0..lane.threads.min(n.max(1)) {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if skip.contains(&format!("{}:{i}", lane.name)) {
                        continue;
                    }
                    let mut tape = Tape::random(&[&seed.to_string(), prop.id, lane.name, &i.to_string()]);
                    mark_inflight(lane.name, i);
                    let c = run_one(lane, &mut tape);
                    clear_inflight();
                    let data = tape.into_data();
                    let mut a = acc.lock().unwrap();
                    a.total += 1;
                    for l in &c.labels {
                        *a.labels.entry(format!("{}:{}", lane.name, l)).or_default() += 1;
                    }
                    if c.nontrivial {
                        a.nt.insert(fnv(&c.text));
                    }
                    if c.nontrivial && a.samples.len() < 3 && i < 64 {
                        a.samples.push((i, c.text.chars().take(1500).collect()));
                    }
                    if let Some(v) = c.violation {
                        if known.iter().any(|k| k.signature == v.signature) {
                            *a.known.entry(v.signature).or_default() += 1;
                        } else {
                            if std::env::var_os("VH_ALL").is_some() {
                                println!("FOUND lane={} case={} sig={}\n{}\n--- case\n{}\n======", lane.name, i, v.signature, v.message, c.text);
                                a.survey.entry(v.signature.clone()).or_insert_with(|| data.clone());
                            } else {
                                stop.store(true, Ordering::SeqCst);
                            }
                            if a.fail.as_ref().is_none_or(|f| i < f.0) {
                                a.fail = Some((i, data, v));
                            }
                        }
                    }
                }).unwrap();
            }
        });
        let a = acc.into_inner().unwrap();
        if std::env::var("VH_ALL").as_deref() == Ok("2") {
            // development aid: shrink the first case of each distinct signature
            for (sig, data) in &a.survey {
                let (tape, c) = on_big_stack(|| shrink(lane, data.clone(), sig, Duration::from_secs(20), 1500));
                println!("SHRUNK sig={sig}\n{}\n--- case\n{}\ntape={tape:?}\n======", c.violation.map(|v| v.message).unwrap_or_default(), c.text);
            }
        }
        total += a.total;
        let nt_count = a.nt.len();
        for h in a.nt {
            nontrivial.insert(h ^ fnv(lane.name));
        }
        for (k, v) in a.labels { *labels.entry(k).or_default() += v; }
        for (k, v) in a.known { *known_hits.entry(k).or_default() += v; }
        let mut ss = a.samples;
        ss.sort();
        for (i, t) in ss.into_iter().take(2) {
            samples.push(json!({"lane": lane.name, "case": i, "input": t}));
        }
        lanes_json.insert(lane.name.into(), json!({"evaluations": a.total, "distinct_nontrivial": nt_count, "wall_s": lane_start.elapsed().as_secs_f64()}));
        eprintln!("[{}] lane {} cases={} nontrivial={} {:.1}s", prop.id, lane.name, a.total, nt_count, lane_start.elapsed().as_secs_f64());
        if let Some((_, data, v)) = a.fail {
            failure = Some((lane.clone(), data, v));
            break;
        }
    }

    let mut code = 0;
    let mut nviol = 0;
    if let Some((lane, data, v)) = failure {
        nviol = 1;
        code = 1;
        let (b, e) = if std::env::var_os("VH_NOSHRINK").is_some() { (0, 0) } else { (90, 3000) };
        let (tape, c) = on_big_stack(|| shrink(&lane, data.clone(), &v.signature, Duration::from_secs(b), e));
        let (tape, vio, text) = match c.violation {
            Some(v2) => (tape, v2, c.text),
            None => (data, v, "(did not reproduce while shrinking; original tape kept)".into()),
        };
        let dir = PathBuf::from(format!("{ROOT}/replays"));
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", prop.id, lane.name));
        let rep = json!({"property": prop.id, "lane": lane.name, "seed": seed, "signature": vio.signature, "message": vio.message, "input": text, "tape": tape});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        println!("--- {} lane {}: {}\n{}\n--- input\n{}\n---", prop.id, lane.name, vio.signature, vio.message, text);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    for k in &known {
        if known_hits.contains_key(&k.signature) {
            println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
        }
    }
    let ev = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total, "distinct_nontrivial": nontrivial.len(), "rule": prop.rule,
            "samples": samples, "lanes": lanes_json, "labels": labels, "known_finding_hits": known_hits,
        },
        "assumptions": prop.assumptions, "wall_s": start.elapsed().as_secs_f64(), "violations": nviol,
    });
    let _ = std::fs::create_dir_all(format!("{ROOT}/evidence"));
    if let Err(e) = std::fs::write(format!("{ROOT}/evidence/{}.json", prop.id), serde_json::to_string_pretty(&ev).unwrap()) {
        harness_error(&format!("cannot write evidence: {e}"));
    }
    code
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("HARNESS replay file")).expect("HARNESS replay json");
    let prop = props.iter().find(|p| p.id == v["property"].as_str().unwrap()).expect("HARNESS property");
    let lane = prop.lanes.iter().find(|l| l.name == v["lane"].as_str().unwrap()).expect("HARNESS lane");
    let c = on_big_stack(|| match v["tape"].as_array() {
        Some(a) => run_one(lane, &mut Tape::replay(a.iter().map(|x| x.as_u64().unwrap() as u32).collect())),
        // a case that kills the process is stored by number
        None => run_one(lane, &mut Tape::random(&[&v["seed"].to_string(), prop.id, lane.name, &v["case"].to_string()])),
    });
    println!("--- input\n{}\n---", c.text);
    match c.violation {
        Some(x) => {
            println!("sig={}\n{}", x.signature, x.message);
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
