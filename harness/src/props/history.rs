//! C06: what the server answers depends on the current texts only, not on how
//! they came about.
use crate::gen::soup::*;
use crate::lsp::*;
use crate::runner::*;
use crate::snap::*;
use crate::tape::Tape;
use std::collections::BTreeMap;

fn valid_text(t: &mut Tape) -> String {
    let fuel = 4 + t.below(25);
    S::new(t, fuel, false).file()
}
fn text(t: &mut Tape) -> String {
    let s = valid_text(t);
    if t.chance(25) {
        let m = mutate(t, &s);
        m.replace("break", "brake").replace("next", "nexx").replace("redo", "redd").replace('\0', "")
    } else {
        s
    }
}

/// A small edit of the text: what typing does.
fn edit(t: &mut Tape, s: &str) -> String {
    match t.below(6) {
        0 => text(t),
        1 => {
            // delete one line
            let mut l: Vec<&str> = s.split_inclusive('\n').collect();
            if !l.is_empty() {
                let i = t.below(l.len());
                l.remove(i);
            }
            l.concat()
        }
        2 => {
            let x = t.pick(&["Foo", "Bar", "foo", "a"]).to_string();
            let y = t.pick(&["Qux", "Baz", "bar", "b"]).to_string();
            s.replacen(&x, &y, 1)
        }
        3 => format!("# pushed down\n\n{s}"),
        4 => {
            let x = valid_text(t);
            format!("{s}{x}")
        }
        _ => {
            let m = mutate(t, s);
            m.replace("break", "brake").replace("next", "nexx").replace("redo", "redd").replace('\0', "")
        }
    }
}

/// Final texts: programs whose files agree with each other.
fn final_texts(t: &mut Tape, files: usize) -> Vec<(String, String)> {
    let w = crate::gen::world::generate(t, crate::gen::world::Opts { compact: false, unique: true, max_files: files, size: 8, ..Default::default() });
    w.files.iter().map(|f| (crate::props::nav::uri(&f.path), f.text.clone())).collect()
}
fn intermediate(t: &mut Tape, fin: &str, cur: &str) -> String {
    let s = match t.below(7) {
        0 => valid_text(t),
        1 => {
            let w = crate::gen::world::generate(t, crate::gen::world::Opts { max_files: 1, size: 8, ..Default::default() });
            w.files[0].text.clone()
        }
        2 => edit(t, cur),
        3 | 4 => edit(t, fin),
        5 => mutate(t, fin),
        _ => String::new(),
    };
    s.replace("break", "brake").replace("next", "nexx").replace("redo", "redd").replace('\0', "")
}

/// Inferred types are refined as more is analysed and may lag behind; the
/// property is about names, places and structure.
fn without_types(s: &mut Snap) {
    s.retain(|k, _| !k.starts_with("hover ") && !k.starts_with("ruby-fast-lsp/debug/methods"));
    for (k, v) in s.iter_mut() {
        if k.starts_with("inlayHint ") {
            if let Some(a) = v.as_array_mut() {
                a.retain(|h| h["kind"] != 1);
            }
        }
        if k.starts_with("completion ") {
            let items = if v.is_array() { v.clone() } else { v["items"].clone() };
            let mut l: Vec<String> = items.as_array().into_iter().flatten().map(|i| format!("{} {}", i["label"], i["kind"])).collect();
            l.sort();
            *v = serde_json::json!(l);
        }
    }
}

fn compare(t: &mut Tape, a: &mut Lsp, b: &mut Lsp, fin: &[(String, String)], log: &str, what: &str) -> Option<Case> {
    let (mut x, mut y) = (Snap::new(), Snap::new());
    for (u, s) in fin {
        doc_snap(a, u, s, &mut x);
        doc_snap(b, u, s, &mut y);
        let ps = token_positions(s);
        for _ in 0..ps.len().min(10) {
            let (l, c) = *t.pick(&ps);
            let heavy = t.chance(35);
            note_input(&format!("{log}\n@ {u} {l}:{c}"));
            pos_snap(a, u, l, c, heavy, &mut x);
            pos_snap(b, u, l, c, heavy, &mut y);
        }
    }
    let names = ["Alpha", "Beta", "Gamma", "Foo"];
    global_snap(a, &names, &mut x);
    global_snap(b, &names, &mut y);
    for s in [&mut x, &mut y] {
        without_types(s);
        if fin.len() > 1 {
            // Calls in other documents are attributed when those are analysed.
            s.retain(|k, _| !k.starts_with("references ") && !k.starts_with("callHierarchy/incomingCalls "));
        }
    }
    if let Some((k, m)) = diff(&x, &y) {
        return Some(Case::bad(log.to_string(), format!("{what}|{}", k.split(' ').next().unwrap()), m));
    }
    // Diagnostics that depend on other files are promised fresh on save.
    for _ in 0..2 {
        for (u, _) in fin {
            a.save(u);
            b.save(u);
        }
    }
    for (u, _) in fin {
        if let Err((p, q)) = diags_agree(a, b, u) {
            return Some(Case::bad(log.to_string(), format!("{what}|diagnostics"), format!("diagnostics of {u}\n first: {p}\n second: {q}")));
        }
    }
    None
}

fn history(t: &mut Tape, files: usize) -> Case {
    let fin = final_texts(t, files);
    let mut a = Lsp::bare();
    let mut cur: BTreeMap<String, String> = BTreeMap::new();
    let mut log = String::new();
    let mut ver = 1;
    let mut edits = 0;
    let mut order: Vec<usize> = (0..fin.len()).collect();
    t.shuffle(&mut order);
    for &k in &order {
        let (u, f) = &fin[k];
        let s = if t.chance(50) { f.clone() } else { intermediate(t, f, f) };
        log.push_str(&format!("--- open {u}\n{s}\n"));
        note_source(&s);
        note_input(&log);
        a.open(u, &s, ver);
        cur.insert(u.clone(), s);
    }
    for _ in 0..t.below(6) {
        let (u, f) = &fin[t.below(fin.len())];
        ver += 1;
        match t.weighted(&[6, 1, 1, 1, 1]) {
            0 => {
                let s = intermediate(t, f, &cur[u]);
                log.push_str(&format!("--- change {u}\n{s}\n"));
                note_source(&s);
                note_input(&log);
                edits += (s != cur[u]) as usize;
                a.change(u, &s, ver);
                cur.insert(u.clone(), s);
            }
            1 => {
                log.push_str(&format!("--- save {u}\n"));
                a.save(u);
            }
            2 => {
                let s = intermediate(t, f, &cur[u]);
                log.push_str(&format!("--- close and reopen {u}\n{s}\n"));
                note_source(&s);
                note_input(&log);
                a.close(u);
                a.open(u, &s, ver);
                cur.insert(u.clone(), s);
            }
            3 => {
                // a document that does not belong to the final state
                let s = valid_text(t);
                log.push_str(&format!("--- open, then close file:///w/zz.rb\n{s}\n"));
                note_source(&s);
                a.open("file:///w/zz.rb", &s, ver);
                a.change("file:///w/zz.rb", "", ver + 1);
                a.close("file:///w/zz.rb");
            }
            _ => {
                // requests in between may warm caches
                let p = token_positions(&cur[u]);
                if !p.is_empty() {
                    let (l, c) = *t.pick(&p);
                    log.push_str(&format!("--- request at {u} {l}:{c}\n"));
                    note_input(&log);
                    let mut s = Snap::new();
                    pos_snap(&mut a, u, l, c, true, &mut s);
                    doc_snap(&mut a, u, &cur[u], &mut s);
                }
            }
        }
    }
    let first = order.clone();
    t.shuffle(&mut order);
    for &k in &order {
        let (u, f) = &fin[k];
        if &cur[u] != f {
            edits += 1;
            ver += 1;
            log.push_str(&format!("--- change {u}\n{f}\n"));
            note_source(f);
            note_input(&log);
            a.change(u, f, ver);
        }
    }
    let mut b = Lsp::bare();
    for &k in &first {
        b.open(&fin[k].0, &fin[k].1, 1);
    }
    if fin.len() > 1 {
        // Files that depend on others are promised up to date once they are analysed again.
        log.push_str("--- every document analysed again\n");
        for _ in 0..2 {
            for &k in &first {
                let (u, f) = &fin[k];
                for s in [&mut a, &mut b] {
                    ver += 2;
                    s.change(u, &format!("{f}\n"), ver);
                    s.change(u, f, ver + 1);
                }
            }
        }
    }
    log.push_str("--- compared with a fresh server that opened only the final texts, in the same order\n");
    if let Some(c) = compare(t, &mut a, &mut b, &fin, &log, "history") {
        return c;
    }
    Case::ok(log, edits >= 1)
}
fn single(t: &mut Tape) -> Case {
    history(t, 1)
}
fn multi(t: &mut Tape) -> Case {
    history(t, 3)
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "histories of open, edit (small edits, rewrites, half-typed states), save, close/reopen and interleaved requests over up to three documents sharing class names, ending in some set of texts; every document-wide answer, sampled position answers, symbol searches and diagnostics are compared with a fresh server that opened only the final texts. Non-trivial: at least one effective edit",
        assumptions: &["the order of results inside one answer is not significant"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("single", 6000, 150000, single), Lane::new("multi", 3000, 100000, multi)],
    }
}
