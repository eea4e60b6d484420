//! C22/C23/C26: workspace symbols, type hierarchy, references and rename of
//! methods and constants agree with the program and with real Ruby.
use super::nav::*;
use crate::gen::world::*;
use crate::lsp::*;
use crate::runner::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const PLAIN: Opts = Opts { reopen: true, unicode: true, redef: false, dangling: true, max_files: 3, size: 10, compact: true, unique: false, abs_edges: false };
const ABS: Opts = Opts { compact: false, abs_edges: true, unique: true, ..PLAIN };
const UNI: Opts = Opts { compact: true, abs_edges: false, unique: true, ..PLAIN };

// ---------------------------------------------------------------- C22

/// Owner of every def site as the generator knows it (by Ruby for namespaces).
fn symbols(t: &mut Tape) -> Case {
    let w = generate(t, PLAIN);
    let log = show(&w);
    note_input(&log);
    let mut l = open_all(&w);
    let mut by_name: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (i, s) in w.sites.iter().enumerate() {
        if matches!(s.kind, K::NsDef | K::ConstDef | K::MethDef) {
            by_name.entry(&s.name).or_default().push(i);
        }
    }
    let mut queries: Vec<String> = by_name.keys().map(|s| s.to_string()).collect();
    queries.push("zzqqxx".into());
    for q in &queries {
        // the exact name, in any letter case, or a prefix of it must find the symbol
        let form = t.weighted(&[4, 1, 1]);
        let asked = match form {
            0 => q.clone(),
            1 => q.to_lowercase(),
            _ => q.chars().take(3).collect(),
        };
        let v = l.ask("workspace/symbol", json!({"query": asked}));
        let all = v.as_array().cloned().unwrap_or_default();
        let got: Vec<(String, u32, i64, Option<String>)> = all
            .iter()
            .filter(|x| x["name"].as_str() == Some(q))
            .map(|x| (x["location"]["uri"].as_str().unwrap_or("").to_string(), range4(&x["location"]["range"])[0], x["kind"].as_i64().unwrap_or(0), x["containerName"].as_str().map(|s| s.to_string())))
            .collect();
        let places: BTreeSet<At> = got.iter().map(|x| (x.0.clone(), x.1)).collect();
        let mut want: BTreeSet<At> = by_name.get(q.as_str()).into_iter().flatten().map(|i| at(&w, *i)).collect();
        if q == "Object" {
            want.insert(("file:///w/core.rb".into(), 0));
        }
        let bad = |sig: &str, m: String| Some(Case::bad(log.clone(), format!("{sig}|form{form}"), format!("workspace/symbol {asked:?} (symbols named {q:?}): {m}\n want {want:?}\n server {got:?}")));
        let full = all.len() >= 100;
        let r = if !want.is_subset(&places) && !full {
            bad("missing", "a declaration is not found".into())
        } else if !places.is_subset(&want) {
            bad("phantom", "a symbol that is not declared".into())
        } else {
            let mut r = None;
            // nothing unrelated: every match contains the query as a subsequence
            for x in &all {
                let n = x["name"].as_str().unwrap_or("").to_lowercase();
                let mut it = n.chars();
                let subseq = asked.to_lowercase().chars().all(|c| it.any(|d| d == c));
                let caps: String = asked.chars().filter(|c| c.is_uppercase()).collect();
                let ncaps: String = x["name"].as_str().unwrap_or("").chars().filter(|c| c.is_uppercase()).collect();
                if !subseq && (caps.is_empty() || !ncaps.starts_with(&caps)) {
                    r = bad("unrelated", format!("match {n:?}"));
                }
            }
            // kind, and each declaration once
            for i in by_name.get(q.as_str()).into_iter().flatten() {
                let s = &w.sites[*i];
                let (u, ln) = at(&w, *i);
                let kinds: Vec<i64> = got.iter().filter(|x| x.0 == u && x.1 == ln).map(|x| x.2).collect();
                let k = match s.kind {
                    K::MethDef => 6,
                    K::ConstDef => 14,
                    _ => {
                        let class = w.files[s.file].text.lines().nth(s.line as usize).is_some_and(|l| l.trim_start().starts_with("class"));
                        if class { 5 } else { 2 }
                    }
                };
                if kinds.iter().any(|x| *x != k) {
                    r = r.or(bad("kind", format!("kinds {kinds:?} at {u}:{ln}, want {k}")));
                }
                if kinds.len() != 1 {
                    r = r.or(bad("times", format!("listed {} times at {u}:{ln}", kinds.len())));
                }
            }
            r
        };
        if let Some(c) = r {
            return c;
        }
    }
    Case::ok(log, queries.len() >= 4)
}

// ---------------------------------------------------------------- C23

fn item_key(v: &Value) -> String {
    v["data"]["fqn"].as_str().unwrap_or("?").to_string()
}
fn rel(v: &Value) -> String {
    let d = v["detail"].as_str().unwrap_or("");
    d.split_once('(').and_then(|x| x.1.split_once(')')).map(|x| x.0.to_string()).unwrap_or_default()
}

fn hier(t: &mut Tape, o: Opts) -> Case {
    let w = generate(t, o);
    let log = show(&w);
    note_input(&log);
    let Some(tr) = truth(&w) else { return Case::ok(log, false) };
    let mut l = open_all(&w);
    let mut items: BTreeMap<String, Value> = BTreeMap::new();
    let mut judged = 0;
    for (i, s) in w.sites.iter().enumerate() {
        // at the header and at every use Ruby resolves to a namespace
        let fqn = match (s.kind, tr.target.get(&i)) {
            (K::NsDef, _) => tr.owner.get(&i).cloned(),
            (K::Const, Some(Target::Sites(v))) if !s.tag.contains("singclass") && w.sites[v[0]].kind == K::NsDef => tr.owner.get(&v[0]).cloned(),
            _ => None,
        };
        let Some(fqn) = fqn else { continue };
        let (u, _) = at(&w, i);
        let v = l.at("textDocument/prepareTypeHierarchy", &u, s.line, s.col);
        let it = &v[0];
        if item_key(it) != fqn || it["name"].as_str() != fqn.rsplit("::").next() {
            return Case::bad(log, format!("prepare|{:?}|{}", s.kind, s.tag), format!("prepareTypeHierarchy at {u} {}:{} \n Ruby: {fqn}\n server: {v}", s.line, s.col));
        }
        let defs: BTreeSet<At> = tr.owner.iter().filter(|x| *x.1 == fqn).map(|x| at(&w, *x.0)).collect();
        let here = (it["uri"].as_str().unwrap_or("").to_string(), range4(&it["range"])[0]);
        if !defs.contains(&here) {
            return Case::bad(log, "place".to_string(), format!("type hierarchy item of {fqn} at {here:?}, defined at {defs:?}"));
        }
        items.insert(fqn, it.clone());
    }
    let word = |k: &str| match k {
        "superclass" => ("superclass", "subclass"),
        "include" => ("include", "included by"),
        "prepend" => ("prepend", "prepended by"),
        _ => ("extend", "extended by"),
    };
    for (fqn, it) in &items {
        for (dir, method) in [(0, "typeHierarchy/supertypes"), (1, "typeHierarchy/subtypes")] {
            let want: BTreeSet<(String, String)> = tr
                .edges
                .iter()
                .filter(|e| if dir == 0 { &e.0 == fqn } else { &e.2 == fqn })
                .map(|e| if dir == 0 { (e.2.clone(), word(&e.1).0.to_string()) } else { (e.0.clone(), word(&e.1).1.to_string()) })
                .collect();
            let v = l.ask(method, json!({ "item": it }));
            let got: Vec<(String, String)> = v.as_array().into_iter().flatten().map(|x| (item_key(x), rel(x))).filter(|x| x.0 != "Object").collect();
            let set: BTreeSet<(String, String)> = got.iter().cloned().collect();
            judged += want.len();
            let fail = |sig: &str| Case::bad(log.clone(), format!("{sig}|{dir}"), format!("{method} of {fqn}\n Ruby: {want:?}\n server: {got:?}"));
            if !want.is_subset(&set) {
                return fail("missing");
            }
            if !set.is_subset(&want) {
                return fail("phantom");
            }
        }
        // ancestors: everything reachable through the hierarchy, and nothing else
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut work = vec![it.clone()];
        while let Some(x) = work.pop() {
            for y in l.ask("typeHierarchy/supertypes", json!({ "item": x })).as_array().into_iter().flatten() {
                if rel(y) != "extend" && item_key(y) != "Object" && seen.insert(item_key(y)) {
                    work.push(y.clone());
                }
            }
        }
        seen.insert(fqn.clone());
        let want: BTreeSet<String> = tr.ancestors.get(fqn).into_iter().flatten().filter(|x| !matches!(x.as_str(), "Object" | "Kernel" | "BasicObject") && !x.starts_with("JSON::")).cloned().collect();
        // (a module reopened with a mixin after it was included reaches its includers in Ruby 3)
        if seen != want {
            return Case::bad(log, "closure".to_string(), format!("transitive supertypes of {fqn}\n Ruby: {want:?}\n server: {seen:?}"));
        }
    }
    Case::ok(log, judged >= 2)
}
fn hier_abs(t: &mut Tape) -> Case {
    hier(t, ABS)
}
fn hier_uni(t: &mut Tape) -> Case {
    hier(t, UNI)
}

// ---------------------------------------------------------------- C26

fn edits(v: &Value) -> Vec<(String, [u32; 4], String)> {
    let mut out = vec![];
    for (u, es) in v["changes"].as_object().into_iter().flatten() {
        for e in es.as_array().into_iter().flatten() {
            out.push((u.clone(), range4(&e["range"]), e["newText"].as_str().unwrap_or("").to_string()));
        }
    }
    out
}

fn rename(t: &mut Tape, o: Opts, consts: bool) -> Case {
    let w = generate(t, o);
    let log = show(&w);
    note_input(&log);
    let Some(tr) = truth(&w) else { return Case::ok(log, false) };
    let mut l = open_all(&w);
    let place: BTreeMap<(String, u32, u32), usize> = w.sites.iter().enumerate().filter(|x| x.1.kind != K::Super && w.files[x.1.file].text.lines().nth(x.1.line as usize).is_some_and(|l| l.contains(&x.1.name))).map(|(i, s)| ((at(&w, i).0, s.line, s.col), i)).collect();
    let mut accepted = 0;
    // the def a super belongs to
    let mut encl: BTreeMap<usize, usize> = BTreeMap::new();
    let mut cur = None;
    for (i, s) in w.sites.iter().enumerate() {
        if s.kind == K::MethDef {
            cur = Some(i);
        }
        if let (K::Super, Some(c)) = (s.kind, cur) {
            encl.insert(i, c);
        }
    }
    for (i, s) in w.sites.iter().enumerate() {
        let ok = if consts { matches!(s.kind, K::NsDef | K::ConstDef | K::Const) } else { matches!(s.kind, K::MethDef | K::Call) };
        if !ok || !t.chance(60) {
            continue;
        }
        let (u, _) = at(&w, i);
        let new = if consts { "Fresh" } else { "fresh_name" };
        let v = l.ask("textDocument/rename", json!({"textDocument": {"uri": u}, "position": {"line": s.line, "character": s.col}, "newName": new}));
        if v.is_null() {
            continue;
        }
        accepted += 1;
        let es = edits(&v);
        let mut e: BTreeSet<usize> = BTreeSet::new();
        let bad = |sig: &str, m: String| Case::bad(log.clone(), sig.to_string(), format!("rename of `{}` at {u} {}:{}: {m}\n edits: {es:?}", s.name, s.line, s.col));
        for (eu, r, n) in &es {
            match place.get(&(eu.clone(), r[0], r[1])) {
                Some(x) if r[2] == r[0] && r[3] == w.sites[*x].end() && w.sites[*x].name == s.name && n == new => {
                    if !e.insert(*x) {
                        return bad("twice", format!("two edits at {eu} {r:?}"));
                    }
                }
                _ => return bad("stray", format!("edit outside any occurrence: {eu} {r:?} {n}")),
            }
        }
        if !e.contains(&i) {
            return bad("self", "the occurrence under the caret is not renamed".into());
        }
        let defs: BTreeSet<usize> = e.iter().copied().filter(|x| matches!(w.sites[*x].kind, K::MethDef | K::NsDef | K::ConstDef)).collect();
        if defs.is_empty() {
            return bad("nodef", "no definition is renamed".into());
        }
        if consts {
            // every definition of the same constant
            for d in &defs {
                if let Some(f) = tr.owner.get(d) {
                    for (x, g) in &tr.owner {
                        if f == g && !defs.contains(x) {
                            return bad("defs|reopen", format!("definition at {:?} is not renamed", at(&w, *x)));
                        }
                    }
                }
            }
        }
        for (x, sx) in w.sites.iter().enumerate() {
            let what = format!("{:?}|{}", sx.kind, sx.tag);
            let Some(Target::Sites(tg)) = tr.target.get(&x) else {
                if e.contains(&x) && matches!(sx.kind, K::Const | K::Call) && matches!(tr.target.get(&x), Some(Target::None | Target::Outside)) {
                    if sx.kind == K::Const && (sx.tag.contains("singclass") || sx.compact) {
                        continue;
                    }
                    return bad(&format!("phantom|{what}"), format!("{:?}:{} denotes {:?}", at(&w, x), sx.col, tr.target.get(&x)));
                }
                continue;
            };
            let hit = tg.iter().any(|d| defs.contains(d));
            match sx.kind {
                K::Const if consts => {
                    if sx.tag.contains("singclass") || sx.compact {
                        continue;
                    }
                    if hit && !e.contains(&x) {
                        return bad(&format!("missed|{what}"), format!("use at {:?}:{} is not renamed", at(&w, x), sx.col));
                    }
                    if !hit && e.contains(&x) {
                        return bad(&format!("foreign|{what}"), format!("use at {:?}:{} denotes another constant", at(&w, x), sx.col));
                    }
                }
                K::Call | K::Name if !consts => {
                    if sx.name != s.name {
                        continue;
                    }
                    let top = tg.iter().any(|d| w.sites[*d].tag == "top") && !sx.tag.ends_with(".top");
                    // (self calls in a module may be answered by whatever its includers define)
                    if sx.tag.ends_with(".mod") && tg.len() > 1 {
                        continue;
                    }
                    // (what a name in a visibility call denotes depends on when it runs)
                    let several = sx.kind == K::Name && w.sites.iter().filter(|y| y.kind == K::MethDef && y.name == sx.name).count() > 1;
                    if hit && !e.contains(&x) && !top && !several {
                        return bad(&format!("missed|{what}"), format!("use at {:?}:{} is not renamed", at(&w, x), sx.col));
                    }
                    let timed = sx.kind == K::Name && w.files.iter().any(|f| f.text.contains("prepend"));
                    if !timed && !several && e.contains(&x) && tg.iter().any(|d| !defs.contains(d)) {
                        return bad(&format!("foreign|{what}"), format!("use at {:?}:{} also denotes another method", at(&w, x), sx.col));
                    }
                }
                K::Super if !consts => {
                    let d = encl.get(&x).copied();
                    let from = d.is_some_and(|d| defs.contains(&d));
                    let top = tg.iter().any(|d| w.sites[*d].tag == "top");
                    if !top && hit != from && (hit || from) {
                        return bad(&format!("super|{what}"), format!("super at {:?} loses its target", at(&w, x)));
                    }
                }
                _ => {}
            }
        }
    }
    Case::ok(log, accepted >= 2)
}
fn ren_const(t: &mut Tape) -> Case {
    rename(t, Opts { compact: false, ..ABS }, true)
}
fn ren_meth(t: &mut Tape) -> Case {
    let o = if t.bool() { ABS } else { UNI };
    rename(t, o, false)
}
fn refs(t: &mut Tape, consts: bool) -> Case {
    let o = if t.bool() { ABS } else { UNI };
    let w = generate(t, o);
    let log = show(&w);
    note_input(&log);
    let Some(tr) = truth(&w) else { return Case::ok(log, false) };
    let mut l = open_all(&w);
    let mut judged = 0;
    for (i, s) in w.sites.iter().enumerate() {
        if !(if consts { matches!(s.kind, K::NsDef | K::ConstDef) } else { s.kind == K::MethDef }) {
            continue;
        }
        let (u, _) = at(&w, i);
        let defs: BTreeSet<usize> = match tr.owner.get(&i) {
            Some(f) => tr.owner.iter().filter(|x| x.1 == f).map(|x| *x.0).collect(),
            None => [i].into(),
        };
        let got = l.references(&u, s.line, s.col, true);
        for (x, sx) in w.sites.iter().enumerate() {
            if !(if consts { sx.kind == K::Const } else { sx.kind == K::Call }) {
                continue;
            }
            if sx.tag.contains("singclass") || (consts && sx.compact) {
                continue;
            }
            let Some(tg) = tr.target.get(&x) else { continue };
            let (hit, only) = match tg {
                Target::Sites(v) => (v.iter().any(|d| defs.contains(d)), v.len() == 1),
                Target::Maybe(v) => (v.iter().any(|d| defs.contains(d)), false),
                _ => (false, true),
            };
            let found = got.iter().any(|g| g.uri == at(&w, x).0 && g.r[2] == sx.line && g.r[3] == sx.end());
            let top = if let Target::Sites(v) = tg { v.iter().any(|d| w.sites[*d].tag == "top") && !sx.tag.ends_with(".top") } else { false };
            let bad = |sig: &str| Case::bad(log.clone(), format!("{sig}|{}|{}", s.tag, sx.tag), format!("references of `{}` at {u} {}:{}; use at {:?}:{} denotes {tg:?}\n server: {got:?}", s.name, s.line, s.col, at(&w, x), sx.col));
            if hit && only {
                judged += 1;
                if !found && !top {
                    return bad("missing");
                }
            }
            if found && !hit {
                return bad("foreign");
            }
        }
    }
    Case::ok(log, judged >= 2)
}
fn refs_const(t: &mut Tape) -> Case {
    refs(t, true)
}
#[allow(dead_code)]
fn refs_meth(t: &mut Tape) -> Case {
    refs(t, false)
}

pub fn prop_c22() -> Prop {
    Prop {
        id: "C22",
        rule: "a case is one generated multi-file program; every declared name is searched (exactly, in lower case, by prefix). Non-trivial: at least three distinct names",
        assumptions: &["the generator's own list of declarations is the reference", "fewer than 100 matches (the server's cap)"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("search", 5000, 120000, symbols)],
    }
}
pub fn prop_c23() -> Prop {
    Prop {
        id: "C23",
        rule: "a case is one generated multi-file program loaded by real Ruby; non-trivial if Ruby records at least two superclass or mixin relations among the program's namespaces",
        assumptions: &["Ruby 3.2.3 is the reference", "namespace short names are unique in the program"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("absolute", 3000, 60000, hier_abs), Lane::new("mixed", 3000, 60000, hier_uni)],
    }
}
pub fn prop_c26() -> Prop {
    Prop {
        id: "C26",
        rule: "a case is one generated multi-file program loaded by real Ruby; rename lanes: non-trivial if at least two renames were accepted; references lanes: if at least two uses Ruby binds to a judged definition exist",
        assumptions: &["Ruby 3.2.3 binds the instrumented twin as it would the program", "a call is bound to what the class it is written for resolves to", "uses inside `class << self` are not judged"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("rename-const", 2000, 40000, ren_const), Lane::new("rename-method", 2000, 40000, ren_meth), Lane::new("refs-const", 2000, 40000, refs_const)],
    }
}
