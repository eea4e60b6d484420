//! C15: member completion offers what Ruby would accept there.
use super::nav::*;
use crate::gen::world::*;
use crate::runner::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeSet;

fn labels(v: &Value) -> Vec<(String, i64)> {
    let a = if v.is_array() { v } else { &v["items"] };
    a.as_array().map(|a| a.iter().map(|x| (x["label"].as_str().unwrap_or("").to_string(), x["kind"].as_i64().unwrap_or(0))).collect()).unwrap_or_default()
}

fn members(t: &mut Tape) -> Case {
    let w = generate(t, Opts { reopen: true, unicode: true, redef: false, dangling: true, max_files: 3, size: 10, compact: false, unique: true, abs_edges: true });
    let log = show(&w);
    note_input(&log);
    let Some(tr) = truth(&w) else {
        return Case::ok(log, false);
    };
    let mut l = open_all(&w);
    for f in &w.files {
        l.change(&uri(&f.path), &format!("{}\n", f.text), 2);
        l.change(&uri(&f.path), &f.text, 3);
    }
    let known: BTreeSet<String> = w.sites.iter().filter(|s| s.kind == K::MethDef).map(|s| s.name.trim_start_matches(':').to_string()).chain(["colour", "weight", "owner", "colour=", "weight=", "owner="].map(String::from)).collect();
    let Some(pm) = tr.raw["pm"].as_object() else { return Case::ok(log, false) };
    let mut judged = 0;
    let mut ver = 1;
    l.open("file:///w/zz.rb", "", 1);
    for (ns, v) in pm {
        for (inst, names, all) in [(true, &v[0], &v[4]), (false, &v[1], &v[5])] {
            let Some(names) = names.as_array() else { continue };
            let want_all: BTreeSet<String> = names.iter().map(|x| x.as_str().unwrap().to_string()).filter(|x| known.contains(x)).collect();
            let partial = if t.below(3) == 0 && !known.is_empty() { let k: Vec<&String> = known.iter().collect(); let n = k[t.below(k.len())]; n.chars().take(1 + t.below(2)).collect::<String>() } else { String::new() };
            let recv = if inst { match t.below(2) { 0 => format!("{ns}.new."), _ => format!("v9 = {ns}.new\nv9.") } } else { format!("{ns}.") };
            let pad = ["", "'é'; ", "\"😀\"; "][t.below(3)];
            let text = if recv.contains('\n') { format!("{}{partial}\n", recv.replace('\n', &format!("\n{pad}"))) } else { format!("{pad}{recv}{partial}\n") };
            ver += 1;
            l.change("file:///w/zz.rb", &text, ver);
            let last = text.trim_end_matches('\n').split('\n').count() as u32 - 1;
            let col = text.trim_end_matches('\n').split('\n').last().unwrap().encode_utf16().count() as u32;
            let ctx = if partial.is_empty() { json!({"triggerKind": 2, "triggerCharacter": "."}) } else { json!({"triggerKind": 1}) };
            let r = l.ask("textDocument/completion", json!({"textDocument": {"uri": "file:///w/zz.rb"}, "position": {"line": last, "character": col}, "context": ctx}));
            let got: BTreeSet<String> = labels(&r).into_iter().map(|x| x.0).filter(|x| known.contains(x)).collect();
            let want: BTreeSet<String> = want_all.iter().filter(|x| x.starts_with(&partial)).cloned().collect();
            if !want.is_empty() {
                judged += 1;
            }
            let miss: Vec<_> = want.difference(&got).collect();
            let all: BTreeSet<String> = all.as_array().into_iter().flatten().map(|x| x.as_str().unwrap().to_string()).collect();
            let extra: Vec<_> = got.iter().filter(|x| !all.contains(*x) || !x.starts_with(&partial)).collect();
            let k = if inst { if recv.contains('\n') { "local" } else { "new" } } else { "const" };
            if !miss.is_empty() {
                return Case::bad(format!("{log}=== zz.rb\n{text}"), format!("missing|{k}"), format!("completion after `{recv}{partial}` misses {miss:?} (offers {got:?})"));
            }
            if !extra.is_empty() {
                return Case::bad(format!("{log}=== zz.rb\n{text}"), format!("extra|{k}"), format!("completion after `{recv}{partial}` offers {extra:?}, which Ruby rejects (want {want:?})"));
            }
        }
    }
    Case::ok(log, judged >= 2)
}

/// `A::B::` offers the constants written in A::B (those of its ancestors too, or not).
fn scoped(t: &mut Tape) -> Case {
    let w = generate(t, Opts { reopen: true, unicode: true, redef: false, dangling: true, max_files: 3, size: 12, compact: true, unique: true, abs_edges: true });
    let log = show(&w);
    note_input(&log);
    let Some(tr) = truth(&w) else {
        return Case::ok(log, false);
    };
    let mut l = open_all(&w);
    let Some(pm) = tr.raw["pm"].as_object() else { return Case::ok(log, false) };
    let mut judged = 0;
    let mut ver = 1;
    l.open("file:///w/zz.rb", "", 1);
    for (ns, v) in pm {
        let set = |k: usize| -> BTreeSet<String> { v[k].as_array().into_iter().flatten().map(|x| x.as_str().unwrap().to_string()).collect() };
        let (own, all) = (set(3), set(2));
        let pad = ["", "'é'; ", "x = ", "puts("][t.below(4)];
        let text = format!("{pad}{ns}::\n");
        ver += 1;
        l.change("file:///w/zz.rb", &text, ver);
        let col = text.trim_end().encode_utf16().count() as u32;
        let r = l.ask("textDocument/completion", json!({"textDocument": {"uri": "file:///w/zz.rb"}, "position": {"line": 0, "character": col}, "context": {"triggerKind": 2, "triggerCharacter": ":"}}));
        let items = labels(&r);
        let got: BTreeSet<String> = items.iter().map(|x| x.0.clone()).collect();
        if !own.is_empty() {
            judged += 1;
        }
        let miss: Vec<_> = own.difference(&got).collect();
        let extra: Vec<_> = got.difference(&all).collect();
        let depth = ns.matches("::").count();
        let kind = format!("{depth}|{}", pad.trim());
        if !miss.is_empty() {
            return Case::bad(format!("{log}=== zz.rb\n{text}"), format!("const-missing|{kind}"), format!("completion after `{pad}{ns}::` misses {miss:?} (offers {got:?})"));
        }
        if !extra.is_empty() {
            return Case::bad(format!("{log}=== zz.rb\n{text}"), format!("const-extra|{kind}"), format!("completion after `{pad}{ns}::` offers {extra:?} (want {own:?})"));
        }
    }
    Case::ok(log, judged >= 2)
}

/// Local variables offered in a statement are exactly those Ruby knows there.
fn locals(t: &mut Tape) -> Case {
    let uni = t.chance(30);
    let (src, _) = crate::gen::locals::program(t, uni);
    note_input(&src);
    let mut points = vec![];
    let mut twin = String::from("$__lv = {}; ");
    for (i, line) in src.lines().enumerate() {
        let at = line.find("$t << ").filter(|k| line[..*k].trim().trim_start_matches("\"é😀\";").trim().is_empty());
        match at {
            Some(k) => {
                let name: String = line[k + 6..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                let rest = &line[k + 6 + name.len()..];
                let plain = rest.is_empty() || rest.starts_with(" #");
                twin.push_str(&format!("{}$__lv[{i}] = binding.local_variables.map(&:to_s); {}\n", &line[..k], &line[k..]));
                if plain && !name.is_empty() && !name.starts_with(|c: char| c.is_ascii_digit()) {
                    points.push((i, line[..k + 6 + name.len()].encode_utf16().count() as u32));
                }
            }
            None => {
                twin.push_str(line);
                twin.push('\n');
            }
        }
    }
    let twin = twin.replace("$__out = $t.inspect", "$__out = $__lv.transform_keys(&:to_s)");
    let v = crate::rubyproc::eval(&[("a.rb".into(), twin.clone())]);
    if v["ok"] != true {
        crate::runner::harness_error(&format!("generated program does not run: {v}\n{twin}"));
    }
    let mut l = crate::lsp::Lsp::bare();
    l.open("file:///w/a.rb", &src, 1);
    let mut judged = 0;
    for (i, col) in points {
        let Some(want) = v["out"][i.to_string()].as_array() else { continue };
        // (the frame that evaluates the program has locals of its own)
        let want: BTreeSet<String> = want.iter().map(|x| x.as_str().unwrap().to_string()).filter(|x| !["data", "line", "out", "pid", "r", "src", "w"].contains(&x.as_str())).collect();
        judged += 1;
        let r = l.ask("textDocument/completion", json!({"textDocument": {"uri": "file:///w/a.rb"}, "position": {"line": i, "character": col}, "context": {"triggerKind": 1}}));
        let got: Vec<String> = labels(&r).into_iter().filter(|x| x.1 == 6).map(|x| x.0).collect();
        let set: BTreeSet<String> = got.iter().cloned().collect();
        let sig = if set.len() != got.len() { "local-twice" } else if want.difference(&set).next().is_some() { "local-missing" } else if set != want { "local-extra" } else { continue };
        return Case::bad(src, sig, format!("completion at {i}:{col} offers locals {got:?}\n Ruby knows {want:?}"));
    }
    Case::ok(src, judged >= 3)
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "a case is one generated multi-file program, loaded by real Ruby; non-trivial if at least two receivers have methods to offer",
        assumptions: &["Ruby 3.2.3 is the reference"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("locals", 3000, 60000, locals), Lane::new("scoped", 3000, 60000, scoped), Lane::new("members", 3000, 60000, members)],
    }
}
