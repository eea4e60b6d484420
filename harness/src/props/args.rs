//! C25/C24: argument diagnostics and signature help agree with real Ruby.
use crate::lsp::*;
use crate::runner::*;
use crate::rubyproc;
use crate::tape::Tape;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
enum PK {
    Req,
    Opt,
    Rest,
    Post,
    KeyReq,
    Key,
    KeyRest,
    NoKey,
    Block,
    Fwd,
    ARest,
    AKeyRest,
    Destr,
}
#[derive(Clone, Debug)]
struct Par {
    k: PK,
    n: String,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum MK {
    Inst,
    Sing,
    Init,
    Top,
}
struct M {
    ns: usize,
    name: String,
    ps: Vec<Par>,
    kind: MK,
    /// the definition is a plain def whose shape the server is expected to know
    plain: bool,
}
struct Call {
    id: usize,
    file: usize,
    line: u32,
    last: u32,
    col: u32,
    m: usize,
    /// every violation must be reported (no splats, only literal arguments)
    full: bool,
    form: &'static str,
    /// (line, column just after the start of the argument, Ok(positional index) or Err(keyword))
    probes: Vec<(u32, u32, Result<usize, String>)>,
    parens: bool,
}
struct F {
    path: String,
    text: String,
    twin: String,
}
impl F {
    fn line(&self) -> u32 {
        self.text.matches('\n').count() as u32
    }
    fn both(&mut self, s: &str) {
        self.text.push_str(s);
        self.twin.push_str(s);
    }
}

const KW: &[&str] = &["name", "size", "é", "mode", "key"];

fn params(t: &mut Tape) -> Vec<Par> {
    let mut v = vec![];
    if t.chance(4) {
        // (before `...`, Ruby 3.2 turns bare keywords into a positional hash)
        v.push(Par { k: PK::Fwd, n: "...".into() });
        return v;
    }
    for i in 0..t.weighted(&[3, 4, 2, 1]) {
        let k = if t.chance(5) { PK::Destr } else { PK::Req };
        v.push(Par { k, n: format!("a{i}") });
    }
    for i in 0..t.weighted(&[5, 3, 1]) {
        v.push(Par { k: PK::Opt, n: format!("b{i}") });
    }
    let rest = t.chance(25);
    if rest {
        v.push(if t.chance(25) { Par { k: PK::ARest, n: "*".into() } } else { Par { k: PK::Rest, n: "rest".into() } });
    }
    if (rest || v.iter().any(|p| p.k == PK::Opt)) && t.chance(30) {
        for i in 0..1 + t.below(2) {
            v.push(Par { k: PK::Post, n: format!("z{i}") });
        }
    }
    let mut kws = KW.to_vec();
    t.shuffle(&mut kws);
    for k in kws.iter().take(t.weighted(&[4, 3, 2, 1])) {
        let kind = if t.bool() { PK::KeyReq } else { PK::Key };
        v.push(Par { k: kind, n: k.to_string() });
    }
    // a positional parameter may bear the name of a keyword it is not
    if t.chance(12) {
        let free: Vec<&str> = KW.iter().filter(|k| !v.iter().any(|p| p.n == **k)).copied().collect();
        let i = t.below(v.len().max(1));
        if !free.is_empty() && i < v.len() && matches!(v[i].k, PK::Req | PK::Opt | PK::Rest | PK::Post) {
            v[i].n = t.pick(&free).to_string();
        }
    }
    match t.weighted(&[12, 5, 1, 1]) {
        1 => v.push(Par { k: PK::KeyRest, n: "opts".into() }),
        2 => v.push(Par { k: PK::AKeyRest, n: "**".into() }),
        3 if !v.iter().any(|p| matches!(p.k, PK::KeyReq | PK::Key)) => v.push(Par { k: PK::NoKey, n: "**nil".into() }),
        _ => {}
    }
    if t.chance(20) {
        v.push(Par { k: PK::Block, n: "blk".into() });
    }
    v
}
fn plist(t: &mut Tape, ps: &[Par]) -> String {
    ps.iter()
        .map(|p| match p.k {
            PK::Req | PK::Post => p.n.clone(),
            PK::Destr => format!("({}, {}y)", p.n, p.n),
            PK::Opt => format!("{} = {}", p.n, t.pick(&["1", "nil", "{}", "[1, 2]", "\"s, t\""])),
            PK::Rest => format!("*{}", p.n),
            PK::KeyReq => format!("{}:", p.n),
            PK::Key => format!("{}: {}", p.n, t.pick(&["1", "nil", "{ a: 1 }"])),
            PK::KeyRest => format!("**{}", p.n),
            PK::Block => format!("&{}", p.n),
            PK::NoKey | PK::Fwd | PK::ARest | PK::AKeyRest => p.n.clone(),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

struct Prog {
    files: Vec<F>,
    ms: Vec<M>,
    calls: Vec<Call>,
    nss: Vec<(String, bool)>,
    post: String,
}

/// Arguments for a call of m: roughly right, so that small mistakes are common.
fn args(t: &mut Tape, m: &M) -> (Vec<(String, Result<usize, String>)>, bool) {
    let mut full = true;
    let req = m.ps.iter().filter(|p| matches!(p.k, PK::Req | PK::Post | PK::Destr)).count();
    let opt = m.ps.iter().filter(|p| p.k == PK::Opt).count();
    let mut n = match t.weighted(&[6, 2, 1, 1, 1]) {
        0 => req + if opt > 0 { t.below(opt + 1) } else { 0 },
        1 => req + opt + 1,
        2 => req.saturating_sub(1),
        3 => 0,
        _ => t.below(5),
    };
    let mut out: Vec<(String, Result<usize, String>)> = vec![];
    let mut i = 0;
    while n > 0 {
        n -= 1;
        let a = match t.weighted(&[20, 6, 3, 2, 1, 1, 1, 1]) {
            0 => "1".to_string(),
            1 => "\"s\"".into(),
            2 => "[1, 2]".into(),
            3 => "\"a, b\"".into(),
            4 => {
                full = false;
                "{ name: 1 }".into()
            }
            5 => {
                full = false;
                t.pick(&["*[1]", "*[]", "*[1, 2]"]).to_string()
            }
            6 => {
                full = false;
                "nil".into()
            }
            _ => {
                full = false;
                t.pick(&["{}", "{ \"k\" => 1 }", ":sym", "[1, 2].first", "1 + 1"]).to_string()
            }
        };
        out.push((a, Ok(i)));
        i += 1;
    }
    let mut given: BTreeSet<String> = BTreeSet::new();
    let declared: Vec<&Par> = m.ps.iter().filter(|p| matches!(p.k, PK::KeyReq | PK::Key)).collect();
    let mut kws: Vec<String> = vec![];
    for p in &declared {
        let keep = if p.k == PK::KeyReq { !t.chance(12) } else { t.bool() };
        if keep {
            kws.push(p.n.clone());
        }
    }
    let named = m.ps.iter().find(|p| KW.contains(&p.n.as_str()) && matches!(p.k, PK::Req | PK::Opt | PK::Rest | PK::Post));
    if let Some(p) = named.filter(|_| t.chance(40)) {
        kws.push(p.n.clone());
    }
    if t.chance(if declared.is_empty() { 12 } else { 18 }) {
        kws.push(t.pick(&["name", "size", "nam", "bogus", "mode"]).to_string());
    }
    if t.chance(30) {
        t.shuffle(&mut kws);
    }
    for k in kws {
        if !given.insert(k.clone()) {
            continue;
        }
        let a = match t.weighted(&[10, 2, 1]) {
            0 => format!("{k}: 1"),
            1 => format!("{k}: [1, 2]"),
            _ => format!(":{k} => 1"),
        };
        out.push((a, Err(k)));
    }
    if t.chance(5) {
        full = false;
        out.push((t.pick(&["**{}", "**{ name: 1 }", "**{ size: 1, mode: 2 }", "\"k\" => 1"]).to_string(), Err("**".into())));
    }
    if t.chance(5) {
        out.push(("&nil".into(), Err("&".into())));
    }
    (out, full)
}

fn indent(d: usize) -> String {
    "  ".repeat(d)
}

fn gen(t: &mut Tape) -> Prog {
    let nfiles = 1 + t.below(2);
    let mut files: Vec<F> = (0..nfiles).map(|i| F { path: format!("{}.rb", (b'a' + i as u8) as char), text: String::new(), twin: String::new() }).collect();
    let mut nss: Vec<(String, bool)> = vec![];
    let mut ms: Vec<M> = vec![];
    let mut sup: BTreeMap<usize, usize> = BTreeMap::new();
    let mut mix: BTreeMap<usize, Vec<(usize, bool)>> = BTreeMap::new();
    let names = ["Box", "Cart", "Tool", "Node", "Pipe"];
    let n = 1 + t.below(4);
    for i in 0..n {
        let class = i == 0 || !t.chance(20);
        let outer = if i > 0 && t.chance(15) { Some(t.below(i)) } else { None };
        let fqn = match outer {
            Some(o) => format!("{}::{}", nss[o].0, names[i]),
            None => names[i].to_string(),
        };
        nss.push((fqn, class));
        if class && t.chance(35) {
            let c: Vec<usize> = (0..i).filter(|j| nss[*j].1).collect();
            if !c.is_empty() {
                sup.insert(i, *t.pick(&c));
            }
        }
        if t.chance(30) {
            let c: Vec<usize> = (0..i).filter(|j| !nss[*j].1).collect();
            if !c.is_empty() {
                let x = (*t.pick(&c), t.chance(30));
                mix.entry(i).or_default().push(x);
            }
        }
    }
    // definitions; files in load order, namespaces in order, so everything resolves
    let mut has_init: BTreeSet<usize> = BTreeSet::new();
    for i in 0..n {
        let k = (i * nfiles) / n.max(1);
        let (fqn, class) = nss[i].clone();
        let mut h = format!("{} {fqn}", if class { "class" } else { "module" });
        if let Some(s) = sup.get(&i) {
            h.push_str(&format!(" < {}", nss[*s].0));
        }
        files[k].both(&format!("{h}\n"));
        for (m, ext) in mix.get(&i).cloned().unwrap_or_default() {
            files[k].both(&format!("  {} {}\n", if ext { "extend" } else { "include" }, nss[m].0));
        }
        for _ in 0..1 + t.below(3) {
            let mut ps = params(t);
            let kind = if class { [MK::Inst, MK::Inst, MK::Sing, MK::Init][t.below(4)] } else { [MK::Inst, MK::Sing][t.below(2)] };
            if kind == MK::Init && !has_init.insert(i) {
                continue;
            }
            let name = if kind == MK::Init { "initialize".to_string() } else { format!("{}{}", t.pick(&["run", "save", "fetch_it", "ping"]), ms.len()) };
            let mut plain = !ps.iter().any(|p| matches!(p.k, PK::Fwd | PK::ARest | PK::AKeyRest | PK::NoKey));
            let pl = plist(t, &ps);
            let d = match kind {
                MK::Sing if t.chance(40) => format!("  class << self\n    def {name}({pl})\n    end\n  end\n"),
                MK::Sing => format!("  def self.{name}({pl})\n  end\n"),
                MK::Inst if t.chance(8) && !ps.iter().any(|p| matches!(p.k, PK::Fwd | PK::ARest | PK::AKeyRest)) => {
                    plain = false;
                    format!("  define_method(:{name}) {{ |{pl}| nil }}\n")
                }
                MK::Inst if t.chance(6) => {
                    ps = vec![];
                    plain = false;
                    format!("  attr_reader :{name}\n")
                }
                MK::Inst if t.chance(10) => format!("  def {name}({pl}) = nil\n"),
                _ if t.chance(15) && !ps.is_empty() && !ps.iter().any(|p| matches!(p.k, PK::Fwd | PK::Destr)) && !pl.ends_with('*') && !pl.contains("*, ") => format!("  def {name} {pl}\n    nil\n  end\n"),
                _ if t.chance(20) => format!("  def {name}({})\n    nil\n  end\n", pl.replace(", ", ",\n    ").replace("\"s,\n    t\"", "\"s, t\"")),
                _ => format!("  def {name}({pl})\n    nil\n  end\n"),
            };
            files[k].both(&d);
            ms.push(M { ns: i, name, ps, kind, plain });
        }
        files[k].both("end\n");
    }
    if t.chance(30) {
        let ps = params(t);
        let pl = plist(t, &ps);
        let plain = !ps.iter().any(|p| matches!(p.k, PK::Fwd | PK::ARest | PK::AKeyRest | PK::NoKey));
        let last = nfiles - 1;
        files[last].both(&format!("def helper({pl})\nend\n"));
        ms.push(M { ns: usize::MAX, name: "helper".into(), ps, kind: MK::Top, plain });
    }
    // who responds to an instance method of ns x
    let users = |x: usize, inst: bool| -> Vec<usize> {
        let mut set: BTreeSet<usize> = BTreeSet::new();
        set.insert(x);
        loop {
            let before = set.len();
            for i in 0..n {
                if sup.get(&i).is_some_and(|s| set.contains(s)) || (inst && mix.get(&i).is_some_and(|v| v.iter().any(|(m, e)| !*e && set.contains(m)))) {
                    set.insert(i);
                }
            }
            if set.len() == before {
                break;
            }
        }
        set.into_iter().collect()
    };
    let init_of = |mut c: usize| -> bool {
        loop {
            if has_init.contains(&c) {
                return true;
            }
            match sup.get(&c) {
                Some(s) => c = *s,
                None => return false,
            }
        }
    };
    // calls, all in the last file (everything is loaded by then)
    let mut calls: Vec<Call> = vec![];
    let mut post = String::new();
    let f = nfiles - 1;
    if ms.is_empty() {
        return Prog { files, ms, calls, nss, post };
    }
    for id in 0..2 + t.below(8) {
        let mi = t.below(ms.len());
        let m = &ms[mi];
        let (av, full) = args(t, m);
        // where
        let mut pre = String::new(); // text before the call on its line
        let recv: String;
        let form: &'static str;
        let mut depth = 0;
        let mut closing = String::new();
        let mut name = m.name.clone();
        match m.kind {
            MK::Top => {
                recv = String::new();
                form = "top";
            }
            MK::Init => {
                // a class that inherits this initialize
                let us: Vec<usize> = users(m.ns, false)
                    .into_iter()
                    .filter(|u| {
                        let mut c = *u;
                        while !has_init.contains(&c) {
                            c = sup[&c];
                        }
                        c == m.ns
                    })
                    .collect();
                recv = format!("{}{}.", if t.chance(20) { "::" } else { "" }, nss[*t.pick(&us)].0);
                name = "new".into();
                form = "new";
            }
            MK::Sing => {
                let us = users(m.ns, false);
                let u = *t.pick(&us);
                if nss[u].1 == nss[m.ns].1 && t.chance(25) {
                    // implicit self in a singleton method
                    files[f].both(&format!("{} {}\n  def self.use{id}\n", if nss[u].1 { "class" } else { "module" }, nss[u].0));
                    depth = 2;
                    closing = "  end\nend\n".into();
                    post.push_str(&format!("{}.use{id}\n", nss[u].0));
                    recv = if t.bool() { "self.".into() } else { String::new() };
                    form = "self-singleton";
                } else {
                    recv = format!("{}.", nss[u].0);
                    form = "constant";
                }
            }
            MK::Inst => {
                let us: Vec<usize> = users(m.ns, true).into_iter().filter(|u| nss[*u].1).collect();
                if us.is_empty() {
                    // module only used through extend
                    let ex: Vec<usize> = (0..n).filter(|i| mix.get(i).is_some_and(|v| v.contains(&(m.ns, true)))).collect();
                    if ex.is_empty() {
                        continue;
                    }
                    recv = format!("{}.", nss[*t.pick(&ex)].0);
                    form = "extended";
                } else {
                    let u = *t.pick(&us);
                    if init_of(u) || t.chance(35) {
                        files[f].both(&format!("class {}\n  def use{id}\n", nss[u].0));
                        depth = 2;
                        closing = "  end\nend\n".into();
                        post.push_str(&format!("{}.allocate.use{id}\n", nss[u].0));
                        recv = if t.bool() { "self.".into() } else { String::new() };
                        form = "self";
                    } else if t.bool() {
                        recv = format!("{}.new.", nss[u].0);
                        form = "fresh";
                    } else {
                        files[f].both(&format!("v{id} = {}.new\n", nss[u].0));
                        recv = format!("v{id}{}", if t.chance(15) { "&." } else { "." });
                        form = "local";
                    }
                }
            }
        }
        if t.chance(20) {
            pre.push_str(*t.pick(&["\"é\"; ", "\"😀\"; ", "_ = 1; "]));
        }
        let parens = !(t.chance(20) && !av.is_empty() && !av[0].0.starts_with(['{', '[', '*', '&', ':']) && (av.last().is_none_or(|a| !a.0.starts_with('&')) || true));
        let multi = parens && av.len() > 1 && t.chance(15);
        let line = files[f].line();
        let lead = indent(depth) + &pre + &recv;
        let col = lead.encode_utf16().count() as u32;
        let mut call = lead.clone() + &name;
        let mut probes = vec![];
        call.push_str(if parens { "(" } else { " " });
        let mut ln = line;
        let mut cur = call.encode_utf16().count() as u32;
        if !parens && av.is_empty() {
            call.pop();
        }
        for (i, (a, w)) in av.iter().enumerate() {
            if i > 0 {
                if multi {
                    call.push_str(",\n    ");
                    ln += 1;
                    cur = 4;
                } else {
                    call.push_str(", ");
                    cur += 2;
                }
            }
            if !a.starts_with('&') && !a.starts_with('*') && !a.contains(".first") && !a.contains(" + ") {
                probes.push((ln, cur + 1, w.clone()));
            }
            call.push_str(a);
            cur += a.encode_utf16().count() as u32;
        }
        if parens {
            if av.is_empty() && t.bool() {
                call.pop(); // no parentheses at all
            } else {
                call.push(')');
            }
        }
        let blockless = av.last().is_none_or(|a| !a.0.starts_with('&'));
        if blockless && parens && t.chance(12) {
            call.push_str(*t.pick(&[" { }", " do\n    nil\n  end", " { |x| x }"]));
        }
        let last = line + call.matches('\n').count() as u32;
        files[f].text.push_str(&format!("{call}\n"));
        files[f].twin.push_str(&format!("begin; {call}\nrescue ArgumentError => e; __r({id}, e); end; __m({id}, {}, {:?})\n", match m.kind { MK::Top => "Object".into(), _ => nss[m.ns].0.clone() }, m.name));
        files[f].both(&closing);
        let has_parens = call[lead.len() + name.len()..].starts_with('(');
        calls.push(Call { id, file: f, line, last, col, m: mi, full, form, probes, parens: has_parens });
    }
    Prog { files, ms, calls, nss, post }
}

const PRE: &str = "$__out = {}\ndef __r(i, e) = $__out[i.to_s] = [e.message, e.backtrace_locations&.size]\n$__ps = {}\ndef __m(i, o, n) = nil\n";

fn show(p: &Prog) -> String {
    p.files.iter().map(|f| format!("=== {}\n{}", f.path, f.text)).collect()
}

fn run_ruby(p: &Prog) -> Value {
    let mut fs = vec![("pre".to_string(), PRE.to_string())];
    for f in &p.files {
        fs.push((f.path.clone(), f.twin.clone()));
    }
    fs.push(("post".into(), p.post.clone()));
    let v = rubyproc::eval(&fs);
    if v["ok"] != true {
        if v["err"] == "TypeError" {
            return Value::Null;
        }
        harness_error(&format!("argument program does not run: {v}\n{}", p.files.iter().map(|f| f.twin.clone()).collect::<String>()));
    }
    v["out"].clone()
}

fn open(p: &Prog) -> Lsp {
    let mut l = Lsp::bare();
    l.open("file:///w/core.rb", "class BasicObject\nend\nmodule Kernel\nend\nclass Object < BasicObject\n  include Kernel\nend\nclass Module\nend\nclass Class < Module\nend\n", 1);
    for f in &p.files {
        note_source(&f.text);
        l.open(&super::nav::uri(&f.path), &f.text, 1);
    }
    l
}

fn keys(s: &str) -> BTreeSet<String> {
    s.split(", ").map(|x| x.trim().trim_start_matches(':').trim_matches('"').to_string()).collect()
}

fn diags(t: &mut Tape) -> Case {
    let p = gen(t);
    let log = show(&p);
    note_input(&log);
    let truth = run_ruby(&p);
    if truth.is_null() && !p.calls.is_empty() {
        return Case::ok(log, false);
    }
    let mut l = open(&p);
    for f in &p.files {
        l.save(&super::nav::uri(&f.path));
    }
    let mut seen: Vec<(usize, Value)> = vec![];
    let mut err = None;
    for try_ in 0..60 {
        l.settle();
        seen.clear();
        err = None;
        for (i, f) in p.files.iter().enumerate() {
            for d in l.diagnostics(&super::nav::uri(&f.path)) {
                if matches!(d["code"].as_str(), Some("wrong-arity" | "unknown-kwarg" | "missing-kwarg")) {
                    seen.push((i, d));
                }
            }
        }
        // nothing outside the calls
        for (i, d) in &seen {
            let r = range4(&d["range"]);
            if !p.calls.iter().any(|c| c.file == *i && (c.line..=c.last).contains(&r[0])) {
                err = Some(("stray".to_string(), format!("diagnostic outside any call: {d}")));
            }
        }
        for c in &p.calls {
            let here: Vec<&Value> = seen.iter().filter(|(i, d)| *i == c.file && (c.line..=c.last).contains(&range4(&d["range"])[0])).map(|x| &x.1).collect();
            let m = &p.ms[c.m];
            let ruby = truth[c.id.to_string()][0].as_str();
            let msgs: Vec<String> = here.iter().map(|d| d["message"].as_str().unwrap_or("").to_string()).collect();
            let fail = |sig: &str, what: &str| {
                Some((format!("{sig}|{}|{}", c.form, if m.plain { "def" } else { "other" }), format!("call of {} at {}:{} ({what})\n Ruby: {ruby:?}\n server: {msgs:?}", m.name, p.files[c.file].path, c.line)))
            };
            let has = |code: &str| here.iter().any(|d| d["code"] == code);
            // places: the method name, or the keyword
            for d in &here {
                let r = range4(&d["range"]);
                if d["code"] != "unknown-kwarg" && (r[0] != c.line || r[1] != c.col) {
                    err = err.or(fail("place", "diagnostic is not on the method name"));
                }
                if d["code"] == "unknown-kwarg" && !c.probes.iter().any(|(ln, col, w)| *ln == r[0] && w.is_err() && (col - 1 == r[1] || *col == r[1])) {
                    err = err.or(fail("place", "unknown-kwarg is not on a keyword"));
                }
            }
            match ruby {
                None => {
                    if !here.is_empty() {
                        err = err.or(fail("false-alarm", "Ruby accepts the call"));
                    }
                }
                // self in a module's own methods may be any object the module extends
                Some(_) if c.form == "self-singleton" && !p.nss[m.ns].1 => {}
                Some(_) if !c.full || !m.plain => {}
                Some(msg) => {
                    if let Some(x) = msg.strip_prefix("wrong number of arguments (given ") {
                        let x = x.trim_end_matches(')');
                        let (given, rest) = x.split_once(", expected ").unwrap_or((x, ""));
                        let want = rest.split(';').next().unwrap_or("");
                        let exact = format!("(expected {want}, got {given})");
                        if !msgs.iter().any(|m| m.contains(&exact)) {
                            err = err.or(fail("arity", &format!("want {exact}")));
                        }
                    } else if let Some((_, x)) = msg.strip_prefix("missing keyword").and_then(|m| m.split_once(": ")) {
                        let want = keys(x);
                        let got: BTreeSet<String> = here.iter().filter(|d| d["code"] == "missing-kwarg").flat_map(|d| d["message"].as_str().unwrap_or("").rsplit_once("`: ").map(|x| x.1.split(", ").map(|k| k.trim_matches('`').trim_end_matches(':').to_string()).collect::<Vec<_>>()).unwrap_or_default()).collect();
                        if got != want || has("wrong-arity") {
                            err = err.or(fail("missing", &format!("want missing {want:?}")));
                        }
                    } else if let Some((_, x)) = msg.strip_prefix("unknown keyword").and_then(|m| m.split_once(": ")) {
                        let want = keys(x);
                        let got: BTreeSet<String> = here.iter().filter(|d| d["code"] == "unknown-kwarg").filter_map(|d| d["message"].as_str().unwrap_or("").split('`').nth(1).map(|k| k.trim_end_matches(':').to_string())).collect();
                        if got != want || has("wrong-arity") || has("missing-kwarg") {
                            err = err.or(fail("unknown", &format!("want unknown {want:?}")));
                        }
                    } else if here.is_empty() {
                        err = err.or(fail("silent", "Ruby rejects the call"));
                    }
                }
            }
        }
        if err.is_none() {
            break;
        }
        if try_ > 5 {
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
    }
    if let Some((sig, m)) = err {
        return Case::bad(log, sig, m);
    }
    let rejected = p.calls.iter().filter(|c| !truth[c.id.to_string()].is_null()).count();
    Case::ok(log, rejected >= 1 && rejected < p.calls.len())
}

fn label(p: &Par) -> String {
    match p.k {
        PK::Req | PK::Post => p.n.clone(),
        PK::Destr => format!("({}, {}y)", p.n, p.n),
        PK::Opt => format!("{} = ...", p.n),
        PK::Rest => format!("*{}", p.n),
        PK::KeyReq => format!("{}:", p.n),
        PK::Key => format!("{}: ...", p.n),
        PK::KeyRest => format!("**{}", p.n),
        PK::Block => format!("&{}", p.n),
        PK::NoKey | PK::Fwd | PK::ARest | PK::AKeyRest => p.n.clone(),
    }
}

fn help(t: &mut Tape) -> Case {
    let p = gen(t);
    let log = show(&p);
    note_input(&log);
    let mut l = open(&p);
    let mut judged = 0;
    for c in &p.calls {
        let m = &p.ms[c.m];
        if !m.plain || c.form == "extended" {
            continue;
        }
        let u = super::nav::uri(&p.files[c.file].path);
        let splat = !c.full;
        for (ln, col, w) in &c.probes {
            let v = l.at("textDocument/signatureHelp", &u, *ln, *col);
            let shown = v.to_string();
            let fail = |sig: &str, want: String| Case::bad(log.clone(), format!("{sig}|{}", c.form), format!("signature help for `{}` at {u} {ln}:{col}\n want: {want}\n server: {shown}", m.name));
            if !c.parens {
                continue;
            }
            let want: Vec<String> = m.ps.iter().map(label).collect();
            let sigs = v["signatures"].as_array().cloned().unwrap_or_default();
            let got: Vec<Vec<String>> = sigs.iter().map(|s| s["parameters"].as_array().into_iter().flatten().map(|x| x["label"].as_str().unwrap_or("?").to_string()).collect()).collect();
            if got.len() != 1 || got[0] != want {
                return fail("params", format!("{want:?}"));
            }
            judged += 1;
            if splat {
                continue;
            }
            let lead = m.ps.iter().filter(|p| matches!(p.k, PK::Req | PK::Destr)).count();
            let positional = m.ps.iter().take_while(|p| matches!(p.k, PK::Req | PK::Opt | PK::Destr)).count();
            let rest = m.ps.iter().position(|p| p.k == PK::Rest);
            let post = m.ps.iter().any(|p| p.k == PK::Post);
            let active = match w {
                // positional arguments up to where Ruby's filling order matters
                Ok(i) if *i < lead || (*i < positional && !post) => Some(*i),
                Ok(_) if rest.is_some() && !post => rest,
                Err(k) => m.ps.iter().position(|p| matches!(p.k, PK::KeyReq | PK::Key) && &p.n == k).or_else(|| if k != "&" && k != "**" { m.ps.iter().position(|p| p.k == PK::KeyRest) } else { None }),
                _ => None,
            };
            if let Some(a) = active {
                if v["activeParameter"].as_u64() != Some(a as u64) {
                    return fail("active", format!("active parameter {a} ({})", want[a]));
                }
            }
        }
    }
    Case::ok(log, judged >= 2)
}

pub fn prop_c25() -> Prop {
    Prop {
        id: "C25",
        rule: "a case is one generated program of classes, modules and methods with every parameter kind, and calls of them with generated arguments; real Ruby runs every call. Non-trivial: Ruby rejects at least one call and accepts at least one",
        assumptions: &["Ruby 3.2.3 is the reference", "a missing diagnostic is judged only for methods written as def, with named parameters and literal arguments"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("calls", 4000, 120000, diags)],
    }
}
pub fn prop_c24() -> Prop {
    Prop {
        id: "C24",
        rule: "a case is one generated program as in C25; signature help is requested in every argument of every parenthesised call. Non-trivial: at least two judged positions",
        assumptions: &["the parameter list the generator wrote is the reference", "the active parameter is judged where Ruby's filling order is fixed by position or keyword"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("calls", 4000, 120000, help)],
    }
}
