//! C03/C04: go-to-definition of methods and constants agrees with real Ruby.
use crate::gen::world::*;
use crate::lsp::*;
use crate::runner::*;
use crate::snap::canon;
use crate::tape::Tape;
use std::collections::BTreeSet;

pub fn uri(p: &str) -> String {
    format!("file:///w/{p}")
}

pub fn open_all(w: &World) -> Lsp {
    let mut l = Lsp::bare();
    // The universal root every class inherits from (core stubs provide it in a workspace).
    l.open("file:///w/core.rb", "class Object\nend\n", 1);
    for f in &w.files {
        note_source(&f.text);
        l.open(&uri(&f.path), &f.text, 1);
    }
    l
}

pub type At = (String, u32);
pub fn at(w: &World, s: usize) -> At {
    let s = &w.sites[s];
    (uri(&w.files[s.file].path), s.line)
}

fn nav(t: &mut Tape, kinds: &[K], o: Opts) -> Case {
    let w = generate(t, o);
    let log = show(&w);
    note_input(&log);
    let Some(tr) = truth(&w) else {
        return Case::ok(log, false);
    };
    let mut l = open_all(&w);
    let mut judged = 0;
    for (i, s) in w.sites.iter().enumerate() {
        if !kinds.contains(&s.kind) {
            continue;
        }
        let Some(tg) = tr.target.get(&i) else { continue };
        // Inside `class << self` Ruby continues in the singleton's ancestors;
        // that part is not claimed. Nor are value constants in bodies opened by a
        // compact header (pinned finding compact-lexical).
        let value = s.name.chars().nth(1).is_some_and(|c| c.is_uppercase()) || s.name == "Mode";
        if s.kind == K::Const && (s.tag.contains("singclass") || (s.compact && value)) {
            continue;
        }
        let (u, _) = at(&w, i);
        let got: BTreeSet<At> = l.definition(&u, s.line, s.col).into_iter().map(|x| (x.uri, x.r[0])).collect();
        let bad = |sig: &str, want: String| {
            Some(Case::bad(
                log.clone(),
                format!("{sig}|{}", s.tag),
                format!("go-to-definition on `{}` at {u} {}:{}\n Ruby: {want}\n server: {got:?}", s.name, s.line, s.col),
            ))
        };
        let r = match tg {
            // A method defined at the top level is only claimed from the top level
            // (elsewhere the server wants proof that the defining file was loaded).
            Target::Sites(v) if v.iter().any(|x| w.sites[*x].tag == "top") && !s.tag.ends_with(".top") => {
                let want: BTreeSet<At> = v.iter().map(|x| at(&w, *x)).collect();
                if got.is_subset(&want) {
                    None
                } else {
                    bad("wrong", format!("at most {want:?}"))
                }
            }
            Target::Sites(v) => {
                judged += 1;
                let want: BTreeSet<At> = v.iter().map(|x| at(&w, *x)).collect();
                if got.is_empty() {
                    bad("missing", format!("{want:?}"))
                } else if !got.is_subset(&want) {
                    bad("wrong", format!("{want:?}"))
                } else {
                    None
                }
            }
            Target::Maybe(v) => {
                let want: BTreeSet<At> = v.iter().map(|x| at(&w, *x)).collect();
                if got.is_subset(&want) {
                    None
                } else {
                    bad("wrong", format!("at most {want:?}"))
                }
            }
            Target::None if !got.is_empty() && s.kind != K::Const => bad("phantom", "no such thing (NameError)".into()),
            _ => None,
        };
        if let Some(c) = r {
            return c;
        }
    }
    Case::ok(log, judged >= 3)
}

const SHADOW: Opts = Opts { reopen: true, unicode: true, redef: false, dangling: true, max_files: 3, size: 10, compact: false, unique: false, abs_edges: true };
const UNIQUE: Opts = Opts { compact: true, unique: true, abs_edges: false, ..SHADOW };

fn const_shadow(t: &mut Tape) -> Case {
    nav(t, &[K::Const], SHADOW)
}
fn const_unique(t: &mut Tape) -> Case {
    nav(t, &[K::Const], UNIQUE)
}
fn meth_abs(t: &mut Tape) -> Case {
    nav(t, &[K::Call, K::Super], Opts { compact: false, abs_edges: true, ..UNIQUE })
}
fn meth_unique(t: &mut Tape) -> Case {
    nav(t, &[K::Call, K::Super], UNIQUE)
}


/// Fixed programs: `«` marks the use, `»` the definition Ruby leads to (none: Ruby raises).
fn pinned(t: &mut Tape, progs: &[(&str, &str)]) -> Case {
    let (name, src) = progs[t.below(progs.len())];
    let mut text = String::new();
    let (mut at, mut want) = ((0, 0), BTreeSet::new());
    for (i, l) in src.lines().enumerate() {
        if l.contains('»') {
            want.insert(i as u32);
        }
        let l = l.replace('»', "");
        if let Some(k) = l.find('«') {
            at = (i as u32, k as u32);
        }
        text.push_str(&l.replace('«', ""));
        text.push('\n');
    }
    let mut l = Lsp::bare();
    l.open("file:///w/core.rb", "class Object\nend\n", 1);
    l.open("file:///w/p.rb", &text, 1);
    let got: BTreeSet<u32> = l.definition("file:///w/p.rb", at.0, at.1).into_iter().map(|x| x.r[0]).collect();
    if got != want {
        return Case::bad(text, format!("pinned:{name}"), format!("go-to-definition at {at:?}\n Ruby: {want:?}\n server: {got:?}"));
    }
    Case::ok(text, true)
}
const PIN_C03: &[(&str, &str)] = &[
    ("plain", "class A\n  »def run\n  end\nend\nA.new.«run\n"),
    ("self-private", "class A\n  def go\n    self.«run\n  end\n  private\n  »def run\n  end\nend\n"),
    ("absolute-receiver", "class A\n  »def self.run\n  end\nend\nmodule M\n  class A\n    def self.run\n    end\n  end\n  def self.go\n    ::A.«run\n  end\nend\n"),
    ("inherited-receiver", "class Box\n  def self.run\n  end\nend\nmodule Mix\n  class Box\n    »def self.run\n    end\n  end\nend\nclass User\n  include Mix\n  def go\n    Box.«run\n  end\nend\n"),
    ("edge-through-inherited-constant", "class Base\n  module Part\n    »def run\n    end\n  end\nend\nclass Kid < Base\n  include Part\nend\nKid.new.«run\n"),
    ("double-prepend", "module K\n  »def save\n  end\nend\nmodule O\n  prepend K\nend\nclass D\n  include O\n  prepend K\n  def save\n    «super\n  end\nend\n"),
    ("mixin-arguments", "module K\n  def save\n  end\nend\nmodule O\n  »def save\n  end\nend\nclass D\n  include O, K\nend\nD.new.«save\n"),
    ("private-override", "class A\n  def run\n  end\nend\nclass B < A\n  private\n  def run\n  end\nend\nB.new.«run\n"),
];
const PIN_C04: &[(&str, &str)] = &[
    ("inherited", "class A\n  »LIMIT = 1\nend\nclass B < A\n  def go\n    «LIMIT\n  end\nend\n"),
    ("compact-lexical", "module A\n  LIMIT = 1\nend\n»LIMIT = 2\nclass A::B\n  def go\n    «LIMIT\n  end\nend\n"),
    ("self-named-superclass", "class Gamma\n  »LIMIT = 1\nend\nmodule M\n  class Gamma < Gamma\n    def go\n      «LIMIT\n    end\n  end\nend\n"),
];
fn pin_c03(t: &mut Tape) -> Case {
    pinned(t, PIN_C03)
}
fn pin_c04(t: &mut Tape) -> Case {
    pinned(t, PIN_C04)
}
pub fn prop_c04() -> Prop {
    Prop {
        id: "C04",
        rule: "a case is one generated multi-file program, loaded by real Ruby; non-trivial if Ruby resolved at least 3 judged constant uses (including namespace segments, superclasses, mixins and headers) to definitions inside the program; distinct by program text",
        assumptions: &["Ruby 3.2.3 resolves the instrumented twin as it would the program", "the program text does not define constants dynamically", "uses inside `class << self` are not judged"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("shadow", 2500, 60000, const_shadow), Lane::new("unique", 2500, 60000, const_unique), Lane::new("pinned", 40, 40, pin_c04)],
    }
}
pub fn prop_c03() -> Prop {
    Prop {
        id: "C03",
        rule: "a case is one generated multi-file program, loaded by real Ruby; non-trivial if Ruby resolved at least 3 judged method calls or supers to definitions inside the program; distinct by program text",
        assumptions: &["Ruby 3.2.3 dispatches the instrumented twin as it would the program", "receivers are constants, fresh instances of a named class, locals holding one, self or implicit", "a method defined at the top level is only demanded at top-level calls", "namespace short names are unique in the program"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("mixed", 3000, 60000, meth_unique), Lane::new("absolute", 3000, 60000, meth_abs), Lane::new("pinned", 60, 60, pin_c03)],
    }
}

/// C02: `unresolved-constant` and `unresolved-method` are reported where Ruby
/// finds nothing, and nowhere else.
/// What the core stubs of a workspace provide, in short.
const CORE: &str = "class BasicObject\n  def initialize\n  end\nend\nmodule Kernel\n  def puts(*args)\n  end\n  def lambda\n  end\nend\nclass Object < BasicObject\n  include Kernel\nend\nclass Module < Object\n  def define_method(name)\n  end\n  def class_eval(*args)\n  end\nend\nclass Class < Module\n  def new(*args)\n  end\nend\nclass Proc\nend\nclass Struct\n  def self.new(*args)\n  end\nend\nclass Integer\nend\nclass String\nend\nclass Array\nend\n";
fn unresolved(t: &mut Tape, o: Opts, constants_only: bool) -> Case {
    let w = generate(t, o);
    let log = show(&w);
    note_input(&log);
    let Some(tr) = truth(&w) else {
        return Case::ok(log, false);
    };
    let mut l = Lsp::bare();
    l.open("file:///w/core.rb", CORE, 1);
    for f in &w.files {
        note_source(&f.text);
        l.open(&uri(&f.path), &f.text, 1);
    }
    for f in &w.files {
        l.change(&uri(&f.path), &format!("{}\n", f.text), 2);
        l.change(&uri(&f.path), &f.text, 3);
    }
    l.settle();
    let top = |i: usize| matches!(tr.target.get(&i), Some(Target::Sites(v)) if v.iter().any(|x| w.sites[*x].tag == "top"));
    let judged = |i: usize| {
        let s = &w.sites[i];
        // As in C03 and C04: not judged are constants inside `class << self`, value
        // constants under compact headers, and top-level methods called elsewhere.
        let value = s.name.chars().nth(1).is_some_and(|c| c.is_uppercase()) || s.name == "Mode";
        !(s.kind == K::Const && (s.tag.contains("singclass") || (s.compact && value))) && !(top(i) && !s.tag.ends_with(".top"))
    };
    let mut used = vec![];
    let (mut resolved, mut missing) = (0, 0);
    let mut err = None;
    for (fi, f) in w.files.iter().enumerate() {
        for d in l.diagnostics(&uri(&f.path)) {
            let code = d["code"].as_str().unwrap_or("").to_string();
            if !code.starts_with("unresolved-") || (constants_only && code != "unresolved-constant") {
                continue;
            }
            let r = range4(&d["range"]);
            let hit: Vec<usize> = (0..w.sites.len())
                .filter(|i| {
                    let s = &w.sites[*i];
                    let kind = if code == "unresolved-constant" { s.kind == K::Const } else { matches!(s.kind, K::Call | K::Super) };
                    kind && s.file == fi && s.line == r[0] && r[2] == r[0] && s.end() <= r[3] && s.col >= r[1]
                })
                .collect();
            let wrong = hit.iter().all(|i| judged(*i) && matches!(tr.target.get(i), Some(Target::Sites(_)) | Some(Target::Outside)));
            if wrong {
                let tag = hit.last().map(|i| w.sites[*i].tag.clone()).unwrap_or("stray".into());
                err = err.or(Some((format!("false|{code}|{tag}"), format!("{} {d}", f.path))));
            }
            used.extend(hit);
        }
    }
    for (i, s) in w.sites.iter().enumerate() {
        match tr.target.get(&i) {
            Some(Target::Sites(_)) if matches!(s.kind, K::Const | K::Call | K::Super) && judged(i) => resolved += 1,
            Some(Target::None) if judged(i) => {
                let demanded = match s.kind {
                    K::Const => !s.compact,
                    // a method no class defines at all (not merely one out of reach or private)
                    K::Call => !constants_only && matches!(s.tag.as_str(), "new" | "local" | "implicit.inst" | "constrecv") && !w.sites.iter().any(|x| x.kind == K::MethDef && x.name.trim_start_matches(':') == s.name),
                    _ => false,
                };
                if demanded {
                    missing += 1;
                    if !used.contains(&i) {
                        err = err.or(Some((format!("silent|{:?}|{}", s.kind, s.tag), format!("{} {}:{} `{}`: Ruby finds nothing, the server reports nothing", w.files[s.file].path, s.line, s.col, s.name))));
                    }
                }
            }
            _ => {}
        }
    }
    if let Some((sig, m)) = err {
        return Case::bad(log, sig, m);
    }
    Case::ok(log, resolved >= 3 && missing >= 1)
}
fn unres_unique(t: &mut Tape) -> Case {
    unresolved(t, UNIQUE, false)
}
fn unres_abs(t: &mut Tape) -> Case {
    unresolved(t, Opts { compact: false, abs_edges: true, ..UNIQUE }, false)
}
fn unres_shadow(t: &mut Tape) -> Case {
    unresolved(t, SHADOW, true)
}

/// An edit of one open document brings the diagnostics of the others up to
/// date: analysing them again changes nothing.
fn live(t: &mut Tape) -> Case {
    // at least two files that Ruby loads
    let opts = Opts { compact: false, abs_edges: true, ..UNIQUE };
    let mut w = generate(t, opts);
    for _ in 0..4 {
        if w.files.len() > 1 && truth(&w).is_some() {
            break;
        }
        w = generate(t, opts);
    }
    let mut log = show(&w);
    note_input(&log);
    if w.files.len() < 2 || truth(&w).is_none() {
        return Case::ok(log, false);
    }
    let mut l = Lsp::bare();
    l.open("file:///w/core.rb", CORE, 1);
    for f in &w.files {
        note_source(&f.text);
        l.open(&uri(&f.path), &f.text, 1);
    }
    let mut ver = 2;
    let mut touch = |l: &mut Lsp, skip: usize, ver: &mut i64, cur: &[String]| {
        for (k, f) in w.files.iter().enumerate() {
            if k != skip {
                l.change(&uri(&f.path), &format!("{}\n", cur[k]), *ver);
                l.change(&uri(&f.path), &cur[k], *ver + 1);
                *ver += 2;
            }
        }
    };
    let mut cur: Vec<String> = w.files.iter().map(|f| f.text.clone()).collect();
    touch(&mut l, usize::MAX, &mut ver, &cur);
    touch(&mut l, usize::MAX, &mut ver, &cur);
    let all = |l: &Lsp| -> Vec<serde_json::Value> { w.files.iter().map(|f| canon(&serde_json::json!(l.diagnostics(&uri(&f.path))))).collect() };
    let mut changed = 0;
    // a definition whose name occurs in another file
    let used = |k: usize, x: &str, cur: &[String]| {
        let n: String = x[4..].trim_start_matches("self.").chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        cur.iter().enumerate().any(|(i, c)| i != k && c.contains(&n))
    };
    for _ in 0..2 + t.below(4) {
        let k = t.below(w.files.len());
        let lines: Vec<&str> = cur[k].lines().collect();
        if lines.is_empty() {
            continue;
        }
        let n = t.below(lines.len());
        let mut out: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
        let what = t.below(7);
        match what {
            // another visibility
            5 | 6 => {
                let Some(m) = (0..out.len()).map(|d| (n + d) % out.len()).find(|m| { let x = out[*m].trim_start(); ["private", "public", "protected"].iter().any(|p| x.starts_with(p)) && !x.starts_with("private_c") && !x.starts_with("public_c") }) else { continue };
                let old = ["private", "public", "protected"].into_iter().find(|p| out[m].trim_start().starts_with(p)).unwrap();
                let new = ["private", "public", "protected"].into_iter().filter(|p| *p != old).nth(t.below(2)).unwrap();
                out[m] = out[m].replacen(old, new, 1);
            }
            // a definition under another name
            0 | 1 => {
                let Some(m) = (0..out.len()).map(|d| (n + d) % out.len()).find(|m| { let x = out[*m].trim_start(); x.starts_with("def ") && used(k, x, &cur) || x.split_whitespace().nth(1) == Some("=") && x.starts_with(|c: char| c.is_uppercase()) }) else { continue };
                let x = out[m].clone();
                let pre = x.len() - x.trim_start().len();
                let body = &x[pre..];
                let (kw, rest) = match body.split_once(' ') { Some((kw, rest)) if ["def", "class", "module"].contains(&kw) => (format!("{kw} "), rest.to_string()), _ => (String::new(), body.to_string()) };
                let rest = match rest.strip_prefix("self.") { Some(r) => format!("self.x{r}"), None if kw == "def " => format!("x{rest}"), None => format!("X{rest}") };
                if rest.starts_with("X::") || rest.contains("xself") { continue; }
                out[m] = format!("{}{kw}{rest}", &x[..pre]);
            }
            // a statement gone
            2 | 3 => {
                let Some(m) = (0..out.len()).map(|d| (n + d) % out.len()).find(|m| { let x = out[*m].trim_start(); ["include ", "extend ", "prepend ", "private :", "public :", "protected :", "attr_", "alias"].iter().any(|p| x.starts_with(p)) || ["private", "public", "protected"].contains(&x) }) else { continue };
                out.remove(m);
            }
            // more parameters
            _ => {
                let Some(m) = (0..out.len()).map(|d| (n + d) % out.len()).find(|m| { let x = out[*m].trim_start(); x.starts_with("def ") && used(k, x, &cur) && !x.contains('(') && !x.contains(';') && !x.contains('=') }) else { continue };
                out[m].push_str("(q1)");
            }
        }
        let mut text = out.join("\n");
        text.push('\n');
        log.push_str(&format!("--- change {}\n{text}", w.files[k].path));
        note_source(&text);
        note_input(&log);
        let before = all(&l);
        cur[k] = text;
        l.change(&uri(&w.files[k].path), &cur[k], ver);
        ver += 1;
        let x = all(&l);
        touch(&mut l, k, &mut ver, &cur);
        let y = all(&l);
        if (0..x.len()).any(|i| i != k && y[i] != before[i]) {
            changed += 1;
        }
        for (i, f) in w.files.iter().enumerate() {
            if i != k && x[i] != y[i] {
                return Case::bad(log, format!("stale|{what}"), format!("diagnostics of {} after the edit of {}\n shown:          {}\n analysed again: {}", f.path, w.files[k].path, x[i], y[i]));
            }
        }
    }
    Case::ok(log, changed >= 1)
}
pub fn prop_c02() -> Prop {
    Prop {
        id: "C02",
        rule: "a case is one generated multi-file program, loaded by real Ruby; non-trivial if Ruby resolves at least three uses and finds nothing for at least one",
        assumptions: &["Ruby 3.2.3 is the reference"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("absolute", 2000, 60000, unres_abs), Lane::new("mixed", 2000, 60000, unres_unique), Lane::new("shadow", 1500, 60000, unres_shadow), Lane::new("live", 2000, 60000, live)],
    }
}
