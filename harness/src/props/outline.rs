//! C11: outline, folds and selection ranges mirror the program's structure.
use crate::lsp::*;
use crate::runner::*;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeSet;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Sym {
    name: String,
    kind: u64,
    detail: String,
    r: [u32; 4],
    kids: Vec<Sym>,
}
struct G<'a> {
    t: &'a mut Tape,
    out: String,
    folds: BTreeSet<(u32, u32)>,
    allowed: BTreeSet<(u32, u32)>,
    n: usize,
    fuel: usize,
    depth: usize,
}
#[derive(Clone, Copy, PartialEq)]
enum Vis {
    Public,
    Private,
    Protected,
}
#[derive(Clone, Copy, PartialEq)]
enum In {
    Top,
    Ns,
    Single,
    Def,
}
impl G<'_> {
    fn ln(&self) -> u32 {
        self.out.matches('\n').count() as u32
    }
    fn pos(&self) -> (u32, u32) {
        let l = self.out.rfind('\n').map_or(0, |i| i + 1);
        (self.ln(), self.out[l..].encode_utf16().count() as u32)
    }
    fn ind(&mut self) {
        let s = "  ".repeat(self.depth);
        self.out.push_str(&s);
    }
    fn name(&mut self, base: &[&str]) -> String {
        self.n += 1;
        let b = self.t.pick(base).to_string();
        format!("{b}{}", self.n)
    }
    fn noise(&mut self) {
        if self.t.chance(10) {
            self.ind();
            let c = *self.t.pick(&["# plain comment", "# é😀 comment", "# def fake; end", "x = \"def nope; end\"", "y = %w[class Fake end]"]);
            self.out.push_str(c);
            self.out.push('\n');
        }
    }
    fn prefix(&mut self) {
        if self.t.chance(12) {
            let c = *self.t.pick(&["\"é\"; ", "\"😀\"; ", "nil; "]);
            self.out.push_str(c);
        }
    }
    fn fold(&mut self, a: u32, b: u32) {
        if b > a {
            self.folds.insert((a, b));
        }
    }
    /// Control flow and collections; definitions may sit inside (not in blocks).
    fn construct(&mut self, place: In, kids: &mut Vec<Sym>, vis: &mut Vis) {
        let k = self.t.below(10);
        self.ind();
        let a = self.ln();
        let (head, mids, tail): (&str, &[&str], &str) = match k {
            0 => ("if a", &["elsif b", "else"], "end"),
            1 => ("while a", &[], "end"),
            2 => ("for i in [1, 2]", &[], "end"),
            3 => ("case a", &["when 1", "else"], "end"),
            4 => ("begin", &["rescue", "ensure"], "end"),
            5 => ("foo do |x|", &[], "end"),
            6 => ("v = [", &[], "]"),
            7 => ("v = {", &[], "}"),
            8 => ("bar(1) { |x|", &[], "}"),
            _ => ("unless a", &["else"], "end"),
        };
        self.out.push_str(head);
        self.out.push('\n');
        self.depth += 1;
        let mut parts = vec![a];
        match k {
            6 => {
                for _ in 0..self.t.below(3) {
                    self.ind();
                    self.out.push_str("1,\n");
                }
            }
            7 => {
                for i in 0..self.t.below(3) {
                    self.ind();
                    self.out.push_str(&format!("k{i}: 1,\n"));
                }
            }
            _ => {
                if k != 3 {
                    self.stmts(place, kids, vis, false);
                }
                let mut ms = mids.to_vec();
                if k != 3 && !ms.is_empty() && self.t.bool() {
                    ms.remove(0);
                }
                if k != 3 && self.t.bool() {
                    ms.clear();
                }
                if k == 4 && ms.is_empty() {
                    ms.push("rescue");
                }
                for m in ms {
                    self.depth -= 1;
                    self.ind();
                    parts.push(self.ln());
                    self.out.push_str(m);
                    self.out.push('\n');
                    self.depth += 1;
                    self.stmts(place, kids, vis, false);
                }
            }
        }
        self.depth -= 1;
        self.ind();
        self.out.push_str(tail);
        let b = self.ln();
        self.out.push('\n');
        if k != 9 {
            self.fold(a, b);
        }
        for (i, x) in parts.iter().enumerate() {
            for y in parts.iter().skip(i).map(|p| p.saturating_sub(1)).chain([b]) {
                self.allowed.insert((*x, y));
            }
            for y in *x..=b {
                self.allowed.insert((*x, y));
            }
        }
    }
    fn stmts(&mut self, place: In, kids: &mut Vec<Sym>, vis: &mut Vis, modifiers: bool) {
        for _ in 0..self.t.below(4) {
            if self.fuel == 0 {
                break;
            }
            self.fuel -= 1;
            self.noise();
            self.item(place, kids, vis, modifiers);
        }
    }
    fn body(&mut self, place: In, kids: &mut Vec<Sym>) {
        let mut v = Vis::Public;
        self.depth += 1;
        self.stmts(place, kids, &mut v, true);
        self.depth -= 1;
    }
    fn item(&mut self, place: In, kids: &mut Vec<Sym>, vis: &mut Vis, modifiers: bool) {
        let w: [u32; 7] = match place {
            In::Top => [5, 0, 4, 2, 2, 0, 1],
            In::Ns => [3, 1, 6, 2, 2, if modifiers { 3 } else { 0 }, 1],
            In::Single => [0, 0, 6, 0, 1, if modifiers { 3 } else { 0 }, 1],
            In::Def => [0, 0, 0, 0, 4, 0, 3],
        };
        match self.t.weighted(&w) {
            0 if self.depth < 5 => {
                self.ind();
                self.prefix();
                let class = self.t.bool();
                let n = self.name(&["Box", "Cart", "Éclair"]);
                let (l, c) = self.pos();
                let full = if self.t.chance(15) { format!("Outer::{n}") } else { n.clone() };
                let sup = if class && self.t.chance(30) { " < Base" } else { "" };
                self.out.push_str(&format!("{} {full}{sup}\n", if class { "class" } else { "module" }));
                let mut ks = vec![];
                self.body(In::Ns, &mut ks);
                self.ind();
                self.out.push_str("end");
                let (l2, c2) = self.pos();
                self.out.push('\n');
                self.fold(l, l2);
                kids.push(Sym { name: n, kind: if class { 5 } else { 2 }, detail: String::new(), r: [l, c, l2, c2], kids: ks });
            }
            1 => {
                self.ind();
                let l = self.ln();
                self.out.push_str("class << self\n");
                let mut v = Vis::Public;
                self.depth += 1;
                self.stmts(In::Single, kids, &mut v, true);
                self.depth -= 1;
                self.ind();
                self.out.push_str("end");
                let l2 = self.ln();
                self.out.push('\n');
                self.allowed.insert((l, l2));
            }
            2 => self.def(place, kids, vis),
            3 => {
                self.ind();
                self.prefix();
                let n = self.name(&["LIMIT", "Point", "Élan"]);
                let (l, c) = self.pos();
                self.out.push_str(&format!("{n} = "));
                let mut inner = vec![];
                match self.t.below(5) {
                    4 if self.depth < 4 => {
                        // another class's body: its visibility ends with it
                        let a = self.ln();
                        self.out.push_str(*self.t.pick(&["Class.new do\n", "Struct.new(:q) do\n", "Module.new do\n", "Class.new(Base) do |k|\n"]));
                        let mut v = Vis::Public;
                        self.depth += 1;
                        for _ in 0..1 + self.t.below(3) {
                            if self.t.chance(40) {
                                v = *self.t.pick(&[Vis::Private, Vis::Protected, Vis::Public]);
                                self.ind();
                                self.out.push_str(&format!("{}\n", word(v)));
                            }
                            self.def(In::Ns, &mut inner, &mut v);
                        }
                        self.depth -= 1;
                        self.ind();
                        self.out.push_str("end");
                        let b = self.ln();
                        self.fold(a, b);
                    }
                    0 => self.out.push_str("1"),
                    1 => self.out.push_str("\"é😀\""),
                    2 => {
                        let a = self.ln();
                        self.out.push_str("[\n  1,\n]");
                        let b = self.ln();
                        self.fold(a, b);
                    }
                    _ => {
                        let a = self.ln();
                        self.out.push_str("{\n  a: 1\n}.freeze");
                        let b = self.ln();
                        self.fold(a, b);
                    }
                }
                let (l2, c2) = self.pos();
                self.out.push('\n');
                kids.push(Sym { name: n, kind: 14, detail: String::new(), r: [l, c, l2, c2], kids: vec![] });
                kids.append(&mut inner);
            }
            5 => match self.t.below(4) {
                0 | 1 => {
                    let v = *self.t.pick(&[Vis::Private, Vis::Public, Vis::Protected, Vis::Private]);
                    *vis = v;
                    self.ind();
                    self.out.push_str(&format!("{}{}\n", if self.t.chance(10) { "self." } else { "" }, word(v)));
                }
                2 => {
                    // a method already defined here
                    let single = place == In::Single;
                    let mut c: Vec<usize> = (0..kids.len()).filter(|i| kids[*i].kind == 6 && kids[*i].detail.starts_with("class") == single && !kids[*i].detail.is_empty()).collect();
                    c.retain(|i| kids.iter().filter(|k| k.name == kids[*i].name).count() == 1);
                    if let (false, false) = (c.is_empty(), single) {
                        let i = *self.t.pick(&c);
                        let v = *self.t.pick(&[Vis::Private, Vis::Public, Vis::Protected]);
                        let n = kids[i].name.clone();
                        let arg = match self.t.below(3) {
                            0 => format!(":\"{n}\""),
                            1 => format!("\"{n}\""),
                            _ => format!("[:\"{n}\"]"),
                        };
                        self.ind();
                        self.out.push_str(&format!("{} {arg}\n", word(v)));
                        kids[i].detail = detail(v, false);
                    }
                }
                _ => {
                    // modifier in front of one definition
                    let mut v = *self.t.pick(&[Vis::Private, Vis::Public, Vis::Protected]);
                    self.ind();
                    self.out.push_str(&format!("{} ", word(v)));
                    let d = self.depth;
                    self.def_at(place, kids, &mut v, d, true);
                }
            },
            4 => self.construct(place, kids, vis),
            _ => {
                self.ind();
                let s = *self.t.pick(&["puts 1", "foo.private", "include Comparable", "z = 1 if a", "attr_reader :name", "raise \"é\" unless a", "[1, 2].each { |q| q }"]);
                self.out.push_str(s);
                self.out.push('\n');
            }
        }
    }
    fn def(&mut self, place: In, kids: &mut Vec<Sym>, vis: &mut Vis) {
        self.ind();
        self.prefix();
        let d = self.depth;
        self.def_at(place, kids, vis, d, false);
    }
    fn def_at(&mut self, place: In, kids: &mut Vec<Sym>, vis: &mut Vis, d: usize, modifier: bool) {
        let base = self.name(&["run", "save", "été"]);
        let n = match self.t.below(6) {
            0 => format!("{base}?"),
            1 => format!("{base}!"),
            2 => format!("{base}="),
            3 if self.t.chance(30) => self.t.pick(&["+", "[]", "==", "<=>", "-@"]).to_string(),
            _ => base,
        };
        let single = !modifier && place != In::Single && self.t.chance(20);
        let (l, c) = self.pos();
        let recv = if single { "self." } else { "" };
        if !n.ends_with('=') && self.t.chance(12) {
            self.out.push_str(&format!("def {recv}{n}(a) = [a]"));
        } else {
            self.out.push_str(&format!("def {recv}{n}(a)\n"));
            let mut none = vec![];
            let mut v = Vis::Public;
            self.depth = d + 1;
            self.stmts(In::Def, &mut none, &mut v, false);
            self.depth = d;
            assert!(none.is_empty());
            self.ind();
            self.out.push_str("end");
        }
        let (l2, c2) = self.pos();
        self.out.push('\n');
        self.fold(l, l2);
        let cls = single || place == In::Single;
        kids.push(Sym { name: n, kind: 6, detail: detail(*vis, cls), r: [l, c, l2, c2], kids: vec![] });
    }
}
fn word(v: Vis) -> &'static str {
    match v {
        Vis::Public => "public",
        Vis::Private => "private",
        Vis::Protected => "protected",
    }
}
fn detail(v: Vis, class: bool) -> String {
    if class {
        "class method".into()
    } else {
        format!("{} • instance method", word(v))
    }
}
fn parse(v: &Value) -> Vec<Sym> {
    let mut o: Vec<Sym> = v
        .as_array()
        .into_iter()
        .flatten()
        .map(|s| {
            let mut d = s["detail"].as_str().unwrap_or("").to_string();
            if d.ends_with("class method") {
                d = "class method".into();
            }
            if s["kind"] != 6 {
                d.clear(); // visibility concerns methods
            }
            Sym { name: s["name"].as_str().unwrap_or("").into(), kind: s["kind"].as_u64().unwrap_or(0), detail: d, r: range4(&s["range"]), kids: parse(&s["children"]) }
        })
        .collect();
    o.sort();
    o
}
fn sorted(mut v: Vec<Sym>) -> Vec<Sym> {
    for s in &mut v {
        s.kids = sorted(std::mem::take(&mut s.kids));
    }
    v.sort();
    v
}
fn first_diff(a: &[Sym], b: &[Sym]) -> String {
    for s in a {
        match b.iter().find(|x| x.r == s.r && x.name == s.name) {
            None => return format!("expected {} {} at {:?} missing among {:?}", s.name, s.kind, s.r, b.iter().map(|x| (&x.name, x.r)).collect::<Vec<_>>()),
            Some(x) if (x.kind, &x.detail) != (s.kind, &s.detail) => return format!("{} at {:?}: expected kind {} {:?}, got kind {} {:?}", s.name, s.r, s.kind, s.detail, x.kind, x.detail),
            Some(x) if x.kids != s.kids => return format!("inside {}: {}", s.name, first_diff(&s.kids, &x.kids)),
            _ => {}
        }
    }
    format!("unexpected {:?}", b.iter().find(|x| !a.contains(x)).map(|x| (&x.name, x.r)))
}

fn outline(t: &mut Tape) -> Case {
    let fuel = 4 + t.below(26);
    let mut g = G { t, out: String::new(), folds: BTreeSet::new(), allowed: BTreeSet::new(), n: 0, fuel, depth: 0 };
    let mut want = vec![];
    let mut vis = Vis::Public;
    while g.fuel > 0 && want.len() < 6 {
        g.fuel -= 1;
        g.noise();
        g.item(In::Top, &mut want, &mut vis, false);
    }
    let (text, folds, allowed) = (g.out, g.folds, g.allowed);
    let want = sorted(want);
    note_source(&text);
    let mut l = Lsp::bare();
    let u = "file:///w/o.rb";
    l.open(u, &text, 1);
    let td = json!({"textDocument": {"uri": u}});
    let got = parse(&l.ask("textDocument/documentSymbol", td.clone()));
    if got != want {
        return Case::bad(text, "outline", first_diff(&want, &got));
    }
    let fv = l.ask("textDocument/foldingRange", td);
    let gf: BTreeSet<(u32, u32)> = fv.as_array().into_iter().flatten().map(|f| (f["startLine"].as_u64().unwrap() as u32, f["endLine"].as_u64().unwrap() as u32)).collect();
    if let Some(m) = folds.iter().find(|f| !gf.contains(f)) {
        return Case::bad(text, "fold-missing", format!("no fold for the construct on lines {m:?}; folds {gf:?}"));
    }
    if let Some(m) = gf.iter().find(|f| !folds.contains(f) && !allowed.contains(f)) {
        return Case::bad(text, "fold-phantom", format!("fold {m:?} matches no construct"));
    }
    fn depth(v: &[Sym]) -> usize {
        v.iter().map(|s| 1 + depth(&s.kids)).max().unwrap_or(0)
    }
    let d = depth(&want);
    Case::ok(text, d >= 2 && folds.len() >= 3)
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "a case is one generated program of nested namespaces, singleton classes, methods of every visibility and form, constants, control flow and collections; outline tree and folds are compared with what was generated. Non-trivial: nesting depth at least 2 and at least 3 folds",
        assumptions: &["the generator's record of what it wrote is the reference"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("programs", 15000, 500000, outline)],
    }
}
