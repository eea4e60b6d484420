//! Multi-file Ruby programs: namespaces, inheritance, mixins, constants,
//! methods and their uses. Every program is rendered twice, line by line: as
//! the text the server sees, and as an instrumented text real Ruby runs. The
//! instrumented text stores, for every use, a lambda at the same lexical place;
//! after all files are loaded, Ruby itself says what each use denotes.
use crate::rubyproc;
use crate::tape::Tape;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
    /// class/module header name
    NsDef,
    /// value constant being assigned
    ConstDef,
    /// method definition (def, attr_*, alias)
    MethDef,
    /// constant use
    Const,
    /// method call
    Call,
    /// super
    Super,
    /// a method named by a symbol (`private :name`) or by `alias`
    Name,
}

#[derive(Debug, Clone)]
pub struct Site {
    pub kind: K,
    pub name: String,
    pub file: usize,
    pub line: u32,
    pub col: u32,
    /// what the site is, for signatures: "implicit", "self", "new", "local", "const", ...
    pub tag: String,
    /// inside a body opened by a compact header
    pub compact: bool,
}
impl Site {
    pub fn end(&self) -> u32 {
        self.col + self.name.encode_utf16().count() as u32
    }
}

#[derive(Debug, Clone)]
pub struct Ns {
    pub fqn: String,
    pub class: bool,
    pub sup: Option<usize>,
    pub ancestors_mods: Vec<usize>,
    pub imeths: Vec<(String, u8)>, // name, visibility 0 public 1 private 2 protected
    pub smeths: Vec<(String, u8)>,
    pub consts: Vec<String>,
    /// visibility is changed somewhere in it
    pub vis: bool,
}

pub struct File {
    pub path: String,
    pub text: String,
    pub instr: String,
}

pub struct World {
    pub files: Vec<File>,
    pub sites: Vec<Site>,
    pub nss: Vec<Ns>,
    pub opts: Opts,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub reopen: bool,
    pub unicode: bool,
    /// allow several definitions of one method in one owner
    pub redef: bool,
    /// references to names that may not exist
    pub dangling: bool,
    pub max_files: usize,
    pub size: usize,
    /// compact `class A::B` headers
    pub compact: bool,
    /// every short namespace name denotes one namespace only
    pub unique: bool,
    /// superclasses and mixins are spelled from the top level (::A::B)
    pub abs_edges: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { reopen: true, unicode: true, redef: false, dangling: true, max_files: 3, size: 10, compact: true, unique: false, abs_edges: false }
    }
}

const NS_NAMES: [&str; 6] = ["Alpha", "Beta", "Gamma", "Delta", "Omega", "Kappa"];
const VAL_NAMES: [&str; 4] = ["LIMIT", "SIZE", "Mode", "MAX_AGE"];
const METHS: [&str; 8] = ["run", "build", "fetch_it", "ready?", "save!", "total", "mark", "visit"];

struct G<'a> {
    t: &'a mut Tape,
    o: Opts,
    nss: Vec<Ns>,
    sites: Vec<Site>,
    file: usize,
    text: String,
    instr: String,
    line: u32,
    top_meths: Vec<String>,
    top_consts: Vec<String>,
    fuel: usize,
    lvars: usize,
    in_compact: bool,
    in_singclass: bool,
}

fn mark(id: usize, name: &str) -> String {
    format!("\u{1}{id}\u{2}{name}\u{3}")
}

/// Lexical context of the body being generated.
#[derive(Clone)]
struct Ctx {
    /// namespace index of each lexical level, innermost last
    lex: Vec<usize>,
    depth: usize,
    /// inside a body opened by a compact header
    compact: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum SelfKind {
    Inst,
    Sing,
    SingClass,
    Top,
}

impl<'a> G<'a> {
    fn site(&mut self, kind: K, name: &str, tag: &str) -> (usize, String) {
        let id = self.sites.len();
        self.sites.push(Site { kind, name: name.to_string(), file: self.file, line: 0, col: 0, tag: tag.to_string(), compact: self.in_compact });
        (id, mark(id, name))
    }
    /// Emit one line of the plain text (with marks) and of the instrumented text.
    fn emit(&mut self, depth: usize, plain: &str, instr: &str) {
        let mut line = "  ".repeat(depth);
        let mut col = line.len() as u32;
        let mut it = plain.chars().peekable();
        while let Some(c) = it.next() {
            if c == '\u{1}' {
                let mut id = String::new();
                for d in it.by_ref() {
                    if d == '\u{2}' {
                        break;
                    }
                    id.push(d);
                }
                let s = &mut self.sites[id.parse::<usize>().unwrap()];
                s.line = self.line;
                s.col = col;
                s.file = self.file;
            } else if c == '\u{3}' {
            } else {
                line.push(c);
                col += c.len_utf16() as u32;
            }
        }
        self.text.push_str(&line);
        self.text.push('\n');
        self.instr.push_str(&strip(instr));
        self.instr.push('\n');
        self.line += 1;
    }
    fn noise(&mut self) -> &'static str {
        if !self.o.unicode {
            return "";
        }
        match self.t.below(10) {
            8 => "'é'; ",
            9 => "\"😀\"; ",
            _ => "",
        }
    }
    fn last<'b>(fqn: &'b str) -> &'b str {
        fqn.rsplit("::").next().unwrap()
    }
    /// Some spelling of a path to namespace `n` (Ruby decides what it denotes).
    fn spell_edge(&mut self, n: usize, ctx: &Ctx) -> String {
        let f = self.nss[n].fqn.clone();
        if self.o.abs_edges {
            return format!("::{f}");
        }
        // edges reached through inherited constants are not claimed (pinned finding)
        let mut ok = vec![f.clone(), f.clone(), format!("::{f}")];
        for l in &ctx.lex {
            if let Some(rest) = f.strip_prefix(&format!("{}::", self.nss[*l].fqn)) {
                ok.push(rest.to_string());
            }
        }
        ok[self.t.below(ok.len())].clone()
    }
    fn spell(&mut self, n: usize) -> String {
        let f = self.nss[n].fqn.clone();
        if self.in_singclass {
            return f;
        }
        let parts: Vec<&str> = f.split("::").collect();
        match self.t.weighted(&[5, 3, 2]) {
            0 => f,
            1 => {
                let k = self.t.below(parts.len());
                parts[k..].join("::")
            }
            _ => format!("::{f}"),
        }
    }
    /// Marked constant path plus the probes for each of its segments.
    fn path(&mut self, p: &str, tag: &str) -> (String, String, usize) {
        let abs = p.starts_with("::");
        let segs: Vec<&str> = p.trim_start_matches("::").split("::").collect();
        let mut plain = if abs { "::".to_string() } else { String::new() };
        let mut probes = String::new();
        let mut last = 0;
        for (i, s) in segs.iter().enumerate() {
            let tg = if i + 1 == segs.len() { tag.to_string() } else { format!("{tag}.seg") };
            let tg = if abs && i == 0 { format!("{tg}.abs") } else { tg };
            let (id, m) = self.site(K::Const, s, &tg);
            if i > 0 {
                plain.push_str("::");
            }
            plain.push_str(&m);
            let sub = segs[..=i].join("::");
            probes.push_str(&format!("$__c[{id}]=->{{{}{sub}}};", if abs { "::" } else { "" }));
            last = id;
        }
        (plain, probes, last)
    }
    fn const_ref(&mut self, ctx: &Ctx) -> Option<String> {
        let mut cands: Vec<String> = vec![];
        let k = self.t.weighted(&[5, 4, if self.o.dangling { 1 } else { 0 }]);
        match k {
            0 if !self.nss.is_empty() => {
                let n = self.t.below(self.nss.len());
                cands.push(self.spell(n));
            }
            2 => {
                let a = *self.t.pick(&NS_NAMES);
                let b = *self.t.pick(&VAL_NAMES);
                cands.push(match self.t.below(3) {
                    0 => a.to_string(),
                    1 => b.to_string(),
                    _ => format!("{a}::{b}"),
                });
            }
            _ => {
                // a value constant, spelled bare or through a namespace
                let with: Vec<usize> = (0..self.nss.len()).filter(|i| !self.nss[*i].consts.is_empty()).collect();
                if with.is_empty() || (!self.top_consts.is_empty() && self.t.chance(25)) {
                    if self.top_consts.is_empty() {
                        return None;
                    }
                    let i = self.t.below(self.top_consts.len());
                    cands.push(self.top_consts[i].clone());
                } else {
                    let i = *self.t.pick(&with);
                    let c = self.nss[i].consts[self.t.below(self.nss[i].consts.len())].clone();
                    if self.t.chance(60) {
                        cands.push(c);
                    } else {
                        let s = self.spell(i);
                        cands.push(format!("{s}::{c}"));
                    }
                }
            }
        }
        let _ = ctx;
        cands.pop()
    }
    /// (plain statement, probes)
    fn stmt(&mut self, ctx: &Ctx, sk: SelfKind, meth: Option<&str>) -> Option<(String, String)> {
        let nz = self.noise();
        let cls: Vec<usize> = (0..self.nss.len()).filter(|i| self.nss[*i].class).collect();
        let sc = match sk {
            SelfKind::Inst | SelfKind::SingClass => "self",
            SelfKind::Sing => "singleton_class",
            SelfKind::Top => "Object",
        };
        match self.t.weighted(&[4, 6, 3, 3, 4, 3]) {
            0 => {
                let p = self.const_ref(ctx)?;
                let (a, b, _) = self.path(&p, if sk == SelfKind::SingClass { "body.singclass" } else { "body" });
                Some(match self.t.below(4) {
                    0 => (format!("{nz}{a}"), b),
                    1 => (format!("{nz}[1, {a}]"), b),
                    2 => {
                        self.lvars += 1;
                        (format!("{nz}v{} = {a}", self.lvars), b)
                    }
                    _ => (format!("{nz}puts({a})"), b),
                })
            }
            1 => {
                // implicit or self call
                let name = self.call_name(ctx.lex.last().copied(), sk == SelfKind::Inst, 4);
                let explicit = sk != SelfKind::Top && self.t.chance(30);
                let where_ = match sk {
                    SelfKind::Inst if ctx.lex.last().is_some_and(|n| !self.nss[*n].class) => "mod",
                    SelfKind::Inst => "inst",
                    SelfKind::Sing => "sing",
                    SelfKind::SingClass => "singclass",
                    SelfKind::Top => "top",
                };
                let (id, m) = self.site(K::Call, &name, &format!("{}.{where_}", if explicit { "self" } else { "implicit" }));
                let probe = match sk {
                    SelfKind::Inst if where_ == "mod" => format!("$__i[{id}]=->{{__mod(self,:{name},nil)}};"),
                    SelfKind::Inst | SelfKind::SingClass => format!("$__i[{id}]=->{{__self(self,:{name})}};"),
                    SelfKind::Sing => format!("$__i[{id}]=->{{__self(singleton_class,:{name})}};"),
                    SelfKind::Top => format!("$__i[{id}]=->{{Object.instance_method(:{name})}};"),
                };
                let call = if explicit { format!("self.{m}") } else { format!("{m}()") };
                Some((format!("{nz}{call}"), probe))
            }
            2 | 3 if !cls.is_empty() => {
                // instance of a class
                let c = *self.t.pick(&cls);
                let s = self.spell(c);
                let (a, b, _) = self.path(&s, if sk == SelfKind::SingClass { "recv.singclass" } else { "recv" });
                let name = self.call_name(Some(c), true, 3);
                if self.t.bool() {
                    let (id, m) = self.site(K::Call, &name, "new");
                    Some((format!("{nz}{a}.new.{m}"), format!("{b}$__i[{id}]=->{{__recv(->{{{s}}},:{name},{sc},true)}};")))
                } else {
                    self.lvars += 1;
                    let v = format!("v{}", self.lvars);
                    let (id, m) = self.site(K::Call, &name, "local");
                    Some((format!("{nz}{v} = {a}.new; {v}.{m}"), format!("{b}$__i[{id}]=->{{__recv(->{{{s}}},:{name},{sc},true)}};")))
                }
            }
            4 if !self.nss.is_empty() => {
                let c = self.t.below(self.nss.len());
                let s = self.spell(c);
                let (a, b, _) = self.path(&s, if sk == SelfKind::SingClass { "recv.singclass" } else { "recv" });
                let name = self.call_name(Some(c), false, 3);
                let (id, m) = self.site(K::Call, &name, "constrecv");
                Some((format!("{nz}{a}.{m}"), format!("{b}$__i[{id}]=->{{__recv(->{{{s}}},:{name},{sc},false)}};")))
            }
            5 => {
                let m0 = meth?;
                let base = match sk {
                    SelfKind::Inst | SelfKind::SingClass => "self",
                    SelfKind::Sing => "singleton_class",
                    SelfKind::Top => return None,
                };
                let tag = match sk {
                    SelfKind::Inst if ctx.lex.last().is_some_and(|n| !self.nss[*n].class) => "super.mod",
                    SelfKind::Inst => "super.inst",
                    _ => "super.sing",
                };
                let (id, m) = self.site(K::Super, "super", tag);
                if tag == "super.mod" {
                    return Some((format!("{nz}{m}"), format!("$__i[{id}]=->{{__mod(self,:{m0},true)}};")));
                }
                Some((format!("{nz}{m}"), format!("$__i[{id}]=->{{__sup({base},:{m0})}};")))
            }
            _ => None,
        }
    }
    fn body_stmts(&mut self, ctx: &Ctx, sk: SelfKind, meth: Option<&str>) -> Vec<(String, String)> {
        let n = self.t.below(5);
        (0..n).filter_map(|_| self.stmt(ctx, sk, meth)).collect()
    }
    fn meth(&mut self, ctx: &Ctx, sk: SelfKind, prefix: &str) {
        let d = ctx.depth;
        let base = *self.t.pick(&METHS);
        let have: Vec<String> = match (sk, ctx.lex.last()) {
            (SelfKind::Top, _) | (_, None) => self.top_meths.clone(),
            (SelfKind::Inst, Some(n)) => self.nss[*n].imeths.iter().map(|x| x.0.clone()).collect(),
            (_, Some(n)) => self.nss[*n].smeths.iter().map(|x| x.0.clone()).collect(),
        };
        if have.iter().any(|x| x == base) && !self.o.redef {
            return;
        }
        let vis = 0u8;
        match (sk, ctx.lex.last()) {
            (SelfKind::Top, _) | (_, None) => self.top_meths.push(base.to_string()),
            (SelfKind::Inst, Some(n)) => self.nss[*n].imeths.push((base.to_string(), vis)),
            (_, Some(n)) => self.nss[*n].smeths.push((base.to_string(), vis)),
        }
        let (_, m) = self.site(K::MethDef, base, match sk {
            SelfKind::Inst => "inst",
            SelfKind::Sing => "sing",
            SelfKind::SingClass => "singclass",
            SelfKind::Top => "top",
        });
        let recv = if sk == SelfKind::Sing { "self." } else { "" };
        let params = *self.t.pick(&["", "", "(*)", "(a = 1)"]);
        let body = self.body_stmts(ctx, sk, Some(base));
        let probes: String = body.iter().map(|x| x.1.as_str()).collect();
        self.emit(d, &format!("{prefix}def {recv}{m}{params}"), &format!("{probes}{prefix}def {recv}{base}{params}"));
        for (p, _) in &body {
            self.emit(d + 1, p, "");
        }
        self.emit(d, "end", "end");
    }
    fn ns_body(&mut self, ctx: &Ctx, n: usize) {
        let items = 1 + self.t.below(5);
        let d = ctx.depth;
        let mut vis_open = false;
        for _ in 0..items {
            if self.fuel == 0 {
                return;
            }
            self.fuel -= 1;
            match self.t.weighted(&[8, 3, 4, 3, 4, 3, 2, 1, 1, 2, 1, 1, 1]) {
                0 => {
                    let pre = *self.t.pick(&["", "", "", "", "", "", "private ", "protected ", "public "]);
                    self.nss[n].vis |= !pre.is_empty();
                    self.meth(ctx, SelfKind::Inst, pre)
                }
                1 => {
                    let pre = "";
                    self.meth(ctx, SelfKind::Sing, pre)
                }
                2 => {
                    // mixin
                    // (a module that extends is a hook for its includers here: classes only)
                    let verb = *self.t.pick(&["include", "include", "prepend", if self.nss[n].class { "extend" } else { "include" }]);
                    let mods: Vec<usize> = (0..self.nss.len()).filter(|i| !self.nss[*i].class && *i != n && !self.reaches(*i, n)).collect();
                    if mods.is_empty() {
                        continue;
                    }
                    let m = *self.t.pick(&mods);
                    self.nss[n].ancestors_mods.push(m);
                    let s = self.spell_edge(m, ctx);
                    let (a, b, _) = self.path(&s, "mixin");
                    self.emit(d, &format!("{verb} {a}"), &format!("{b}{verb} {s}"));
                }
                3 => {
                    let name = *self.t.pick(&VAL_NAMES);
                    if self.nss[n].consts.iter().any(|c| c == name) {
                        continue;
                    }
                    self.nss[n].consts.push(name.to_string());
                    let (id, m) = self.site(K::ConstDef, name, "");
                    self.emit(d, &format!("{m} = {}", 1000 + id), &format!("{name} = {}", 1000 + id));
                }
                4 if ctx.depth < 3 => self.ns(ctx),
                5 => {
                    if self.t.chance(15) {
                        // another class's body: its visibility ends with it
                        let h = *self.t.pick(&["Class.new do", "Struct.new(:q1) do", "Class.new { |c|", "class_eval do"]);
                        let v = *self.t.pick(&["private", "protected"]);
                        for l in [h.to_string(), format!("  {v}"), if h.ends_with('|') { "}".into() } else { "end".to_string() }] {
                            self.emit(d, &l, &l);
                        }
                        continue;
                    }
                    if let Some(p) = self.const_ref(ctx) {
                        let (a, b, _) = self.path(&p, "classbody");
                        let i = if self.o.dangling { b } else { format!("{b}{p}") };
                        // in class bodies Ruby evaluates at load time; wrap so that order does not matter
                        self.emit(d, &format!("lambda {{ {a} }}"), &i);
                    }
                }
                6 => {
                    self.emit(d, "class << self", "class << self");
                    let c2 = Ctx { depth: d + 1, ..ctx.clone() };
                    self.in_singclass = true;
                    for _ in 0..1 + self.t.below(2) {
                        self.meth(&c2, SelfKind::SingClass, "");
                    }
                    self.in_singclass = false;
                    self.emit(d, "end", "end");
                }
                7 => {
                    // attr
                    let name = *self.t.pick(&["colour", "weight", "owner"]);
                    if self.nss[n].imeths.iter().any(|x| x.0 == name) {
                        continue;
                    }
                    self.nss[n].imeths.push((name.to_string(), 0));
                    let verb = *self.t.pick(&["attr_reader", "attr_accessor"]);
                    let (_, m) = self.site(K::MethDef, name, "attr");
                    self.emit(d, &format!("{verb} :{m}"), &format!("{verb} :{name}"));
                }
                9 if !self.nss[n].imeths.is_empty() => {
                    // visibility by name
                    let mut names = vec![];
                    self.reach_names(n, true, &mut names, 0);
                    let own = self.nss[n].imeths.len();
                    let k = if self.t.chance(70) { self.t.below(own) } else { self.t.below(names.len()) };
                    let name = names[k].clone();
                    let v = *self.t.pick(&["private", "public", "protected"]);
                    self.nss[n].vis = true;
                    let (id, m) = self.site(K::Name, &name, "visibility");
                    self.emit(d, &format!("{v} :{m}"), &format!("$__i[{id}]=->(q){{->{{q or raise NameError}}}}.call((__self(self,:{name}) rescue nil));begin; {v} :{name}; rescue NameError; end"));
                }
                10 if false && !self.nss[n].smeths.is_empty() => {
                    let k = self.t.below(self.nss[n].smeths.len());
                    let name = self.nss[n].smeths[k].0.clone();
                    self.emit(d, &format!("private_class_method :{name}"), &format!("private_class_method :{name}"));
                }
                // (an alias copies the old method's visibility, which is not claimed)
                11 if !self.nss[n].imeths.is_empty() && !self.nss[n].vis => {
                    let new = *self.t.pick(&["again", "twice"]);
                    if self.nss[n].imeths.iter().any(|x| x.0 == new) {
                        continue;
                    }
                    let k = self.t.below(self.nss[n].imeths.len());
                    let old = self.nss[n].imeths[k].0.clone();
                    self.nss[n].imeths.push((new.to_string(), 0));
                    let (_, m) = self.site(K::MethDef, new, "alias");
                    let (id, mo) = self.site(K::Name, &old, "alias");
                    let pr = format!("$__i[{id}]=->(q){{->{{q or raise NameError}}}}.call((__self(self,:{old}) rescue nil));");
                    if self.t.bool() {
                        self.emit(d, &format!("alias {m} {mo}"), &format!("{pr}alias {new} {old}"));
                    } else {
                        self.emit(d, &format!("alias_method :{m}, :{mo}"), &format!("{pr}alias_method :{new}, :{old}"));
                    }
                }
                12 => {
                    let name = *self.t.pick(&METHS);
                    if self.nss[n].imeths.iter().any(|x| x.0 == name) {
                        continue;
                    }
                    self.nss[n].imeths.push((name.to_string(), 0));
                    let (_, m) = self.site(K::MethDef, name, "define_method");
                    self.emit(d, &format!("define_method(:{m}) {{ 1 }}"), &format!("define_method(:{name}) {{ 1 }}"));
                }
                8 if !vis_open => {
                    let v = *self.t.pick(&["private", "protected"]);
                    vis_open = true;
                    self.nss[n].vis = true;
                    self.emit(d, v, v);
                }
                _ => {}
            }
        }
    }
    /// Names of methods an instance (or the namespace itself) may respond to.
    fn reach_names(&self, n: usize, inst: bool, out: &mut Vec<String>, depth: usize) {
        let ns = &self.nss[n];
        out.extend(if inst || !ns.class && depth > 0 { &ns.imeths } else { &ns.smeths }.iter().map(|x| x.0.clone()));
        if depth < 4 {
            for m in ns.ancestors_mods.iter().chain(ns.sup.iter()) {
                self.reach_names(*m, inst, out, depth + 1);
            }
        }
    }
    fn call_name(&mut self, n: Option<usize>, inst: bool, any: usize) -> String {
        let mut names = vec![];
        if let Some(n) = n {
            self.reach_names(n, inst, &mut names, 0);
        } else {
            names = self.top_meths.clone();
        }
        if !names.is_empty() && self.t.chance(75) {
            return names[self.t.below(names.len())].clone();
        }
        names.extend(self.top_meths.iter().cloned());
        names.extend(METHS.iter().take(any).map(|s| s.to_string()));
        names[self.t.below(names.len())].clone()
    }
    fn reaches(&self, from: usize, to: usize) -> bool {
        from == to || self.nss[from].ancestors_mods.iter().any(|m| self.reaches(*m, to)) || self.nss[from].sup.is_some_and(|s| self.reaches(s, to))
    }
    /// A class or module block: new or reopened.
    fn ns(&mut self, ctx: &Ctx) {
        let d = ctx.depth;
        let parent = ctx.lex.last().copied();
        let prefix = parent.map(|p| format!("{}::", self.nss[p].fqn)).unwrap_or_default();
        let name = *self.t.pick(&NS_NAMES);
        // compact header at top level: class A::B
        if d == 0 && self.o.compact && !self.nss.is_empty() && self.t.chance(20) {
            let outer = self.t.below(self.nss.len());
            let fqn = format!("{}::{name}", self.nss[outer].fqn);
            let s = self.nss[outer].fqn.clone();
            let (a, b, _) = self.path(&s, "header");
            self.block(ctx, fqn, name, Some((a, b, s)));
            return;
        }
        let fqn = format!("{prefix}{name}");
        self.block(ctx, fqn, name, None);
    }
    fn block(&mut self, ctx: &Ctx, fqn: String, name: &str, outer: Option<(String, String, String)>) {
        let d = ctx.depth;
        let existing = self.nss.iter().position(|n| n.fqn == fqn);
        if existing.is_none() && self.o.unique && self.nss.iter().any(|n| Self::last(&n.fqn) == name) {
            return;
        }
        if existing.is_some() && !self.o.reopen {
            return;
        }
        let (po, bo, so) = match outer {
            Some((a, b, s)) => (format!("{a}::"), b, format!("{s}::")),
            None => Default::default(),
        };
        let n = match existing {
            Some(n) => {
                let kw = if self.nss[n].class { "class" } else { "module" };
                let (id, m) = self.site(K::NsDef, name, "reopen");
                self.emit(d, &format!("{kw} {po}{m}"), &format!("{bo}{kw} {so}{name};$__d[{id}]=self"));
                n
            }
            None => {
                let class = self.t.chance(60);
                let mut head = String::new();
                let mut probes = bo;
                let mut ihead = String::new();
                let mut sup = None;
                if class && self.t.chance(50) {
                    let cls: Vec<usize> = (0..self.nss.len()).filter(|i| self.nss[*i].class && !ctx.lex.contains(i)).collect();
                    if !cls.is_empty() {
                        let c = *self.t.pick(&cls);
                        sup = Some(c);
                        let s = self.spell_edge(c, ctx);
                        let (a, b, _) = self.path(&s, "super");
                        head = format!(" < {a}");
                        ihead = format!(" < {s}");
                        probes.push_str(&b);
                    }
                }
                let kw = if class { "class" } else { "module" };
                let (id, m) = self.site(K::NsDef, name, if class { "class" } else { "module" });
                self.nss.push(Ns { fqn, class, sup, ancestors_mods: vec![], imeths: vec![], smeths: vec![], consts: vec![], vis: false });
                self.emit(d, &format!("{kw} {po}{m}{head}"), &format!("{probes}{kw} {so}{name}{ihead};$__d[{id}]=self"));
                self.nss.len() - 1
            }
        };
        let mut c2 = ctx.clone();
        c2.compact |= !so.is_empty();
        c2.lex.push(n);
        c2.depth += 1;
        let was = std::mem::replace(&mut self.in_compact, c2.compact);
        self.ns_body(&c2, n);
        self.in_compact = was;
        self.emit(d, "end", "end");
    }
    fn top(&mut self) {
        let ctx = Ctx { lex: vec![], depth: 0, compact: false };
        match self.t.weighted(&[10, 2, 2, 3]) {
            0 => self.ns(&ctx),
            1 => self.meth(&ctx, SelfKind::Top, ""),
            2 => {
                let name = *self.t.pick(&VAL_NAMES);
                if self.top_consts.iter().any(|c| c == name) {
                    return;
                }
                self.top_consts.push(name.to_string());
                let (id, m) = self.site(K::ConstDef, name, "");
                self.emit(0, &format!("{m} = {}", 1000 + id), &format!("{name} = {}", 1000 + id));
            }
            _ => {
                if let Some((p, b)) = self.stmt(&ctx, SelfKind::Top, None) {
                    self.emit(0, &p, &b);
                }
            }
        }
    }
}

fn strip(s: &str) -> String {
    let mut out = String::new();
    let mut skip = false;
    for c in s.chars() {
        match c {
            '\u{1}' => skip = true,
            '\u{2}' => skip = false,
            '\u{3}' => {}
            c if !skip => out.push(c),
            _ => {}
        }
    }
    out
}

pub fn generate(t: &mut Tape, o: Opts) -> World {
    let mut g = G { t, o, nss: vec![], sites: vec![], file: 0, text: String::new(), instr: String::new(), line: 0, top_meths: vec![], top_consts: vec![], fuel: 0, lvars: 0, in_compact: false, in_singclass: false };
    let nf = 1 + g.t.below(o.max_files);
    let mut files = vec![];
    for f in 0..nf {
        g.file = f;
        g.line = 0;
        g.text.clear();
        g.instr.clear();
        g.fuel = o.size;
        let tops = 1 + g.t.below(4);
        for _ in 0..tops {
            g.top();
        }
        files.push(File { path: format!("{}.rb", ["a", "b", "c", "d", "e"][f]), text: g.text.clone(), instr: g.instr.clone() });
    }
    World { files, sites: g.sites, nss: g.nss, opts: o }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Target {
    /// no such constant / method
    None,
    /// sites in the program
    Sites(Vec<usize>),
    /// nothing, or some of these sites
    Maybe(Vec<usize>),
    /// something outside the program (builtin)
    Outside,
}

pub struct Truth {
    pub target: BTreeMap<usize, Target>,
    /// module name -> ancestors (names; only named modules of the program)
    pub ancestors: BTreeMap<String, Vec<String>>,
    pub owner: BTreeMap<usize, String>,
    /// (namespace, include|prepend|extend|superclass, target)
    pub edges: Vec<(String, String, String)>,
    pub raw: Value,
}

const PRE: &str = r#"$__c={};$__i={};$__d={};$__e=[]
class Module
  %i[include prepend].each { |k| o = instance_method(k); define_method(k) { |*a| a.each { |x| $__e << [self, k, x] }; o.bind_call(self, *a) } }
  def extend(*a) = (a.each { |x| $__e << [self, :extend, x] }; super)
end
# What a call in an instance method of module M may reach: M in a class of its own, and in every user of M.
def __mod(m, n, sup)
  us = [Class.new { include m }]
  $__d.values.uniq.each { |x| us << x if x.is_a?(Class) && x.include?(m); us << x.singleton_class if x.singleton_class.include?(m) }
  return :skip if us.any? { |c| c.ancestors.uniq.size != c.ancestors.size }
  us.map { |c|
    u = (c.instance_method(n) rescue nil)
    if sup
      u = u.super_method while u && u.owner != m
      u = u && u.super_method
    end
    u }
end
# A call on an explicit receiver from a self of class sc.
def __recv(l, n, sc, inst)
  c = (l.call rescue (return :skip))
  (return :skip) unless c.is_a?(Module)
  (return :skip) if inst && !c.is_a?(Class)
  c = c.singleton_class unless inst
  (return :skip) if c.ancestors.uniq.size != c.ancestors.size
  u = c.instance_method(n)
  return u if c.public_method_defined?(n)
  return u if c.protected_method_defined?(n) && sc <= u.owner
  # not callable from here; judged only for private methods when nothing callable lies further up
  return :skip if u.super_method || c.protected_method_defined?(n)
  nil
end
def __self(b, n)
  (return :skip) if b.ancestors.uniq.size != b.ancestors.size
  b.instance_method(n)
end
def __sup(b, n)
  (return :skip) if b.ancestors.uniq.size != b.ancestors.size
  u = b.instance_method(n)
  u = u.super_method while u && u.owner != b
  u && u.super_method
end
"#;
const POST: &str = r#"
def __cv(v)
  case v
  when Module then ["mod", v.name]
  when Integer then ["val", v]
  else ["other"]
  end
end
c = $__c.to_h { |k, l| [k, (begin; __cv(l.call); rescue NameError, TypeError; ["none"]; end)] }
sl = ->(u) { u ? ((l = u.source_location) ? [l[0], l[1], u.owner.to_s, u.name.to_s, u.original_name.to_s] : ["builtin"]) : nil }
m = $__i.to_h { |k, l| [k, (begin; u = l.call; u == :skip ? "skip" : u.is_a?(Array) ? ["set", u.map(&sl).uniq, sl[u[0]]] : sl[u]; rescue NameError, TypeError; nil; end)] }
d = $__d.transform_values(&:name)
anc = $__d.values.uniq.to_h { |x| [x.name, x.ancestors.map(&:name).compact] }
sanc = $__d.values.uniq.to_h { |x| [x.name, x.singleton_class.ancestors.map { |y| y.singleton_class? ? "S:" + ObjectSpace.each_object(y).min_by { |o| o.respond_to?(:ancestors) ? -o.ancestors.size : 0 }.to_s : y.name }] } rescue {}
$__d.values.uniq.each { |x| $__e << [x, :superclass, x.superclass] if x.is_a?(Class) && x.superclass != Object }
e = $__e.select { |x| x[0].name && x[2].name }.map { |x| [x[0].name, x[1].to_s, x[2].name] }.uniq
own = $__d.values.uniq.flat_map { |x| [x, x.singleton_class] }
here = ->(c, n) { u = c.instance_method(n); (l = u.source_location) ? l[0] != "pre" : own.include?(u.owner) }
im = ->(c) { c.public_instance_methods.select { |n| here[c, n] }.map(&:to_s) }
am = ->(c) { (c.instance_methods + c.private_instance_methods).select { |n| here[c, n] }.map(&:to_s) }
pm = $__d.values.uniq.to_h { |x| [x.name, [x.is_a?(Class) ? im[x] : nil, im[x.singleton_class], x.constants.map(&:to_s), x.constants(false).map(&:to_s), x.is_a?(Class) ? am[x] : nil, am[x.singleton_class]]] }
$__out = { "pm" => pm, "c" => c, "m" => m, "d" => d, "anc" => anc, "e" => e }
"#;

/// Ask real Ruby. None: the program does not load (not a program we judge).
pub fn truth(w: &World) -> Option<Truth> {
    let mut files = vec![("pre".to_string(), PRE.to_string())];
    for f in &w.files {
        files.push((f.path.clone(), f.instr.clone()));
    }
    files.push(("post".into(), POST.into()));
    let v = rubyproc::eval(&files);
    if v["ok"] != true {
        if std::env::var_os("VH_VERBOSE").is_some() {
            eprintln!("ruby: {v}");
        }
        if v["err"] == "SyntaxError" || v["at"].to_string().contains("post") {
            crate::runner::harness_error(&format!("world program broken: {v}\n{}", w.files.iter().map(|f| f.instr.clone()).collect::<String>()));
        }
        return None;
    }
    let out = &v["out"];
    let mut target = BTreeMap::new();
    let mut owner = BTreeMap::new();
    let mut ns_sites: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (k, n) in out["d"].as_object().unwrap() {
        let id: usize = k.parse().unwrap();
        ns_sites.entry(n.as_str().unwrap_or("").to_string()).or_default().push(id);
        owner.insert(id, n.as_str().unwrap_or("").to_string());
    }
    let by_line: BTreeMap<(&str, u64), usize> = w.sites.iter().enumerate().filter(|(_, s)| s.kind == K::MethDef).map(|(i, s)| ((w.files[s.file].path.as_str(), s.line as u64 + 1), i)).collect();
    for (k, x) in out["c"].as_object().unwrap() {
        let id: usize = k.parse().unwrap();
        let t = match x[0].as_str().unwrap() {
            "mod" => match ns_sites.get(x[1].as_str().unwrap_or("")) {
                Some(v) => Target::Sites(v.clone()),
                None => Target::Outside,
            },
            "val" => Target::Sites(vec![x[1].as_u64().unwrap() as usize - 1000]),
            "none" => Target::None,
            _ => Target::Outside,
        };
        target.insert(id, t);
    }
    let one = |x: &Value| {
        if x.is_null() {
            Target::None
        } else if x[0] == "builtin" {
            Target::Outside
        } else {
            match by_line.get(&(x[0].as_str().unwrap(), x[1].as_u64().unwrap())) {
                // an alias: its own line or the aliased definition's
                Some(s) if x[3] != x[4] => Target::Sites(std::iter::once(*s).chain((0..w.sites.len()).filter(|i| w.sites[*i].tag == "alias" && Some(w.sites[*i].name.as_str()) == x[3].as_str())).collect()),
                Some(s) => Target::Sites(vec![*s]),
                None => Target::Outside,
            }
        }
    };
    for (k, x) in out["m"].as_object().unwrap() {
        let id: usize = k.parse().unwrap();
        if x == "skip" {
            continue;
        }
        let t = if x[0] == "set" {
            let all: Vec<Target> = x[1].as_array().unwrap().iter().map(one).collect();
            if all.contains(&Target::Outside) {
                Target::Outside
            } else {
                let sites: Vec<usize> = all.iter().filter_map(|t| if let Target::Sites(v) = t { Some(v.clone()) } else { None }).flatten().collect();
                if sites.is_empty() {
                    Target::None
                } else if let Target::Sites(_) = one(&x[2]) {
                    Target::Sites(sites)
                } else {
                    Target::Maybe(sites)
                }
            }
        } else {
            one(x)
        };
        target.insert(id, t);
    }
    let ancestors = out["anc"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect())).collect();
    let edges = out["e"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().into(), x[1].as_str().unwrap().into(), x[2].as_str().unwrap().into())).collect();
    Some(Truth { target, ancestors, owner, edges, raw: out.clone() })
}

pub fn show(w: &World) -> String {
    w.files.iter().map(|f| format!("=== {}\n{}", f.path, f.text)).collect()
}
