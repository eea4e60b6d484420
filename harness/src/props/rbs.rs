//! C16: an RBS text is read as exactly the declarations it states. The
//! generator builds declarations, prints them in RBS, and compares what the
//! parser returns with what was built.
use crate::runner::*;
use crate::tape::Tape;
use rbs_parser::*;

const CLS: &[&str] = &["String", "Integer", "Foo", "Bar", "Widget", "::Kernel", "Foo::Bar", "::A::B::C", "X509", "string", "Foo::int", "::Foo::real_num"];
const CLSO: &[&str] = &["String", "Integer", "Foo", "Bar", "Widget", "::Kernel", "Foo::Bar", "::A::B::C", "X509"];
const GEN: &[(&str, usize)] = &[("Array", 1), ("Hash", 2), ("Enumerator", 2), ("::Set", 1), ("Foo::Box", 1), ("_Each", 1), ("::Foo::_Pair", 2), ("maybe", 1), ("Foo::range", 1)];
const IFS: &[&str] = &["_ToS", "_Each", "Foo::_Bar", "_ToAry"];
const VARS: &[&str] = &["T", "Elem", "K", "U"];
const NAMES: &[&str] = &["foo", "bar_baz", "to_s", "name", "end", "class", "private_thing", "public", "attr_accessor", "include", "type", "in", "out", "void", "x1", "def", "Foo", "untyped", "alias", "initialize"];
const OPS: &[&str] = &["+", "-", "*", "/", "%", "**", "==", "===", "<=>", "<", "<=", ">", ">=", "=~", "!~", "!", "[]", "[]=", "<<", ">>", "&", "|", "^", "~", "+@", "-@", "empty?", "save!", "name=", "include?", "end?", "class!"];
const PN: &[&str] = &["a", "value", "index", "blk", "other", "str", "n"];

struct G<'a> {
    t: &'a mut Tape,
    vars: Vec<String>,
    n: usize,
    within: Vec<String>,
    out: Vec<Declaration>,
}

/// Type in some context; `atom` = must bind tightest.
fn show(ty: &RbsType, prec: u8) -> String {
    // prec 0: anything; 1: operand of union; 2: operand of intersection; 3: operand of `?`
    let par = |s: String, p: u8| if prec > p { format!("({s})") } else { s };
    match ty {
        RbsType::Class(n) | RbsType::Interface(n) | RbsType::TypeVar(n) => n.clone(),
        RbsType::ClassInstance { name, args } => format!("{name}[{}]", args.iter().map(|a| show(a, 0)).collect::<Vec<_>>().join(", ")),
        RbsType::Union(ts) => par(ts.iter().map(|a| show(a, 1)).collect::<Vec<_>>().join(" | "), 0),
        RbsType::Intersection(ts) => par(ts.iter().map(|a| show(a, 2)).collect::<Vec<_>>().join(" & "), 1),
        // `:foo?` is one symbol
        RbsType::Optional(i) if matches!(**i, RbsType::Literal(Literal::Symbol(_))) => format!("({})?", show(i, 3)),
        RbsType::Optional(i) => par(format!("{}?", show(i, 3)), 2),
        RbsType::Tuple(ts) => format!("[{}]", ts.iter().map(|a| show(a, 0)).collect::<Vec<_>>().join(", ")),
        RbsType::Record(fs) => format!("{{ {} }}", fs.iter().map(|f| format!("{}{}: {}", if f.optional { "?" } else { "" }, f.name, show(&f.r#type, 0))).collect::<Vec<_>>().join(", ")),
        RbsType::Proc(m) => par(format!("^{}", show_fun(m)), 0),
        RbsType::Literal(l) => match l {
            Literal::String(s) if s.contains('"') => format!("'{s}'"),
            Literal::String(s) => format!("{s:?}"),
            Literal::Symbol(s) => format!(":{s}"),
            Literal::Integer(65535) => "65_535".into(),
            Literal::Integer(i) => i.to_string(),
            Literal::True => "true".into(),
            Literal::False => "false".into(),
        },
        RbsType::SelfType => "self".into(),
        RbsType::Instance => "instance".into(),
        RbsType::ClassType => "class".into(),
        RbsType::Void => "void".into(),
        RbsType::Nil => "nil".into(),
        RbsType::Bool => "bool".into(),
        RbsType::Untyped => "untyped".into(),
        RbsType::Top => "top".into(),
        RbsType::Bot => "bot".into(),
    }
}

fn show_params(ps: &[MethodParam]) -> String {
    let one = |p: &MethodParam| {
        let ty = show(&p.r#type, 0);
        let named = |pre: &str| format!("{pre}{ty}{}", p.name.as_ref().map(|n| format!(" {n}")).unwrap_or_default());
        match p.kind {
            ParamKind::Required => named(""),
            ParamKind::Optional => named("?"),
            ParamKind::Rest => named("*"),
            ParamKind::KeywordRest => named("**"),
            ParamKind::Keyword => format!("{}: {ty}", p.name.as_ref().unwrap()),
            ParamKind::KeywordOpt => format!("?{}: {ty}", p.name.as_ref().unwrap()),
            ParamKind::Block => unreachable!("HARNESS"),
        }
    };
    format!("({})", ps.iter().map(one).collect::<Vec<_>>().join(", "))
}

fn show_tparams(ps: &[TypeParam]) -> String {
    if ps.is_empty() {
        return String::new();
    }
    let one = |p: &TypeParam| {
        // `unchecked` says nothing about the parameter itself
        let first = p.name == VARS[0];
        let unchecked = (first && ps.len() == 1 && p.bound.is_none() && p.variance != Variance::Invariant)
            || (p.name == VARS[1] && p.variance == Variance::Contravariant)
            || (first && ps.len() == 2 && p.bound.is_some());
        let v = match p.variance {
            Variance::Covariant => "out ",
            Variance::Contravariant => "in ",
            Variance::Invariant => "",
        };
        format!("{}{v}{}{}", if unchecked { "unchecked " } else { "" }, p.name, p.bound.as_ref().map(|b| format!(" < {}", show(b, 0))).unwrap_or_default())
    };
    format!("[{}]", ps.iter().map(one).collect::<Vec<_>>().join(", "))
}

fn show_fun(m: &MethodType) -> String {
    let mut s = show_params(&m.params);
    if let Some(b) = &m.block {
        s.push_str(&format!(" {}{{ {} -> {} }}", if b.required { "" } else { "?" }, show_params(&b.params), show(&b.return_type, 3)));
    }
    format!("{s} -> {}", show(&m.return_type, 3))
}

fn show_method_type(m: &MethodType) -> String {
    let tp = show_tparams(&m.type_params);
    format!("{tp}{}{}", if tp.is_empty() { "" } else { " " }, show_fun(m))
}

impl<'a> G<'a> {
    fn name(&mut self, xs: &[&str]) -> String {
        self.t.pick(xs).to_string()
    }
    fn ty(&mut self, d: usize) -> RbsType {
        let k = if d == 0 { self.t.below(9) } else { self.t.below(18) };
        match k {
            0 | 1 => RbsType::Class(self.name(CLS)),
            2 => RbsType::Interface(self.name(IFS)),
            3 if !self.vars.is_empty() => {
                let i = self.t.below(self.vars.len());
                RbsType::TypeVar(self.vars[i].clone())
            }
            3 | 4 => RbsType::Class(self.name(CLS)),
            5 | 6 => match self.t.below(9) {
                0 => RbsType::Nil,
                1 => RbsType::Bool,
                2 => RbsType::Untyped,
                3 => RbsType::SelfType,
                4 => RbsType::Instance,
                5 => RbsType::ClassType,
                6 => RbsType::Void,
                7 => RbsType::Top,
                _ => RbsType::Bot,
            },
            7 | 8 => RbsType::Literal(match self.t.below(5) {
                0 => Literal::Integer(*self.t.pick(&[0, 1, 42, 65535, 1 << 40])),
                1 => Literal::String(self.name(&["a", "foo bar", "x, y", "", "it's", "a]b", "->", "#", "{", "say \"hi\""])),
                2 => Literal::Symbol(self.name(&["foo", "bar?", "x_1", "+", "[]", "Foo"])),
                3 => Literal::True,
                _ => Literal::False,
            }),
            9 | 10 => {
                let (n, k) = *self.t.pick(GEN);
                RbsType::ClassInstance { name: n.into(), args: (0..k).map(|_| self.ty(d - 1)).collect() }
            }
            11 => {
                let n = self.t.range(2, 3);
                RbsType::Union((0..n).map(|_| self.ty(d - 1)).collect())
            }
            12 => {
                let n = self.t.range(2, 3);
                RbsType::Intersection((0..n).map(|_| self.ty(d - 1)).collect())
            }
            13 => RbsType::Optional(Box::new(self.ty(d - 1))),
            14 => {
                let n = self.t.range(1, 3);
                RbsType::Tuple((0..n).map(|_| self.ty(d - 1)).collect())
            }
            15 | 16 => {
                let n = self.t.range(1, 3);
                let mut fs: Vec<RecordField> = vec![];
                for _ in 0..n {
                    let f = RecordField::new(self.name(&["name", "age", "id", "kind", "class"]), self.ty(d - 1), self.t.chance(30) && std::env::var_os("VH_RBS_OLD").is_none());
                    if !fs.iter().any(|x| x.name == f.name) {
                        fs.push(f);
                    }
                }
                RbsType::Record(fs)
            }
            _ => RbsType::Proc(Box::new(self.fun(d - 1))),
        }
    }
    fn params(&mut self, d: usize) -> Vec<MethodParam> {
        let mut out: Vec<MethodParam> = vec![];
        let mut used: Vec<String> = vec![];
        let mut add = |g: &mut Self, kind: ParamKind, out: &mut Vec<MethodParam>| {
            let kw = matches!(kind, ParamKind::Keyword | ParamKind::KeywordOpt);
            let ty = g.ty(d);
            let name = if kw || g.t.chance(60) {
                let n = g.name(if kw { &["key", "if", "end", "value", "in", "a1"] } else { PN });
                if used.contains(&n) {
                    if kw {
                        return;
                    }
                    None
                } else {
                    used.push(n.clone());
                    Some(n)
                }
            } else {
                None
            };
            out.push(MethodParam { name, r#type: ty, kind });
        };
        for _ in 0..self.t.below(3) {
            add(self, ParamKind::Required, &mut out);
        }
        for _ in 0..self.t.below(3) {
            add(self, ParamKind::Optional, &mut out);
        }
        if self.t.chance(25) {
            add(self, ParamKind::Rest, &mut out);
        }
        if out.iter().any(|p| p.kind == ParamKind::Rest) && self.t.chance(40) {
            add(self, ParamKind::Required, &mut out);
        }
        for _ in 0..self.t.below(3) {
            let k = if self.t.bool() { ParamKind::Keyword } else { ParamKind::KeywordOpt };
            add(self, k, &mut out);
        }
        if self.t.chance(20) {
            add(self, ParamKind::KeywordRest, &mut out);
        }
        out
    }
    fn fun(&mut self, d: usize) -> MethodType {
        let params = self.params(d);
        let block = if self.t.chance(25) { Some(Block { params: self.params(0), return_type: self.ty(d), required: self.t.bool() }) } else { None };
        MethodType { type_params: vec![], params, return_type: self.ty(d), block }
    }
    fn tparams(&mut self, method: bool) -> Vec<TypeParam> {
        let n = *self.t.pick(&[0, 0, 0, 1, 1, 2]);
        let mut out = vec![];
        for i in 0..n {
            let mut p = TypeParam::new(VARS[(i + if method { 2 } else { 0 }) % 4]);
            if !method {
                p.variance = match self.t.below(4) {
                    0 => Variance::Covariant,
                    1 => Variance::Contravariant,
                    _ => Variance::Invariant,
                };
            }
            if !method && self.t.chance(20) {
                p.bound = Some(match self.t.below(3) {
                    0 => RbsType::Class(self.name(CLSO)),
                    1 => RbsType::Interface(self.name(IFS)),
                    _ => RbsType::ClassInstance { name: "Array".into(), args: vec![RbsType::Class("in_".to_uppercase())] },
                });
            }
            out.push(p);
        }
        self.vars.extend(out.iter().map(|p| p.name.clone()));
        out
    }
    fn pad(&mut self) -> String {
        match self.t.below(12) {
            0 => "  # private comment: def x: () -> self.y\n".into(),
            1 => "\n".into(),
            2 => "  %a{pure}\n".into(),
            _ => String::new(),
        }
    }
    fn method(&mut self, vis: Visibility, singleton_ok: bool, text: &mut String) -> Vec<MethodDecl> {
        let mut m = MethodDecl::new(if self.t.chance(40) { self.name(OPS) } else { self.name(NAMES) });
        let own = singleton_ok && self.t.chance(15);
        m.visibility = if own { if self.t.bool() { Visibility::Private } else { Visibility::Public } } else { vis };
        let mut s = String::from("  ");
        if own {
            s.push_str(if m.visibility == Visibility::Private { "private " } else { "public " });
        }
        s.push_str("def ");
        // `self?.` declares a singleton method and a private instance method
        let mut both = false;
        if singleton_ok && self.t.chance(30) {
            m.kind = MethodKind::Singleton;
            both = !own && vis == Visibility::Public && self.t.chance(25);
            s.push_str(if both { "self?." } else { "self." });
        }
        if self.t.chance(6) {
            m.name = self.name(&["foo bar", "class", "x-y", "foo"]);
            s.push_str(&format!("`{}`", m.name));
        } else {
            s.push_str(&m.name);
        }
        s.push_str(": ");
        let n = self.t.range(1, 3);
        for i in 0..n {
            let k = self.vars.len();
            let tp = self.tparams(true);
            let mut f = self.fun(2);
            f.type_params = tp;
            self.vars.truncate(k);
            if i > 0 {
                s.push_str("\n   | ");
            }
            s.push_str(&show_method_type(&f));
            m.overloads.push(f);
        }
        text.push_str(&s);
        text.push('\n');
        let mut out = vec![m];
        if both {
            let mut i = out[0].clone();
            i.kind = MethodKind::Instance;
            i.visibility = Visibility::Private;
            out.push(i);
        }
        out
    }
    fn members(&mut self, text: &mut String, members: &mut Vec<Member>, methods: &mut Vec<MethodDecl>, interface: bool, depth: usize) {
        let mut vis = Visibility::Public;
        for _ in 0..self.t.below(6) {
            let k = if interface { 0 } else { self.t.below(10) };
            if !interface && depth < 2 && self.t.chance(12) {
                let d = self.decl(text, depth + 1);
                self.out.push(d);
                continue;
            }
            let pad = self.pad();
            if k != 9 || !pad.contains("%a") {
                text.push_str(&pad);
            }
            match k {
                0..=4 => {
                    let m = self.method(vis, !interface, text);
                    methods.extend(m);
                }
                5 => {
                    let ty = match self.t.below(3) {
                        0 => RbsType::ClassInstance { name: "Enumerable".into(), args: vec![self.ty(1)] },
                        1 => RbsType::Class(self.name(CLSO)),
                        _ => RbsType::Class(self.name(&["_Each", "Comparable", "Kernel", "Foo::Mod"])),
                    };
                    let (w, m): (&str, fn(RbsType) -> Member) = match self.t.below(3) {
                        0 => ("include", Member::Include),
                        1 => ("extend", Member::Extend),
                        _ => ("prepend", Member::Prepend),
                    };

                    text.push_str(&format!("  {w} {}\n", show(&ty, 0)));
                    members.push(m(ty));
                }
                6 | 7 => {
                    let kind = *self.t.pick(&[AttrKind::Reader, AttrKind::Writer, AttrKind::Accessor]);
                    let w = match kind {
                        AttrKind::Reader => "attr_reader",
                        AttrKind::Writer => "attr_writer",
                        AttrKind::Accessor => "attr_accessor",
                    };
                    let sing = self.t.chance(25);
                    let name = self.name(&["name", "value", "attr_accessor_x", "myself", "type", "class"]);
                    let ty = self.ty(2);
                    let ivar = match self.t.below(6) {
                        0 => " (@other)",
                        1 => " ()",
                        _ => "",
                    };
                    text.push_str(&format!("  {w} {}{name}{ivar}: {}\n", if sing { "self." } else { "" }, show(&ty, 0)));
                    members.push(Member::Attr(AttrDecl { name, kind, r#type: ty, is_singleton: sing, location: None }));
                }
                8 => {
                    let sing = self.t.chance(25);
                    let (a, b) = (self.name(&["foo", "myself", "==", "bar?"]), self.name(&["to_s", "name", "eql?", "+"]));
                    let p = if sing { "self." } else { "" };
                    let q = if self.t.chance(10) { "`" } else { "" };
                    text.push_str(&format!("  alias {p}{q}{a}{q} {p}{b}\n"));
                    members.push(Member::Alias(AliasDecl { new_name: a, old_name: b, is_singleton: sing, location: None }));
                }
                _ => {
                    if self.t.bool() {
                        vis = Visibility::Private;
                        members.push(Member::Private);
                        text.push_str("  private\n");
                    } else {
                        vis = Visibility::Public;
                        members.push(Member::Public);
                        text.push_str("  public\n");
                    }
                }
            }
        }
    }
    fn full(&self, name: &str) -> String {
        self.within.iter().map(|s| s.as_str()).chain([name]).collect::<Vec<_>>().join("::")
    }
    fn nested(&mut self, name: &str, f: impl FnOnce(&mut Self)) {
        self.within.push(name.to_string());
        let vars = self.vars.clone();
        f(self);
        self.vars = vars;
        self.within.pop();
    }
    fn decl(&mut self, text: &mut String, depth: usize) -> Declaration {
        if depth == 0 {
            self.vars.clear();
        }
        let i = self.n;
        self.n += 1;
        let q = self.t.chance(20);
        match if depth > 0 { self.t.below(9) } else { self.t.below(10) } {
            0..=3 => {
                let mut c = ClassDecl::new(if q { format!("Out::Klass{i}") } else { format!("Klass{i}") });
                c.type_params = self.tparams(false);
                c.superclass = match self.t.below(4) {
                    0 => Some(RbsType::Class(self.name(CLSO))),
                    1 => Some(RbsType::ClassInstance { name: self.name(&["Array", "::Foo::Box"]), args: vec![self.ty(1)] }),
                    _ => None,
                };
                text.push_str(&format!("class {}{}{}\n", c.name, show_tparams(&c.type_params), c.superclass.as_ref().map(|s| format!(" < {}", show(s, 0))).unwrap_or_default()));
                let name = c.name.clone();
                self.nested(&name, |g| g.members(text, &mut c.members, &mut c.methods, false, depth));
                text.push_str("end\n");
                c.name = self.full(&name);
                Declaration::Class(c)
            }
            4 | 5 => {
                let mut c = ModuleDecl::new(if q { format!("Out::Mod{i}") } else { format!("Mod{i}") });
                c.type_params = self.tparams(false);
                for _ in 0..*self.t.pick(&[0, 0, 1, 2]) {
                    c.self_types.push(match self.t.below(3) {
                        0 => RbsType::Interface(self.name(IFS)),
                        1 => RbsType::ClassInstance { name: "Array".into(), args: vec![self.ty(0)] },
                        _ => RbsType::Class(self.name(CLSO)),
                    });
                }
                let st = c.self_types.iter().map(|s| show(s, 0)).collect::<Vec<_>>().join(", ");
                text.push_str(&format!("module {}{}{}\n", c.name, show_tparams(&c.type_params), if st.is_empty() { st } else { format!(" : {st}") }));
                let name = c.name.clone();
                self.nested(&name, |g| g.members(text, &mut c.members, &mut c.methods, false, depth));
                text.push_str("end\n");
                c.name = self.full(&name);
                Declaration::Module(c)
            }
            6 => {
                let mut c = InterfaceDecl { name: if q { format!("Out::_If{i}") } else { format!("_If{i}") }, type_params: self.tparams(false), methods: vec![], location: None };
                text.push_str(&format!("interface {}{}\n", c.name, show_tparams(&c.type_params)));
                self.members(text, &mut vec![], &mut c.methods, true, depth);
                text.push_str("end\n");
                c.name = self.full(&c.name);
                Declaration::Interface(c)
            }
            7 => {
                let name = if q { format!("Out::ali{i}") } else { format!("ali{i}") };
                let type_params = self.tparams(false);
                let ty = self.ty(3);
                text.push_str(&format!("type {name}{} = {}\n", show_tparams(&type_params), show(&ty, 0)));
                Declaration::TypeAlias(TypeAliasDecl { name: self.full(&name), type_params, r#type: ty, location: None })
            }
            8 => {
                let name = if q { format!("Out::CONST{i}") } else { format!("CONST{i}") };
                let ty = self.ty(3);
                text.push_str(&format!("{name}: {}\n", show(&ty, 0)));
                Declaration::Constant(ConstantDecl { name: self.full(&name), r#type: ty, location: None })
            }
            _ => {
                let name = format!("$glob{i}");
                let ty = self.ty(3);
                text.push_str(&format!("{name}: {}\n", show(&ty, 0)));
                Declaration::Global(GlobalDecl { name, r#type: ty, location: None })
            }
        }
    }
}

// ---- one notation for both sides; names tell class types, interfaces and
// variables apart, so their tag is not compared; nested unions are flat ----
fn n_ty(t: &RbsType) -> String {
    let list = |ts: &[RbsType]| ts.iter().map(n_ty).collect::<Vec<_>>().join(" ");
    match t {
        RbsType::Class(n) | RbsType::Interface(n) | RbsType::TypeVar(n) => n.clone(),
        RbsType::ClassInstance { name, args } => format!("{name}<{}>", list(args)),
        RbsType::Union(_) => {
            fn flat(t: &RbsType, out: &mut Vec<String>) {
                match t {
                    RbsType::Union(ts) => ts.iter().for_each(|t| flat(t, out)),
                    t => out.push(n_ty(t)),
                }
            }
            let mut v = vec![];
            flat(t, &mut v);
            format!("(| {})", v.join(" "))
        }
        RbsType::Intersection(_) => {
            fn flat(t: &RbsType, out: &mut Vec<String>) {
                match t {
                    RbsType::Intersection(ts) => ts.iter().for_each(|t| flat(t, out)),
                    t => out.push(n_ty(t)),
                }
            }
            let mut v = vec![];
            flat(t, &mut v);
            format!("(& {})", v.join(" "))
        }
        RbsType::Optional(i) => format!("(? {})", n_ty(i)),
        RbsType::Tuple(ts) => format!("(tuple {})", list(ts)),
        RbsType::Record(fs) => format!("(record {})", fs.iter().map(|f| format!("{}{}={}", if f.optional { "?" } else { "" }, f.name, n_ty(&f.r#type))).collect::<Vec<_>>().join(" ")),
        RbsType::Proc(m) => format!("(proc {})", n_fun(m)),
        RbsType::Literal(l) => match l {
            Literal::True => "true".into(),
            Literal::False => "false".into(),
            l => format!("{l:?}"),
        },
        t => format!("{t:?}").to_lowercase(),
    }
}
fn n_params(ps: &[MethodParam]) -> String {
    ps.iter().map(|p| format!("{:?}:{}:{}", p.kind, p.name.as_deref().unwrap_or("-"), n_ty(&p.r#type))).collect::<Vec<_>>().join(", ")
}
fn n_fun(m: &MethodType) -> String {
    format!("{}({}) block={} -> {}", n_tp(&m.type_params), n_params(&m.params), m.block.as_ref().map(|b| format!("{}({} -> {})", if b.required { "" } else { "?" }, n_params(&b.params), n_ty(&b.return_type))).unwrap_or("-".into()), n_ty(&m.return_type))
}
fn n_tp(ps: &[TypeParam]) -> String {
    ps.iter().map(|p| format!("[{} {:?} {}]", p.name, p.variance, p.bound.as_ref().map(n_ty).unwrap_or("-".into()))).collect()
}
/// (kind of fact, key, value)
fn facts(d: &Declaration) -> Vec<(&'static str, String)> {
    let mut out = vec![];
    let ms = |out: &mut Vec<(&'static str, String)>, owner: &str, members: &[Member], methods: &[MethodDecl]| {
        for m in members {
            out.push(match m {
                Member::Include(t) => ("include", format!("{owner} {}", n_ty(t))),
                Member::Extend(t) => ("extend", format!("{owner} {}", n_ty(t))),
                Member::Prepend(t) => ("prepend", format!("{owner} {}", n_ty(t))),
                Member::Attr(a) => ("attr", format!("{owner} {:?} {} singleton={} {}", a.kind, a.name, a.is_singleton, n_ty(&a.r#type))),
                Member::Alias(a) => ("alias", format!("{owner} {} = {} singleton={}", a.new_name, a.old_name, a.is_singleton)),
                Member::Public => ("visibility", format!("{owner} public")),
                Member::Private => ("visibility", format!("{owner} private")),
            });
        }
        for m in methods {
            out.push(("method", format!("{owner} {:?} {} {:?}", m.kind, m.name, m.visibility)));
            for (k, o) in m.overloads.iter().enumerate() {
                out.push(("overload", format!("{owner} {} #{k} {}", m.name, n_fun(o))));
            }
        }
    };
    match d {
        Declaration::Class(c) => {
            let o = format!("{}", c.name);
            out.push(("class", format!("{o} {} < {}", n_tp(&c.type_params), c.superclass.as_ref().map(n_ty).unwrap_or("-".into()))));
            ms(&mut out, &o, &c.members, &c.methods);
        }
        Declaration::Module(c) => {
            let o = format!("{}", c.name);
            out.push(("module", format!("{o} {} : {}", n_tp(&c.type_params), c.self_types.iter().map(n_ty).collect::<Vec<_>>().join(" "))));
            ms(&mut out, &o, &c.members, &c.methods);
        }
        Declaration::Interface(c) => {
            let o = format!("{}", c.name);
            out.push(("interface", format!("{o} {}", n_tp(&c.type_params))));
            ms(&mut out, &o, &[], &c.methods);
        }
        Declaration::TypeAlias(c) => out.push(("type alias", format!("{} {} = {}", c.name, n_tp(&c.type_params), n_ty(&c.r#type)))),
        Declaration::Constant(c) => out.push(("constant", format!("{} {}", c.name, n_ty(&c.r#type)))),
        Declaration::Global(c) => out.push(("global", format!("{} {}", c.name, n_ty(&c.r#type)))),
    }
    out
}

/// What the vendored tree-sitter grammar cannot read; the parser has to
/// recover only the suffix of `def save!`, which the grammar calls an error.
fn grammar_error(text: &str) -> Option<String> {
    let tree = Parser::new().parse_raw(text).expect("HARNESS: no tree");
    let mut todo = vec![tree.root_node()];
    while let Some(n) = todo.pop() {
        if n.is_missing() {
            return Some("missing".into());
        }
        if n.is_error() {
            let s = &text[n.start_byte()..n.end_byte()];
            if s != "!" || text.as_bytes().get(n.end_byte()) != Some(&b':') {
                return Some(s.chars().take(20).collect());
            }
            continue;
        }
        if n.has_error() {
            for i in 0..n.child_count() {
                todo.push(n.child(i).unwrap());
            }
        }
    }
    None
}

fn param_show(ps: &[MethodParam]) -> String {
    ps.iter().map(|p| format!("{:?}", match p.kind { ParamKind::Keyword => ruby_analysis::core::MethodParamKind::RequiredKeyword, ParamKind::KeywordOpt => ruby_analysis::core::MethodParamKind::OptionalKeyword, ParamKind::Required => ruby_analysis::core::MethodParamKind::Required, ParamKind::Optional => ruby_analysis::core::MethodParamKind::Optional, ParamKind::Rest => ruby_analysis::core::MethodParamKind::Rest, ParamKind::KeywordRest => ruby_analysis::core::MethodParamKind::KeywordRest, ParamKind::Block => ruby_analysis::core::MethodParamKind::Block })).collect::<Vec<_>>().join(",")
}

/// What the index has to hold of a class or module. `*` in a method's
/// parameters: not stated.
fn indexed(owner: &str, members: &[Member], methods: &[MethodDecl], out: &mut Vec<(&'static str, String)>) {
    let side = |sing: bool| if sing { format!("#<Class:{owner}>") } else { owner.to_string() };
    let vis = |v: Visibility| format!("{v:?}");
    // (singleton, name, visibility, params)
    let mut rows: Vec<(bool, String, String, String)> = vec![];
    for m in methods {
        let sing = m.kind == MethodKind::Singleton;
        let ps = param_show(&m.overloads[0].params);
        if m.name == "initialize" && !sing {
            rows.push((true, "new".into(), vis(Visibility::Public), ps));
        } else {
            rows.push((sing, m.name.clone(), vis(m.visibility), ps));
        }
    }
    let mut now = Visibility::Public;
    for m in members {
        match m {
            Member::Public => now = Visibility::Public,
            Member::Private => now = Visibility::Private,
            Member::Attr(a) => {
                if a.kind != AttrKind::Writer {
                    rows.push((a.is_singleton, a.name.clone(), vis(now), String::new()));
                }
                if a.kind != AttrKind::Reader {
                    rows.push((a.is_singleton, format!("{}=", a.name), vis(now), "Required".into()));
                }
            }
            Member::Include(t) | Member::Extend(t) | Member::Prepend(t) => {
                let (kind, src) = match m {
                    Member::Include(_) => ("Include", owner.to_string()),
                    Member::Prepend(_) => ("Prepend", owner.to_string()),
                    _ => ("Extend", side(true)),
                };
                if let Some(n) = mixin_name(t) {
                    out.push(("mixin", format!("{src} {kind} {n}")));
                }
            }
            Member::Alias(_) => {}
        }
    }
    for m in members {
        if let Member::Alias(a) = m {
            // a copy of the method it names, where the declaration states that one
            let same: Vec<_> = methods.iter().filter(|m| m.name == a.old_name && (m.kind == MethodKind::Singleton) == a.is_singleton).collect();
            match same[..] {
                [m] => rows.push((a.is_singleton, a.new_name.clone(), vis(m.visibility), param_show(&m.overloads[0].params))),
                _ => rows.push((a.is_singleton, a.new_name.clone(), "*".into(), "*".into())),
            }
        }
    }
    for (sing, name, v, ps) in rows {
        out.push(("method", format!("{} {name} {v} ({ps})", side(sing))));
    }
}

fn mixin_name(t: &RbsType) -> Option<String> {
    let n = match t {
        RbsType::Class(n) | RbsType::ClassInstance { name: n, .. } => n,
        _ => return None,
    };
    (!n.rsplit("::").next().unwrap().starts_with('_')).then(|| n.clone())
}

fn run_index(t: &mut Tape) -> Case {
    use ruby_analysis::core::*;
    let n = t.range(1, 4);
    let mut g = G { t, vars: vec![], n: 0, within: vec![], out: vec![] };
    let mut text = String::new();
    for _ in 0..n {
        let d = g.decl(&mut text, 0);
        g.out.push(d);
    }
    let want = std::mem::take(&mut g.out);
    note_input(&text);
    if grammar_error(&text).is_some() {
        return Case::ok(text, false).label("vendored grammar rejects");
    }
    let idx = match ruby_analysis::indexer::index_rbs(SourceFileId(3), &text) {
        Ok(i) => i,
        Err(e) => {
            let why = e.to_string();
            // a documented bound: block signatures of more than four parameters
            let wide = |ms: &[MethodDecl]| ms.iter().any(|m| m.overloads.iter().any(|o| o.block.as_ref().is_some_and(|b| b.params.len() > 4)));
            let over = want.iter().any(|d| match d {
                Declaration::Class(c) => wide(&c.methods),
                Declaration::Module(c) => wide(&c.methods),
                _ => false,
            });
            if over && why.contains("bound") {
                return Case::ok(text, false).label("beyond the bounds of block signatures");
            }
            let kind = why.split(|c: char| !c.is_alphabetic() && c != ' ' && c != '-').next().unwrap_or("").trim().split(' ').take(4).collect::<Vec<_>>().join("-");
            return Case::bad(text.clone(), format!("rbs:index:error:{kind}"), format!("the file cannot be indexed at all: {why}\n{text}"));
        }
    };
    let mut w: Vec<(&'static str, String)> = vec![];
    for d in &want {
        match d {
            Declaration::Class(c) => {
                w.push(("symbol", format!("Class {}", c.name)));
                if let Some(n) = c.superclass.as_ref().and_then(mixin_name) {
                    w.push(("mixin", format!("{} Superclass {n}", c.name)));
                }
                indexed(&c.name, &c.members, &c.methods, &mut w);
            }
            Declaration::Module(c) => {
                w.push(("symbol", format!("Module {}", c.name)));
                indexed(&c.name, &c.members, &c.methods, &mut w);
            }
            Declaration::Constant(c) => w.push(("symbol", format!("Constant {}", c.name))),
            Declaration::Global(c) => w.push(("symbol", format!("GlobalVariable {}", c.name))),
            _ => {}
        }
    }
    // names the analysis has no notation for
    w.retain(|(k, v)| *k != "method" || !(v.contains(" foo bar ") || v.contains(" x-y ") || v.contains(" ! ") || v.contains(" ~ ")));
    let mut h: Vec<(&'static str, String)> = vec![];
    let bad_range = |r: &TextRange| r.file_id != SourceFileId(3) || r.start_byte > r.end_byte || r.end_byte as usize > text.len();
    for s in &idx.symbols {
        if bad_range(&s.range) {
            return Case::bad(text.clone(), "rbs:index:range", format!("{:?} lies outside the text\n{text}", s));
        }
        if s.kind != SymbolKind::Method {
            h.push(("symbol", format!("{:?} {}", s.kind, s.fqn)));
        }
        let last = s.fqn.name();
        let last = if last == "new" { "initialize".to_string() } else { last.trim_end_matches('=').to_string() };
        if !text[s.range.start_byte as usize..s.range.end_byte as usize].contains(&last) {
            return Case::bad(text.clone(), "rbs:index:range-name", format!("the range of {} is {:?}\n{text}", s.fqn, &text[s.range.start_byte as usize..s.range.end_byte as usize]));
        }
    }
    for m in &idx.methods {
        let ps = m.param_facts.iter().map(|p| format!("{:?}", p.kind)).collect::<Vec<_>>().join(",");
        h.push(("method", format!("{} {} {:?} ({ps})", m.owner, m.fqn.name(), m.visibility)));
    }
    for e in &idx.unresolved_graph_edges {
        let n = format!("{}{}", if e.absolute { "::" } else { "" }, e.target_parts.iter().map(|p| p.to_string()).collect::<Vec<_>>().join("::"));
        h.push(("mixin", format!("{} {:?} {n}", e.source, e.kind)));
    }
    let eq = |a: &(&'static str, String), b: &(&'static str, String)| {
        a.0 == b.0 && (a.1 == b.1 || a.1.strip_suffix(" * (*)").is_some_and(|p| b.1.strip_prefix(p).is_some_and(|r| r.starts_with(' '))))
    };
    for f in &w {
        if !h.iter().any(|x| eq(f, x)) {
            let near: Vec<_> = h.iter().filter(|x| x.0 == f.0).map(|x| x.1.clone()).collect();
            let kind = if f.1.ends_with("(*)") { "alias" } else { f.0 };
            return Case::bad(text.clone(), format!("rbs:index:{kind}:missing"), format!("declared but not indexed: {} {}\nindexed:\n   {}\n in\n{text}", f.0, f.1, near.join("\n   ")));
        }
    }
    for f in &h {
        if !w.iter().any(|x| eq(x, f)) {
            return Case::bad(text.clone(), format!("rbs:index:{}:extra", f.0), format!("indexed but not declared: {} {}\n in\n{text}", f.0, f.1));
        }
    }
    let nontrivial = w.iter().any(|f| f.0 == "method");
    Case::ok(text, nontrivial)
}

fn run(t: &mut Tape) -> Case {
    let n = t.range(1, 4);
    let mut g = G { t, vars: vec![], n: 0, within: vec![], out: vec![] };
    let mut text = String::new();
    for _ in 0..n {
        if g.t.chance(15) {
            text.push_str("# class Comment < X\n\n");
        }
        let d = g.decl(&mut text, 0);
        g.out.push(d);
    }
    let want = std::mem::take(&mut g.out);
    note_input(&text);
    if std::env::var_os("VH_RBS_DUMP").is_some() {
        eprint!("{}\n%%%%\n", text);
    }
    if let Some(e) = grammar_error(&text) {
        return Case::ok(text, false).label(if std::env::var_os("VH_RBS_WHY").is_some() { format!("rejects {e}") } else { "vendored grammar rejects".into() });
    }
    let got = match rbs_parser::parse(&text) {
        Ok(g) => g,
        Err(e) => return Case::bad(text.clone(), "rbs:error", format!("parse error {e} for\n{text}")),
    };
    let w: Vec<_> = want.iter().flat_map(facts).collect();
    let h: Vec<_> = got.iter().flat_map(facts).collect();
    let nontrivial = w.iter().any(|f| f.0 == "overload" || f.0.contains("alias"));
    for f in &w {
        if !h.contains(f) {
            let near: Vec<_> = h.iter().filter(|x| x.0 == f.0 && x.1.split(' ').next() == f.1.split(' ').next()).map(|x| x.1.clone()).collect();
            return Case::bad(text.clone(), format!("rbs:{}:missing", f.0), format!("{} stated but not read:\n   {}\nread:\n   {}\n in\n{text}", f.0, f.1, near.join("\n   ")));
        }
    }
    for f in &h {
        if !w.contains(f) {
            return Case::bad(text.clone(), format!("rbs:{}:extra", f.0), format!("{} read but not stated: {}\n in\n{text}", f.0, f.1));
        }
    }
    Case::ok(text, nontrivial)
}

pub fn prop() -> Prop {
    Prop { id: "C16", rule: "a case is non-trivial if it declares a method or an alias; distinct by text", assumptions: &["the generator's printer writes valid RBS (checked against the rbs gem when the generator was written)"], lanes: vec![Lane::new("declarations", 40000, 1500000, run), Lane::new("index", 15000, 500000, run_index)], case_limit: CASE_LIMIT }
}
