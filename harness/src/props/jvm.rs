//! C18: compiled Java is described as the JVM itself describes it, damaged
//! files are refused quietly, and positions in Java sources are the right ones.
use crate::javaproc;
use crate::runner::*;
use crate::tape::Tape;
use ruby_fast_lsp_jruby_support::generate_ruby_signature;
use ruby_fast_lsp_jvm_metadata::*;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- programs
#[derive(Clone, Debug)]
struct Exp {
    class: String,
    /// None for the class itself.
    member: Option<(String, String)>,
    at: (usize, usize),
    params: Vec<String>,
    stat: bool,
    /// As written: how many parameters, and whether generic or C-style.
    arity: usize,
    has_code: bool,
    leading: usize,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Class,
    Interface,
    Enum,
    Record,
    Annotation,
}
struct G<'a> {
    t: &'a mut Tape,
    s: String,
    exps: Vec<Exp>,
    pkg: String,
    tops: Vec<String>,
    chain: Vec<String>,
    vars: Vec<(String, String)>,
    release: u32,
    one_line: bool,
    /// Things the program contains, for the non-triviality rule.
    tricky: usize,
}
const TYPES: [&str; 7] = ["Alpha", "Beta", "Node", "Éta", "widget", "Cell", "Item"];
const METHODS: [&str; 13] = ["run", "value", "make", "of", "end", "def", "Upper", "été", "a$b", "then", "x", "valueOf", "equals"];
const FIELDS: [&str; 9] = ["x", "count", "MAX", "Éa", "end", "value", "selfie", "_1", "a$b"];
const PARAMS: [&str; 12] = ["a", "b", "value", "end", "Upper", "arg0", "arg1", "_1", "é", "x$y", "self", "nil"];

impl G<'_> {
    fn p(&mut self, s: &str) {
        self.s.push_str(s);
    }
    fn sep(&mut self) {
        if self.one_line {
            self.p(" ");
            return;
        }
        let w = self.t.weighted(&[60, 15, 8, 6, 6, 5]);
        let c = ["\n", "\n\n", " ", "\n/* static void run(int a) { } class Node { } */\n", "\n// é 𝒳 static { \n", "\r\n"][w];
        self.p(c);
    }
    fn named(&mut self, n: &str) -> (usize, usize) {
        let a = self.s.len();
        self.p(n);
        (a, self.s.len())
    }
    fn path(&self) -> String {
        self.pkg.replace('.', "/")
    }
    /// A type usable here: how it is written and its erased descriptor.
    fn ty(&mut self) -> (String, String) {
        let (s, d) = match self.t.weighted(&[24, 14, 8, 6, 6, 5, 4, 10, 8]) {
            0 => {
                let (s, d) = *self.t.pick(&[("int", "I"), ("long", "J"), ("boolean", "Z"), ("double", "D"), ("byte", "B"), ("char", "C"), ("short", "S"), ("float", "F")]);
                (s.to_string(), d.to_string())
            }
            1 => ("String".into(), "Ljava/lang/String;".into()),
            2 => ("Object".into(), "Ljava/lang/Object;".into()),
            3 => ("List<String>".into(), "Ljava/util/List;".into()),
            4 => ("Map<String, List<int[]>>".into(), "Ljava/util/Map;".into()),
            5 => ("java.util.Set<? extends Number>".into(), "Ljava/util/Set;".into()),
            6 => ("Map.Entry<String, Long>".into(), "Ljava/util/Map$Entry;".into()),
            7 => {
                if self.vars.is_empty() {
                    ("Integer".into(), "Ljava/lang/Integer;".into())
                } else {
                    let v = self.t.below(self.vars.len());
                    self.vars[v].clone()
                }
            }
            _ => {
                let i = self.t.below(self.tops.len());
                let n = self.tops[i].clone();
                let p = self.path();
                (n.clone(), format!("L{p}/{n};"))
            }
        };
        if self.t.chance(15) {
            let n = self.t.range(1, 2);
            return (s + &"[]".repeat(n), "[".repeat(n) + &d);
        }
        (s, d)
    }
    fn tparams(&mut self, pct: u32) -> String {
        if !self.t.chance(pct) {
            return String::new();
        }
        let mut out = vec![];
        let n = self.t.range(1, 2);
        // a type variable may shadow; the new ones are all in scope at once
        self.vars.retain(|v| !["T", "U"][..n].contains(&v.0.as_str()));
        for base in &["T", "U"][..n] {
            let base = *base;
            let (b, d) = match self.t.weighted(&[5, 3, 2, 2]) {
                0 => (String::new(), "Ljava/lang/Object;".to_string()),
                1 => (" extends Number".into(), "Ljava/lang/Number;".into()),
                2 => (" extends Comparable<String> & Runnable".into(), "Ljava/lang/Comparable;".into()),
                _ => match self.vars.last().cloned() {
                    Some(v) => (format!(" extends {}", v.0), v.1),
                    None => (" extends List<String>".into(), "Ljava/util/List;".into()),
                },
            };
            out.push(format!("{base}{b}"));
            self.vars.push((base.into(), d));
        }
        format!("<{}>", out.join(", "))
    }
    /// Parameter list: text, erased descriptors, names, varargs.
    fn params(&mut self, max: usize, plain: bool) -> (String, String, Vec<String>, bool) {
        let n = self.t.weighted(&[2, 5, 4, 2]).min(max);
        let mut names: Vec<String> = vec![];
        let (mut txt, mut desc) = (vec![], String::new());
        let mut va = false;
        for i in 0..n {
            let mut nm = self.t.pick(&PARAMS).to_string();
            if names.contains(&nm) {
                nm = format!("p{i}");
            }
            let (s, d) = self.ty();
            let pre = if plain { *self.t.pick(&["", "", "@Mark ", "@Hid "]) } else { *self.t.pick(&["", "", "", "final ", "@Mark ", "@Mark(names = {\"static\", \")\"}) final ", "@Hid "]) };
            if i + 1 == n && self.t.chance(25) {
                va = true;
                txt.push(format!("{pre}{s}... {nm}"));
                desc += &format!("[{d}");
            } else if !plain && self.t.chance(6) {
                txt.push(format!("{pre}{s} {nm}[]"));
                desc += &format!("[{d}");
            } else {
                txt.push(format!("{pre}{s} {nm}"));
                desc += &d;
            }
            names.push(nm);
        }
        (txt.join(", "), desc, names, va)
    }
    fn anns(&mut self) -> String {
        match self.t.weighted(&[70, 8, 6, 6, 5, 5]) {
            0 => "".into(),
            1 => "@Mark ".into(),
            2 => "@Mark(value = 3, names = {\"a\", \"static b\"}) ".into(),
            3 => "@Hid ".into(),
            4 => "@Deprecated ".into(),
            _ => "@Mark(deep = @Deep({@Mark2, @Mark2(Thread.State.NEW)}), type = int[].class) ".into(),
        }
    }
    fn body(&mut self) -> String {
        let nl = if self.one_line { " " } else { "\n" };
        let pre = match self.t.weighted(&[60, 8, 8, 8, 8, 8]) {
            0 => String::new(),
            1 => {
                self.tricky += 1;
                let n = *self.t.pick(&TYPES);
                // a local class cannot be named like a class around it
                let n = if self.chain.iter().any(|c| c == n) { "Local" } else { n };
                format!("class {n} {{ int x; void run(int a) {{ }} {n}(String q) {{ }} }}{nl}")
            }
            2 => format!("Runnable r0 = () -> {{ }};{nl}"),
            3 => {
                self.tricky += 1;
                format!("new Object() {{ int x; public String toString() {{ return \"\"; }} void run(int a) {{ }} }}.hashCode();{nl}")
            }
            4 => format!("long z0 = 123456789012L; double q0 = 1.5; String s0 = \"é\\u0000𝒳}}\";{nl}"),
            _ => format!("/* void run(int a) {{ */{nl}"),
        };
        format!("{{{nl}{pre}throw new RuntimeException();{nl}}}")
    }
    fn exp(&mut self, class: &str, name: &str, desc: String, at: (usize, usize), params: Vec<String>, stat: bool, has_code: bool, leading: usize) {
        let arity = params.len();
        self.exps.push(Exp { class: class.into(), member: Some((name.into(), desc)), at, params, stat, arity, has_code, leading });
    }

    /// A type declaration. `outer` is the binary name around it.
    fn decl(&mut self, k: K, name: &str, outer: Option<(&str, K)>, inner: bool, depth: usize, used: &[String]) {
        let bin = match outer {
            Some((o, _)) => format!("{o}${name}"),
            None => format!("{}/{}", self.path(), name),
        };
        let mut used = used.to_vec();
        used.push(name.to_string());
        let saved = self.vars.clone();
        if !inner {
            self.vars.clear();
        }
        let a = self.anns();
        self.p(&a);
        let nested = outer.is_some();
        let in_iface = outer.is_some_and(|o| matches!(o.1, K::Interface | K::Annotation));
        if nested && !in_iface {
            let v = *self.t.pick(&["", "public ", "protected ", "private "]);
            self.p(v);
            if k == K::Class && !inner {
                self.p("static ");
            }
        } else if !nested && self.t.chance(30) {
            self.p("strictfp ");
            self.s.truncate(self.s.len() - "strictfp ".len());
        }
        let abst = k == K::Class && self.t.chance(40);
        if abst {
            self.p("abstract ");
        } else if k == K::Class && self.t.chance(10) {
            self.p("final ");
        }
        self.p(match k {
            K::Class => "class ",
            K::Interface => "interface ",
            K::Enum => "enum ",
            K::Record => "record ",
            K::Annotation => "@interface ",
        });
        let at = self.named(name);
        self.exps.push(Exp { class: bin.clone(), member: None, at, params: vec![], stat: false, arity: 0, has_code: false, leading: 0 });
        let tp = if matches!(k, K::Class | K::Interface | K::Record) { self.tparams(35) } else { String::new() };
        self.p(&tp);
        let mut fields: BTreeSet<String> = BTreeSet::new();
        let mut sigs: BTreeSet<String> = BTreeSet::new();
        let mut comps = (String::new(), String::new(), vec![], false);
        if k == K::Record {
            self.tricky += 1;
            comps = self.params(3, true);
            // accessors named like methods of Object are not allowed
            let c = comps.clone();
            self.p(&format!("({})", c.0));
            fields.extend(c.2.iter().cloned());
            sigs.insert(format!("<init>({}", c.1));
            for n in &c.2 {
                sigs.insert(format!("{n}("));
            }
        }
        let leading = match k {
            K::Enum => "Ljava/lang/String;I".to_string(),
            K::Class if inner => format!("L{};", outer.unwrap().0),
            _ => String::new(),
        };
        let nlead = [0, 1, 2][(k == K::Enum) as usize * 2 + (k == K::Class && inner) as usize];
        if k == K::Class && self.t.chance(15) {
            self.p(" extends ArrayList<String>");
            sigs.insert("equals(Ljava/lang/Object;".into());
            sigs.insert("of(".into());
        }
        let mut compare = false;
        if matches!(k, K::Class) && tp.is_empty() && !inner && self.t.chance(15) {
            self.p(&format!(" implements Comparable<{name}>, Cloneable"));
            compare = true;
        } else if matches!(k, K::Class | K::Enum | K::Record) && self.t.chance(20) {
            self.p(" implements java.io.Serializable");
        }
        if k == K::Interface && self.t.chance(25) {
            self.p(" extends Cloneable, java.io.Serializable");
        }
        self.p(" {");
        self.sep();
        self.chain = used.clone();
        if k == K::Enum {
            let n = self.t.range(0, 3);
            let mut cs = vec![];
            for i in 0..n {
                let c = ["RED", "GREEN", "lower"][i];
                if i > 0 {
                    self.p(", ");
                }
                let at = self.named(c);
                if self.t.chance(15) {
                    self.tricky += 1;
                    self.p(" { void run(int a) { } int x; }");
                }
                cs.push(c.to_string());
                self.exp(&bin, c, format!("L{bin};"), at, vec![], true, false, 0);
                fields.insert(c.into());
            }
            self.p(";");
            self.sep();
        }
        if compare {
            self.p("public int ");
            let at = self.named("compareTo");
            self.p(&format!("({name} o) {{ return 0; }}"));
            self.exp(&bin, "compareTo", format!("(L{bin};)I"), at, vec!["o".into()], false, true, 0);
            self.sep();
        }
        let static_ok = !inner || self.release == 0;
        let has_no_arg = k == K::Enum;
        let n = self.t.range(0, 5);
        for _ in 0..n {
            match self.t.weighted(&[10, 24, if matches!(k, K::Class | K::Enum | K::Record) { 9 } else { 0 }, if depth < 2 { 9 } else { 0 }, 3]) {
                0 => self.field(k, &bin, &mut fields, static_ok),
                1 => self.method(k, &bin, &mut sigs, static_ok, abst),
                2 => self.ctor(k, &bin, name, &leading, nlead, &mut sigs, &comps, has_no_arg),
                3 => {
                    let nm = self.t.pick(&TYPES).to_string();
                    let binary = format!("{bin}${nm}");
                    if used.contains(&nm) || self.tops.contains(&nm) || self.exps.iter().any(|e| e.class == binary) {
                        continue;
                    }
                    let rec = self.release == 0;
                    let iface = matches!(k, K::Interface | K::Annotation);
                    let nk = match self.t.weighted(&[6, 3, 3, if rec { 3 } else { 0 }, 1]) {
                        0 => K::Class,
                        1 => K::Interface,
                        2 => K::Enum,
                        3 => K::Record,
                        _ => K::Annotation,
                    };
                    if nk != K::Class && inner && self.release != 0 {
                        continue;
                    }
                    let inn = nk == K::Class && !iface && (self.t.chance(50) || (inner && self.release != 0));
                    self.tricky += 1;
                    let b = bin.clone();
                    self.decl(nk, &nm, Some((&b, k)), inn, depth + 1, &used);
                    self.chain = used.clone();
                    self.sep();
                }
                _ => {
                    if matches!(k, K::Class | K::Enum) && static_ok {
                        self.p("static { int q9 = 0; } ");
                    }
                    if k == K::Class {
                        self.p("{ int q8 = 0; }");
                    }
                    self.sep();
                }
            }
        }
        self.p("}");
        self.vars = saved;
    }
    fn field(&mut self, k: K, bin: &str, fields: &mut BTreeSet<String>, static_ok: bool) {
        let iface = matches!(k, K::Interface | K::Annotation);
        let stat = iface || k == K::Record || (static_ok && self.t.chance(35));
        let saved = self.vars.clone();
        if stat {
            self.vars.clear();
        }
        let (s, d) = self.ty();
        self.vars = saved;
        let mut names = vec![];
        for _ in 0..self.t.weighted(&[0, 8, 2]) {
            let n = self.t.pick(&FIELDS).to_string();
            if fields.insert(n.clone()) {
                names.push(n);
            }
        }
        if names.is_empty() {
            return;
        }
        let a = self.anns();
        self.p(&a);
        if !iface {
            let v = *self.t.pick(&["", "public ", "protected ", "private "]);
            let v = if k == K::Record && v == "x" { "" } else { v };
            self.p(v);
            if stat {
                self.p("static ");
            }
        }
        let fin = iface || self.t.chance(30);
        if fin && !iface {
            self.p("final ");
        } else if !iface {
            let v = *self.t.pick(&["", "", "transient ", "volatile "]);
            self.p(v);
        }
        self.p(&s);
        self.p(" ");
        for (i, n) in names.iter().enumerate() {
            if i > 0 {
                self.p(", ");
            }
            let at = self.named(n);
            let dims = !fin && self.t.chance(8);
            if dims {
                self.p("[]");
            }
            if fin {
                let v = match d.as_bytes()[0] {
                    b'Z' => "true",
                    b'L' | b'[' => "null",
                    b'J' => "9876543210L",
                    b'D' => "2.5",
                    _ => "7",
                };
                self.p(&format!(" = {v}"));
            }
            self.exp(bin, n, if dims { format!("[{d}") } else { d.clone() }, at, vec![], stat, false, 0);
        }
        self.p(";");
        self.sep();
    }
    fn method(&mut self, k: K, bin: &str, sigs: &mut BTreeSet<String>, static_ok: bool, abst: bool) {
        let name = self.t.pick(&METHODS).to_string();
        let saved = self.vars.clone();
        let a = self.anns();
        if k == K::Annotation {
            if name == "equals" || !sigs.insert(format!("{name}(")) {
                return;
            }
            let (s, d) = *self.t.pick(&[("int", "I"), ("String", "Ljava/lang/String;"), ("Class<?>", "Ljava/lang/Class;"), ("long[]", "[J")]);
            let a = if a.starts_with("@Mark") { String::new() } else { a };
            self.p(&format!("{a}{s} "));
            let at = self.named(&name);
            self.p("();");
            self.exp(bin, &name, format!("(){d}"), at, vec![], false, false, 0);
            self.sep();
            return;
        }
        let stat = static_ok && name != "equals" && self.t.chance(25);
        if stat {
            self.vars.clear();
        }
        let tp = self.tparams(20);
        let (ps, pd, names, va) = self.params(3, false);
        let (mut rs, mut rd) = if self.t.chance(45) { ("void".into(), "V".into()) } else { self.ty() };
        if name == "equals" {
            if pd == "Ljava/lang/Object;" || pd.is_empty() {
                self.vars = saved;
                return;
            }
            (rs, rd) = ("boolean".into(), "Z".into());
        }
        self.vars = saved;
        if k == K::Enum && name == "valueOf" && pd == "Ljava/lang/String;" {
            return;
        }
        if !sigs.insert(format!("{name}({pd}")) {
            return;
        }
        let throws = *self.t.pick(&["", "", "", " throws Exception", " throws java.io.IOException, InterruptedException"]);
        self.p(&a);
        let mut code = true;
        if k == K::Interface {
            if stat {
                self.p("static ");
            } else {
                match self.t.below(if self.release == 8 { 2 } else { 3 }) {
                    0 => code = false,
                    1 => self.p("default "),
                    _ => self.p("private "),
                }
            }
        } else {
            let v = *self.t.pick(&["public ", "", "protected ", "private "]);
            if stat {
                if self.t.chance(15) {
                    self.p("static ");
                    self.p(v);
                } else {
                    self.p(v);
                    self.p("static ");
                }
            } else {
                self.p(v);
                if abst && v != "private " && self.t.chance(30) {
                    self.p("abstract ");
                    code = false;
                }
            }
            if code && self.t.chance(10) {
                let m = *self.t.pick(&["final ", "synchronized ", "native "]);
                if m == "native " && k == K::Record {
                } else {
                    self.p(m);
                    code = m != "native ";
                }
            }
        }
        if !tp.is_empty() {
            self.p(&tp);
            self.p(" ");
        }
        self.p(&rs);
        self.p(" ");
        let at = self.named(&name);
        // a receiver parameter is not a parameter
        let recv = !stat && matches!(k, K::Enum) && self.t.chance(20);
        let simple = bin.rsplit(['/', '$']).next().unwrap().to_string();
        self.p("(");
        if recv {
            self.tricky += 1;
            self.p(&format!("{simple} this"));
            if !ps.is_empty() {
                self.p(", ");
            }
        }
        self.p(&ps);
        self.p(")");
        self.p(throws);
        if code {
            self.p(" ");
            let b = self.body();
            self.p(&b);
        } else {
            self.p(";");
        }
        if va || !tp.is_empty() {
            self.tricky += 1;
        }
        self.exp(bin, &name, format!("({pd}){rd}"), at, names, stat, code, 0);
        self.sep();
    }
    #[allow(clippy::too_many_arguments)]
    fn ctor(&mut self, k: K, bin: &str, name: &str, leading: &str, nlead: usize, sigs: &mut BTreeSet<String>, comps: &(String, String, Vec<String>, bool), no_arg: bool) {
        if no_arg {
            // enum constants are written without arguments
            if sigs.insert("<init>(".to_string()) {
                let at = self.named(name);
                self.p("() { }");
                self.exp(bin, "<init>", format!("({leading})V"), at, vec![], false, true, nlead);
                self.sep();
            }
        }
        if k == K::Record && self.t.chance(40) {
            if !sigs.insert("compact".into()) {
                return;
            }
            self.p("public ");
            let at = self.named(name);
            self.p(" { }");
            self.exp(bin, "<init>", format!("({})V", comps.1), at, comps.2.clone(), false, true, 0);
            self.sep();
            return;
        }
        let (ps, pd, names, _) = self.params(3, false);
        if !sigs.insert(format!("<init>({pd}")) {
            return;
        }
        let a = self.anns();
        self.p(&a);
        if k != K::Enum {
            let v = *self.t.pick(&["", "public ", "protected ", "private "]);
            self.p(v);
        }
        let at = self.named(name);
        self.p(&format!("({ps})"));
        if k == K::Record {
            let args = comps_defaults(&comps.1);
            self.p(&format!(" {{ this({args}); }}"));
        } else {
            self.p(" {");
            self.sep();
            self.p("int q7 = 0; }");
        }
        self.exp(bin, "<init>", format!("({leading}{pd})V"), at, names, false, true, nlead);
        self.sep();
    }
}
fn comps_defaults(desc: &str) -> String {
    let d = parse_method_descriptor(&format!("({desc})V")).expect("HARNESS descriptor");
    d.parameters
        .iter()
        .map(|p| match p {
            JvmType::Boolean => "false".to_string(),
            JvmType::Object(n) => format!("({}) null", n.replace(['/', '$'], ".")),
            JvmType::Array(_) => format!("({}) null", java_name(p)),
            _ => format!("({}) 0", java_name(p)),
        })
        .collect::<Vec<_>>()
        .join(", ")
}
fn java_name(t: &JvmType) -> String {
    match t {
        JvmType::Byte => "byte".into(),
        JvmType::Char => "char".into(),
        JvmType::Double => "double".into(),
        JvmType::Float => "float".into(),
        JvmType::Int => "int".into(),
        JvmType::Long => "long".into(),
        JvmType::Short => "short".into(),
        JvmType::Boolean => "boolean".into(),
        JvmType::Void => "void".into(),
        JvmType::Object(n) => n.replace(['/', '$'], "."),
        JvmType::Array(e) => java_name(e) + "[]",
    }
}

struct Program {
    file: String,
    source: String,
    options: Vec<&'static str>,
    exps: Vec<Exp>,
    tricky: usize,
}
fn program(t: &mut Tape) -> Program {
    let one_line = t.chance(15);
    let release = [0, 0, 0, 0, 0, 0, 0, 8, 11][t.below(9)];
    let pkg = t.pick(&["p", "com.acme", "a.b_c.d", "été.x"]).to_string();
    let mut tops: Vec<String> = vec![];
    for _ in 0..t.range(1, 3) {
        let n = t.pick(&TYPES).to_string();
        if !tops.contains(&n) {
            tops.push(n);
        }
    }
    let mut g = G { t, s: String::new(), exps: vec![], pkg: pkg.clone(), tops: tops.clone(), chain: vec![], vars: vec![], release, one_line, tricky: 0 };
    if g.t.chance(20) {
        g.p("/* class Node { } package q; */\n");
    }
    g.p(&format!("package {pkg};"));
    g.sep();
    g.p("import java.util.*; import java.lang.annotation.*;");
    g.sep();
    for n in &tops {
        let rec = release == 0;
        let k = match g.t.weighted(&[6, 3, 3, if rec { 3 } else { 0 }, 1]) {
            0 => K::Class,
            1 => K::Interface,
            2 => K::Enum,
            3 => K::Record,
            _ => K::Annotation,
        };
        g.decl(k, n, None, false, 0, &[]);
        g.sep();
    }
    g.p("@Retention(RetentionPolicy.RUNTIME) @interface Mark { int value() default 1; String[] names() default {}; Deep deep() default @Deep({}); Class<?> type() default Object.class; }\n");
    g.p("@Retention(RetentionPolicy.RUNTIME) @interface Mark2 { Thread.State value() default Thread.State.NEW; }\n@interface Deep { Mark2[] value(); }\n@interface Hid { }\n");
    let mut options: Vec<&'static str> = vec!["-proc:none", "-nowarn"];
    if release == 8 {
        options.extend(["--release", "8"]);
    } else if release == 11 {
        options.extend(["--release", "11"]);
    }
    options.push(*g.t.pick(&["-g", "-g:source", "-g:none", "-g:lines", "-g:vars"]));
    if g.t.chance(40) {
        options.push("-parameters");
    }
    let (source, exps, tricky) = (g.s, g.exps, g.tricky);
    Program { file: "Unit.java".into(), source, options, exps, tricky }
}

// ---------------------------------------------------------------- judgement
type Bad = (String, String);
fn s(v: &Value) -> String {
    v.as_str().unwrap_or_default().to_string()
}
fn os(v: &Value) -> Option<String> {
    v.as_str().map(|x| x.to_string())
}
fn ss(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default()
}
fn diff<T: PartialEq + std::fmt::Debug>(what: &str, whose: &str, got: T, want: T) -> Result<(), Bad> {
    if got == want {
        return Ok(());
    }
    Err((format!("class:{what}"), format!("{what} of {whose}: reported {got:?}, the JVM says {want:?}")))
}
fn visible(a: &[AnnotationInfo]) -> Vec<String> {
    // annotations the JVM does not keep at run time are not reflected
    a.iter().map(|x| x.descriptor.clone()).filter(|d| !d.ends_with("/Hid;") && !d.ends_with("/Deep;")).collect()
}
fn judge_class(c: &ClassFile, v: &Value, prog: &Program) -> Result<(), Bad> {
    let name = s(&v["name"]);
    diff("name", &name, c.name.clone(), name.clone())?;
    if v["named"] == true {
        diff("kind", &name, format!("{:?}", c.kind()), s(&v["kind"]))?;
    }
    diff("superclass", &name, c.super_name.clone(), os(&v["super"]))?;
    diff("interfaces", &name, c.interfaces.clone(), ss(&v["ifaces"]))?;
    diff("signature", &name, c.signature.clone(), os(&v["sig"]))?;
    diff("annotations", &name, visible(&c.annotations), ss(&v["ann"]))?;
    let source = prog.options.iter().any(|o| matches!(*o, "-g" | "-g:source"));
    diff("source file", &name, c.source_file.clone(), source.then(|| prog.file.clone()))?;
    if v["member"] == true {
        let me = c.inner_classes.iter().find(|i| i.inner_class == name);
        diff("nesting", &name, me.map(|i| (i.outer_class.clone(), i.inner_name.clone(), i.access_flags as u64)), Some((os(&v["outer"]), os(&v["simple"]), v["mods"].as_u64().unwrap())))?;
    } else if v["named"] == true {
        diff("flags", &name, (c.access_flags & !0x20) as u64, v["mods"].as_u64().unwrap() & !0x20)?;
    }
    let declared: BTreeSet<String> = c.inner_classes.iter().filter(|i| i.outer_class.as_deref() == Some(&name)).map(|i| i.inner_class.clone()).collect();
    diff("member classes", &name, declared.into_iter().collect::<Vec<_>>(), ss(&v["declared"]))?;
    let mut got: Vec<_> = c.fields.iter().map(|f| (f.name.clone(), f.descriptor.clone(), f.access_flags as u64, f.signature.clone(), visible(&f.annotations))).collect();
    let mut want: Vec<_> = v["fields"].as_array().unwrap().iter().map(|f| (s(&f["name"]), s(&f["desc"]), f["mods"].as_u64().unwrap(), os(&f["sig"]), ss(&f["ann"]))).collect();
    got.sort();
    want.sort();
    diff("fields", &name, got, want)?;
    let mut got: Vec<_> = c.methods.iter().filter(|m| m.name != "<clinit>").map(|m| (m.name.clone(), m.descriptor.clone(), m.access_flags as u64, m.signature.clone(), m.exceptions.clone(), visible(&m.annotations))).collect();
    let mut want: Vec<_> = v["methods"].as_array().unwrap().iter().map(|f| (s(&f["name"]), s(&f["desc"]), f["mods"].as_u64().unwrap(), os(&f["sig"]), ss(&f["exc"]), ss(&f["ann"]))).collect();
    got.sort();
    want.sort();
    diff("methods", &name, got, want)?;
    // parameter names: as kept in the class, else as the debug table has them, else placeholders
    let vars = prog.options.iter().any(|o| matches!(*o, "-g" | "-g:vars"));
    for m in c.methods.iter().filter(|m| m.name != "<clinit>") {
        let r = v["methods"].as_array().unwrap().iter().find(|f| s(&f["name"]) == m.name && s(&f["desc"]) == m.descriptor).unwrap();
        let n = parse_method_descriptor(&m.descriptor).map_err(|e| ("class:descriptor".to_string(), format!("{} refused: {e}", m.descriptor)))?.parameters.len();
        let got: Vec<String> = m.parameters.iter().map(|p| p.name.clone()).collect();
        let who = format!("{name}.{}{}", m.name, m.descriptor);
        diff("parameter count", &who, got.len(), n)?;
        if let Some(ps) = r["params"].as_array() {
            diff("parameter names", &who, got, ps.iter().map(|p| s(&p["name"])).collect())?;
            let flags: Vec<u64> = m.parameters.iter().map(|p| p.access_flags as u64).collect();
            diff("parameter flags", &who, flags, ps.iter().map(|p| p["mods"].as_u64().unwrap()).collect())?;
        } else if let Some(e) = prog.exps.iter().find(|e| e.class == name && e.member.as_ref().is_some_and(|x| x.0 == m.name && x.1 == m.descriptor)) {
            if prog.options.contains(&"-parameters") {
                continue;
            }
            if vars && e.has_code && e.leading == 0 {
                diff("parameter names", &who, got, e.params.clone())?;
            } else if !vars || !e.has_code {
                diff("parameter names", &who, got, (0..n).map(|i| format!("arg{i}")).collect())?;
            }
        }
    }
    let got: Vec<_> = c.record_components.iter().map(|r| (r.name.clone(), r.descriptor.clone(), r.signature.clone(), visible(&r.annotations))).collect();
    let want: Vec<_> = v["comps"].as_array().map(|a| a.iter().map(|r| (s(&r["name"]), s(&r["desc"]), os(&r["sig"]), ss(&r["ann"]))).collect()).unwrap_or_default();
    diff("record components", &name, got, want)
}

fn judge_source(c: &ClassFile, prog: &Program, member: bool) -> Result<bool, Bad> {
    let r = locate_java_source_declarations(c, &prog.source, JavaSourceLimits::default());
    let loc = match r {
        Err(JavaSourceError::ParseFailed) => return Ok(false),
        Err(e) => return Err(("source:error".into(), format!("{}: {e:?}", c.name))),
        Ok(l) => l,
    };
    let Some(e) = prog.exps.iter().find(|e| e.class == c.name && e.member.is_none()) else {
        if let Some(l) = loc {
            if let Some(o) = prog.exps.iter().find(|e| e.member.is_none() && e.at == (l.name_range.start as usize, l.name_range.end as usize)) {
                return Err(("source:other-class".into(), format!("{} was located at the declaration of {}", c.name, o.class)));
            }
        }
        return Ok(true);
    };
    if !member {
        return Ok(true);
    }
    let Some(l) = loc else {
        return Err(("source:class-missing".into(), format!("{} is declared at byte {} and was not found", c.name, e.at.0)));
    };
    let at = |r: SourceByteRange| (r.start as usize, r.end as usize);
    diff_at("class", &c.name, at(l.name_range), e.at, prog)?;
    if !(l.declaration_range.start as usize <= e.at.0 && e.at.1 <= l.declaration_range.end as usize) {
        return Err(("source:range".into(), format!("the declaration of {} does not hold its name", c.name)));
    }
    for (what, members, found) in [("method", &c.methods, &l.methods), ("field", &c.fields, &l.fields)] {
        for m in members {
            if m.is_synthetic() {
                continue;
            }
            let who = format!("{}.{} {}", c.name, m.name, m.descriptor);
            let got: Vec<_> = found.iter().filter(|x| x.name == m.name && x.descriptor == m.descriptor).collect();
            if got.len() > 1 {
                return Err((format!("source:{what}-twice"), format!("{who} was located {} times", got.len())));
            }
            let mine = |e: &&Exp| e.class == c.name && e.member.as_ref().is_some_and(|x| x.0 == m.name && x.1 == m.descriptor);
            match (got.first(), prog.exps.iter().find(mine)) {
                (Some(g), Some(e)) => {
                    diff_at(what, &who, at(g.name_range), e.at, prog)?;
                    if !(g.declaration_range.start as usize <= e.at.0 && e.at.1 <= g.declaration_range.end as usize) {
                        return Err(("source:range".into(), format!("the declaration of {who} does not hold its name")));
                    }
                }
                (Some(g), None) => {
                    if let Some(o) = prog.exps.iter().find(|o| o.at == at(g.name_range)) {
                        return Err((format!("source:implicit-{what}"), format!("{who} is written nowhere and was located at {:?} of {} (byte {})", o.member, o.class, o.at.0)));
                    }
                }
                (None, Some(e)) => {
                    return Err((format!("source:{what}-missing"), format!("{who} is declared at byte {} and was not found", e.at.0)));
                }
                (None, None) => {}
            }
        }
    }
    Ok(true)
}
fn diff_at(what: &str, who: &str, got: (usize, usize), want: (usize, usize), prog: &Program) -> Result<(), Bad> {
    if got == want {
        return Ok(());
    }
    let o = prog.exps.iter().find(|o| o.at == got).map(|o| format!("{} {:?}", o.class, o.member));
    Err((format!("source:wrong-{what}"), format!("{who} is declared at {want:?} and was located at {got:?} ({})", o.unwrap_or_else(|| "no declaration".into()))))
}

/// Ruby names a Java member can be called by.
fn plain(n: &str) -> bool {
    let mut c = n.chars();
    c.next().is_some_and(|f| f.is_lowercase() || f == '_') && c.all(|x| x.is_alphanumeric() || x == '_') && !["end", "def", "then", "nil", "self", "_1"].contains(&n)
}
struct Defs(Vec<(String, bool, usize, bool)>);
impl<'pr> ruby_prism::Visit<'pr> for Defs {
    fn visit_def_node(&mut self, n: &ruby_prism::DefNode<'pr>) {
        let (req, rest) = n.parameters().map(|p| (p.requireds().iter().count() + p.posts().iter().count(), p.rest().is_some())).unwrap_or((0, false));
        self.0.push((String::from_utf8_lossy(n.name().as_slice()).into_owned(), n.receiver().is_some(), req, rest));
    }
}
fn judge_ruby(c: &ClassFile) -> Result<(), Bad> {
    let Ok(text) = generate_ruby_signature(c) else { return Ok(()) };
    let r = ruby_prism::parse(text.as_bytes());
    if let Some(e) = r.errors().next() {
        let at = e.location().start_offset();
        let line = text[..at.min(text.len())].matches('\n').count();
        return Err(("ruby:syntax".into(), format!("the Ruby made for {} does not parse: {} at `{}`", c.name, e.message(), text.lines().nth(line).unwrap_or(""))));
    }
    let mut d = Defs(vec![]);
    ruby_prism::Visit::visit(&mut d, &r.node());
    let mut got = d.0;
    // field accessors are not judged here
    let fields: BTreeSet<String> = c.fields.iter().flat_map(|f| [f.name.clone(), format!("{}=", f.name)]).collect();
    got.retain(|g| !fields.contains(&g.0) && (plain(&g.0)));
    let mut want: Vec<_> = c
        .methods
        .iter()
        .filter(|m| m.name == "<init>" || plain(&m.name))
        .filter(|m| !fields.contains(&m.name))
        .filter_map(|m| {
            let n = parse_method_descriptor(&m.descriptor).ok()?.parameters.len();
            let va = m.is_varargs() && n > 0;
            let nm = if m.name == "<init>" { "new".to_string() } else { m.name.clone() };
            Some((nm, m.name == "<init>" || m.is_static(), n - va as usize, va))
        })
        .collect();
    got.sort();
    want.sort();
    diff("methods", &c.name, got, want).map_err(|b| ("ruby:methods".to_string(), b.1.replace("the JVM says", "the class has")))
}

fn classes(t: &mut Tape) -> Case {
    let prog = program(t);
    let text = format!("// javac {}\n{}", prog.options.join(" "), prog.source);
    note_input(&text);
    let v = javaproc::compile(&prog.file, &prog.source, &prog.options);
    if v["ok"] != true {
        if std::env::var_os("VH_JAVA").is_some() {
            eprintln!("{}\n----\n{text}", v["err"]);
        }
        return Case::ok(text, false).label("not-compiled");
    }
    let mut parsed = true;
    for cv in v["classes"].as_array().unwrap() {
        let bytes = javaproc::unb64(cv["bytes"].as_str().unwrap());
        let c = match parse_class(&bytes, ClassLimits::default()) {
            Ok(c) => c,
            Err(e) => return Case::bad(text.clone(), "class:refused", format!("{} as compiled by javac was refused: {e:?}\n{text}", cv["name"])),
        };
        let r = judge_class(&c, cv, &prog).and_then(|_| judge_source(&c, &prog, cv["named"] == true)).and_then(|p| {
            parsed &= p;
            judge_ruby(&c)
        });
        if let Err((sig, m)) = r {
            return Case::bad(text.clone(), sig, format!("{m}\n{text}"));
        }
    }
    let c = Case::ok(text, prog.tricky >= 1 && prog.exps.len() >= 4);
    if parsed {
        c
    } else {
        c.label("source-refused")
    }
}

// ---------------------------------------------------------------- damage
static SEEDS: std::sync::OnceLock<Vec<(Vec<u8>, String)>> = std::sync::OnceLock::new();
fn seeds() -> &'static [(Vec<u8>, String)] {
    SEEDS.get_or_init(|| {
        let mut out = vec![];
        for i in 0..40 {
            let mut t = Tape::random(&["jvm-seed", &i.to_string()]);
            let p = program(&mut t);
            let v = javaproc::compile(&p.file, &p.source, &p.options);
            for c in v["classes"].as_array().into_iter().flatten() {
                out.push((javaproc::unb64(c["bytes"].as_str().unwrap()), p.source.clone()));
            }
        }
        let v = javaproc::compile("module-info.java", "module com.acme.x { requires transitive java.logging; uses java.util.function.Supplier; }", &[]);
        for c in v["classes"].as_array().into_iter().flatten() {
            out.push((javaproc::unb64(c["bytes"].as_str().unwrap()), String::new()));
        }
        if out.len() < 40 {
            harness_error("too few class files compiled");
        }
        out
    })
}
/// Offsets of the constant pool's strings: (tag offset, length).
fn pool_strings(b: &[u8]) -> Vec<(usize, usize)> {
    let u2 = |i: usize| b.get(i..i + 2).map(|x| u16::from_be_bytes([x[0], x[1]]) as usize).unwrap_or(0);
    let (n, mut i, mut k, mut out) = (u2(8), 10, 1, vec![]);
    while k < n && i < b.len() {
        i += match b[i] {
            1 => {
                out.push((i, u2(i + 1)));
                3 + u2(i + 1)
            }
            3 | 4 | 9..=12 | 17 | 18 => 5,
            5 | 6 => {
                k += 1;
                9
            }
            15 => 4,
            _ => 3,
        };
        k += 1;
    }
    out
}
fn damage(t: &mut Tape) -> Case {
    let all = seeds();
    let (orig, source) = &all[t.below(all.len())];
    let mut b = orig.clone();
    let mut what = vec![];
    for _ in 0..t.range(1, 4) {
        if b.len() < 12 {
            break;
        }
        match t.weighted(&[6, 3, 3, 2, 5, 2]) {
            0 => {
                let i = t.below(b.len());
                b[i] = *t.pick(&[0, 1, 255, 127, 128, 0x5b, 0xc0, 0xed]);
                what.push(format!("byte {i} = {}", b[i]));
            }
            1 => {
                let i = t.below(b.len() - 1);
                let v = *t.pick(&[0u16, 1, 0xffff, 0x7fff, 2, 300]);
                b[i..i + 2].copy_from_slice(&v.to_be_bytes());
                what.push(format!("u2 {i} = {v}"));
            }
            2 => {
                let n = t.below(b.len());
                b.truncate(n);
                what.push(format!("cut at {n}"));
            }
            3 => {
                let i = t.below(b.len());
                let n = t.range(1, 40).min(b.len() - i);
                let part = b[i..i + n].to_vec();
                let j = t.below(b.len());
                b.splice(j..j, part);
                what.push(format!("{n} bytes of {i} repeated at {j}"));
            }
            4 => {
                // another string in the constant pool, correctly framed
                let ps = pool_strings(&b);
                if ps.is_empty() {
                    continue;
                }
                let (i, n) = ps[t.below(ps.len())];
                if i + 3 + n > b.len() {
                    continue;
                }
                let new: Vec<u8> = match t.below(9) {
                    0 => vec![b'['; *t.pick(&[255, 256, 20_000, 65_535])],
                    1 => [vec![b'['; *t.pick(&[255, 40_000, 65_000])], b"I".to_vec()].concat(),
                    2 => [b"(".to_vec(), vec![b'['; 60_000], b"I)V".to_vec()].concat(),
                    3 => vec![b'a'; 65_535],
                    4 => b"Code".to_vec(),
                    5 => b"L;".to_vec(),
                    6 => "a\nend; def x".as_bytes().to_vec(),
                    7 => b"RuntimeVisibleAnnotations".to_vec(),
                    _ => [b"(".to_vec(), vec![b'J'; 65_000], b")V".to_vec()].concat(),
                };
                b[i + 1..i + 3].copy_from_slice(&(new.len() as u16).to_be_bytes());
                what.push(format!("string at {i} becomes {}… ({} bytes)", String::from_utf8_lossy(&new[..new.len().min(12)]), new.len()));
                b.splice(i + 3..i + 3 + n, new);
            }
            _ => {
                b.push(0);
                what.push("one byte more".into());
            }
        }
    }
    let text = format!("{} of a {}-byte class", what.join(", "), orig.len());
    note_input(&text);
    let parsed = match parse_class(&b, ClassLimits::default()) {
        Ok(c) => {
            let _ = locate_java_source_declarations(&c, source, JavaSourceLimits::default());
            let _ = c.kind();
            if let Err((s, m)) = judge_ruby(&c) {
                return Case::bad(text.clone(), format!("damaged-{s}"), format!("{m} ({text})"));
            }
            true
        }
        Err(_) => false,
    };
    if b.get(..4) != Some(&[0xca, 0xfe, 0xba, 0xbe]) && parsed {
        return Case::bad(text.clone(), "damaged:magic", format!("a file without the class file magic was accepted ({text})"));
    }
    Case::ok(text, b != *orig).label(if parsed { "accepted" } else { "refused" })
}

// ---------------------------------------------------------------- archives
fn zip(entries: &[(String, Vec<u8>)], deflate: bool) -> Vec<u8> {
    use std::io::Write;
    let mut w = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    let o = zip::write::SimpleFileOptions::default().compression_method(if deflate { zip::CompressionMethod::Deflated } else { zip::CompressionMethod::Stored });
    for (n, b) in entries {
        w.start_file(n.as_str(), o).expect("HARNESS zip");
        w.write_all(b).expect("HARNESS zip");
    }
    w.finish().expect("HARNESS zip").into_inner()
}
fn archives(t: &mut Tape) -> Case {
    let all = seeds();
    let jmod = t.chance(20);
    // name -> release -> mark (the minor version tells variants apart)
    let mut want: BTreeMap<String, BTreeMap<u16, u16>> = BTreeMap::new();
    let mut entries: Vec<(String, Vec<u8>)> = vec![];
    let mut mark = 0u16;
    for _ in 0..t.range(1, 5) {
        let bytes = &all[t.below(all.len())].0;
        let Ok(c) = parse_class(bytes, ClassLimits::default()) else { continue };
        if want.contains_key(&c.name) {
            continue;
        }
        let mut releases: BTreeSet<u16> = BTreeSet::new();
        if t.chance(80) {
            releases.insert(0);
        }
        for _ in 0..t.range(0, 3) {
            releases.insert(*t.pick(&[9, 10, 11, 17, 21, 100, 22]));
        }
        for r in releases {
            mark += 1;
            let mut b = bytes.clone();
            b[4..6].copy_from_slice(&mark.to_be_bytes());
            let path = match (jmod, r) {
                (true, 0) => format!("classes/{}.class", c.name),
                (true, _) => format!("lib/{}/{}.class", r, c.name),
                (false, 0) => format!("{}.class", c.name),
                (false, _) => format!("META-INF/versions/{r}/{}.class", c.name),
            };
            if entries.iter().any(|e| e.0 == path) {
                continue;
            }
            entries.push((path, b));
            if !jmod || r == 0 {
                want.entry(c.name.clone()).or_default().insert(r, mark);
            }
        }
    }
    for n in ["readme.txt", "META-INF/LICENSE", "META-INF/versions/9/notes.txt", "META-INF/Extra.class", "x/"] {
        if t.chance(20) && !(jmod && n.starts_with("META")) {
            entries.push((n.into(), b"not a class".to_vec()));
        }
    }
    let (mut multi, mut manifest) = (false, "none");
    if !jmod {
        let (m, txt) = *t.pick(&[
            (false, ""),
            (true, "Manifest-Version: 1.0\r\nMulti-Release: true\r\n\r\n"),
            (true, "Manifest-Version: 1.0\nMulti-Release: true\nCreated-By: x\n"),
            (true, "Manifest-Version: 1.0\r\nmulti-release: TRUE\r\n\r\n"),
            (false, "Manifest-Version: 1.0\r\nMulti-Release: false\r\n\r\n"),
            (false, "Manifest-Version: 1.0\r\nX-Multi-Release: true\r\n\r\n"),
        ]);
        if !txt.is_empty() {
            multi = m;
            manifest = txt;
            let name = if t.chance(20) { "meta-inf/manifest.mf" } else { "META-INF/MANIFEST.MF" };
            let i = t.below(entries.len() + 1);
            entries.insert(i, (name.into(), txt.as_bytes().to_vec()));
        }
    }
    t.shuffle(&mut entries);
    let jdk = *t.pick(&[8u16, 9, 10, 11, 16, 17, 21, 99]);
    let kind = if jmod { ArchiveKind::Jmod } else { ArchiveKind::Jar };
    let deflate = t.bool();
    let mut z = zip(&entries, deflate);
    if jmod {
        z = [b"JM\x01\x00".to_vec(), z].concat();
    }
    let text = format!("{kind:?} for JDK {jdk}, manifest {manifest:?}: {}", entries.iter().map(|e| e.0.as_str()).collect::<Vec<_>>().join(", "));
    note_input(&text);
    let limits = ArchiveLimits::default();
    let expect: BTreeMap<String, (Option<u16>, u16)> = want
        .iter()
        .filter_map(|(n, rs)| {
            let (r, m) = rs.iter().filter(|(r, _)| **r == 0 || (multi && **r <= jdk)).next_back()?;
            Some((n.clone(), ((*r > 0).then_some(*r), *m)))
        })
        .collect();
    match t.weighted(&[70, 15, 15]) {
        0 => match parse_archive(&z, kind, jdk, limits) {
            Err(e) => Case::bad(text.clone(), "archive:refused", format!("refused: {e:?} ({text})")),
            Ok(a) => {
                let got: BTreeMap<String, (Option<u16>, u16)> = a.classes.iter().map(|c| (c.class.name.clone(), (c.release, c.class.minor_version))).collect();
                if got.len() != a.classes.len() {
                    return Case::bad(text.clone(), "archive:twice", format!("a class is listed twice ({text})"));
                }
                if got != expect {
                    return Case::bad(text.clone(), "archive:selection", format!("selected {got:?}, expected {expect:?} (release, variant) ({text})"));
                }
                Case::ok(text, want.len() >= 2).label("whole")
            }
        },
        1 => {
            // a limit below what the archive holds is an error, never a partial answer
            let n = a_limit(t.below(4), limits, &z, &entries, expect.len());
            let Some((l, name)) = n else { return Case::ok(text, false) };
            match parse_archive(&z, kind, jdk, l) {
                Ok(_) => Case::bad(text.clone(), format!("archive:limit-{name}"), format!("{name} above the limit was accepted ({text})")),
                Err(_) => Case::ok(text, true).label("limit"),
            }
        }
        _ => {
            for _ in 0..t.range(1, 5) {
                let i = t.below(z.len());
                match t.below(3) {
                    0 => z[i] ^= 1 << t.below(8),
                    1 => z[i] = *t.pick(&[0, 255]),
                    _ => {
                        z.truncate(i.max(1));
                    }
                }
            }
            let _ = parse_archive(&z, kind, jdk, limits);
            Case::ok(text, true).label("damaged")
        }
    }
}
fn a_limit(which: usize, mut l: ArchiveLimits, z: &[u8], entries: &[(String, Vec<u8>)], classes: usize) -> Option<(ArchiveLimits, &'static str)> {
    let biggest = entries.iter().filter(|e| e.0.ends_with(".class") && (e.0.starts_with("classes/") || !e.0.contains("lib/"))).map(|e| e.1.len()).max()?;
    Some(match which {
        0 => {
            l.max_archive_bytes = z.len() - 1;
            (l, "archive-bytes")
        }
        1 => {
            l.max_entries = entries.len() - 1;
            (l, "entries")
        }
        2 => {
            l.max_entry_bytes = biggest - 1;
            (l, "entry-bytes")
        }
        _ => {
            l.max_class_count = classes.checked_sub(1)?;
            (l, "classes")
        }
    })
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "a program is non-trivial if it declares at least four things, one of them nested, generic, a record or shadowed by a local declaration; a damaged file if it differs from the original; an archive if it holds two classes, a limit or damage",
        assumptions: &["javac and reflection of JDK 17 are the reference for class files"],
        lanes: vec![Lane::new("classes", 3000, 150_000, classes), Lane::new("damage", 60_000, 3_000_000, damage), Lane::new("archives", 6000, 300_000, archives)],
        case_limit: CASE_LIMIT,
    }
}
