//! Broad Ruby syntax: valid-by-construction fragments covering the declaration
//! and metaprogramming surface, plus token soup and mutations for malformed text.
use crate::tape::Tape;

const CONSTS: &[&str] = &["Foo", "Bar", "Baz", "Qux", "A", "B", "Foo::Bar", "::Foo", "Unknown", "String", "Integer", "Array", "Hash", "Struct", "Kernel", "Comparable", "Enumerable", "Été"];
const METHS: &[&str] = &["foo", "bar", "baz", "call", "each", "map", "name", "name=", "valid?", "save!", "[]", "[]=", "+", "==", "<=>", "!", "to_s", "initialize", "method_missing", "respond_to_missing?", "new", "inherited", "included", "été", "-@", "`"];
const LOCALS: &[&str] = &["a", "b", "x", "acc", "item", "été", "_", "_x", "it", "_1"];
const IVARS: &[&str] = &["@a", "@b", "@@cv", "$g", "@été"];

pub struct S<'t> {
    pub t: &'t mut Tape,
    pub fuel: usize,
    pub unicode: bool,
}

impl<'t> S<'t> {
    pub fn new(t: &'t mut Tape, fuel: usize, unicode: bool) -> Self {
        S { t, fuel, unicode }
    }
    pub fn c(&mut self) -> String {
        self.t.pick(CONSTS).to_string()
    }
    fn simple_c(&mut self) -> String {
        loop {
            let c = self.c();
            if self.unicode || c.is_ascii() {
                return c.trim_start_matches("::").to_string();
            }
            return "Foo".into();
        }
    }
    pub fn m(&mut self) -> String {
        let m = self.t.pick(METHS).to_string();
        if !self.unicode && !m.is_ascii() { "foo".into() } else { m }
    }
    /// method name callable with dot syntax
    fn mcall(&mut self) -> String {
        for _ in 0..4 {
            let m = self.m();
            if m.chars().next().is_some_and(|c| c.is_alphabetic()) && !m.ends_with('=') {
                return m;
            }
        }
        "foo".into()
    }
    pub fn l(&mut self) -> String {
        let m = self.t.pick(LOCALS).to_string();
        if !self.unicode && !m.is_ascii() { "a".into() } else { m }
    }
    fn lp(&mut self) -> String {
        let l = self.l();
        if l == "_1" || l == "it" { "q".into() } else { l }
    }
    pub fn lit(&mut self) -> String {
        match self.t.below(18) {
            0 => "1".into(),
            1 => "\"s\"".into(),
            2 => ":sym".into(),
            3 => "nil".into(),
            4 => "true".into(),
            5 => "1.5".into(),
            6 => "[1, \"a\"]".into(),
            7 => "{ a: 1, \"b\" => :c }".into(),
            8 => "%w[x y]".into(),
            9 => "/re(?<cap>x)/".into(),
            10 => "(1..5)".into(),
            11 => "self".into(),
            12 => "\"i#{1 + 1}\"".into(),
            13 if self.unicode => "\"é😀中\"".into(),
            14 => "-> { 1 }".into(),
            15 => "[]".into(),
            16 => "{}".into(),
            _ => "10r".into(),
        }
    }
    pub fn expr(&mut self, d: usize) -> String {
        if d == 0 {
            return match self.t.below(4) {
                0 => self.lit(),
                1 => self.l(),
                2 => self.t.pick(IVARS).to_string().chars().filter(|c| c.is_ascii()).collect::<String>(),
                _ => self.c(),
            };
        }
        let d1 = d - 1;
        match self.t.below(30) {
            0..=3 => self.lit(),
            4 => self.l(),
            5 => self.c(),
            6 => {
                let (r, m) = (self.expr(d1), self.mcall());
                let a = self.args(d1);
                format!("{r}.{m}({a})")
            }
            7 => {
                let (r, m) = (self.expr(d1), self.mcall());
                format!("{r}&.{m}")
            }
            8 => {
                let m = self.mcall();
                let a = self.args(d1);
                format!("{m}({a})")
            }
            9 => {
                let c = self.c();
                let a = self.args(d1);
                format!("{c}.new({a})")
            }
            10 => {
                let (r, m) = (self.expr(d1), self.mcall());
                let p = self.lp();
                let b = self.expr(d1);
                format!("{r}.{m} {{ |{p}| {b} }}")
            }
            11 => {
                let (a, b) = (self.expr(d1), self.expr(d1));
                let op = *self.t.pick(&["+", "-", "==", "&&", "||", "<=>", "<<", "..", "=~"]);
                format!("({a} {op} {b})")
            }
            12 => {
                let (a, b, c) = (self.expr(d1), self.expr(d1), self.expr(d1));
                format!("({a} ? {b} : {c})")
            }
            13 => {
                let (a, b) = (self.expr(d1), self.expr(d1));
                format!("[{a}, *{b}]")
            }
            14 => {
                let (a, b) = (self.expr(d1), self.expr(d1));
                format!("{{ k: {a}, {b} => 1 }}")
            }
            15 => {
                let a = self.expr(d1);
                format!("\"x#{{{a}}}y\"")
            }
            16 => {
                let p = self.lp();
                let a = self.expr(d1);
                format!("->({p}) {{ {a} }}")
            }
            17 => {
                let (a, b) = (self.expr(d1), self.expr(d1));
                format!("{a}[{b}]")
            }
            18 => {
                let a = self.expr(d1);
                format!("!{a}")
            }
            19 => {
                let m = self.mcall();
                let r = self.expr(d1);
                format!("{r}.map(&:{m})")
            }
            20 => "super".into(),
            21 => {
                let a = self.args(d1);
                format!("super({a})")
            }
            22 => {
                let a = self.expr(d1);
                format!("(yield {a})")
            }
            23 => {
                let (m, a) = (self.mcall(), self.expr(d1));
                format!("{a}.send(:{m}, 1)")
            }
            24 => {
                let (m, a) = (self.mcall(), self.expr(d1));
                format!("{a}.method(:{m})")
            }
            25 => {
                let c = self.simple_c();
                format!("{c}::CONST")
            }
            26 => {
                let (a, l) = (self.expr(d1), self.lp());
                format!("({l} = {a})")
            }
            27 => {
                let a = self.expr(d1);
                format!("defined?({a})")
            }
            28 => {
                let (r, p) = (self.expr(d1), self.lp());
                let (m1, m2) = (self.mcall(), self.mcall());
                format!("{r}\n  .{m1} {{ |{p}, (z, *w), k: 1, &blk| {p} }}\n  .{m2}")
            }
            _ => {
                let a = self.expr(d1);
                format!("({a} rescue nil)")
            }
        }
    }
    fn args(&mut self, d: usize) -> String {
        let n = self.t.below(3);
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.expr(d));
        }
        match self.t.below(10) {
            0 => v.push("*rest".into()),
            1 => v.push("k: 1".into()),
            2 => v.push("**opts".into()),
            3 => v.push("&blk".into()),
            _ => {}
        }
        v.join(", ")
    }
    fn params(&mut self) -> String {
        let forms = ["", "()", "(a)", "(a, b = 1)", "(a, *rest)", "(a, *rest, z)", "(k:)", "(a, k: 2, **opts)", "(a, &blk)", "(...)", "(*)", "((a, b), c)", "(a, **nil)", " a, b", "(été)"];
        let f = self.t.pick(&forms).to_string();
        if !self.unicode && !f.is_ascii() { "(a)".into() } else { f }
    }
    fn yard(&mut self, ind: &str) -> String {
        let tags = [
            "@return [String]", "@return [Foo, nil]", "@return [Array<Integer>]", "@return [Hash{Symbol => String}]", "@param a [Integer] the a", "@param [String] b", "@return", "@param", "@return [", "@return [Array<", "@yield [x]", "@deprecated", "@raise [Foo]", "@param a [Hash<Symbol, Array<(Integer, String)>>]",
            "@overload foo(a)", "@option opts [String] :k", "@return [Foo::Bar<]", "@return [self]", "@return [void]", "@param été [Été]", "@return [(Integer, String)]", "@return [#foo]", "@!attribute [r] x", "@see Foo#bar", "@api private", "plain comment é😀", "TODO: x", "frozen_string_literal: true", ":nodoc:",
        ];
        let mut s = String::new();
        for _ in 0..1 + self.t.below(3) {
            let t = self.t.pick(&tags).to_string();
            if !self.unicode && !t.is_ascii() {
                continue;
            }
            s.push_str(&format!("{ind}# {t}\n"));
        }
        s
    }
    fn block(&mut self, ind: &str, d: usize) -> String {
        let mut s = String::new();
        let n = self.t.below(4);
        let i2 = format!("{ind}  ");
        for _ in 0..n {
            s.push_str(&self.stmt(&i2, d));
        }
        s
    }
    pub fn stmt(&mut self, ind: &str, d: usize) -> String {
        if self.fuel == 0 {
            return String::new();
        }
        self.fuel -= 1;
        let d1 = d.saturating_sub(1);
        let k = if d == 0 { 30 + self.t.below(14) } else { self.t.below(46) };
        match k {
            0 | 1 => {
                let y = if self.t.chance(30) { self.yard(ind) } else { String::new() };
                let c = self.simple_c();
                let sup = match self.t.below(4) {
                    0 => {
                        let s = self.c();
                        format!(" < {s}")
                    }
                    1 => " < Struct.new(:a, :b)".to_string(),
                    _ => String::new(),
                };
                let b = self.block(ind, d1);
                format!("{y}{ind}class {c}{sup}\n{b}{ind}end\n")
            }
            2 | 3 => {
                let c = self.simple_c();
                let b = self.block(ind, d1);
                format!("{ind}module {c}\n{b}{ind}end\n")
            }
            4..=8 => {
                let y = if self.t.chance(40) { self.yard(ind) } else { String::new() };
                let m = self.m();
                let p = self.params();
                let pre = *self.t.pick(&["", "", "", "self.", "private ", "Foo.", "x.", "protected ", "private_class_method "]);
                let (kw, recv) = match pre {
                    "self." | "Foo." | "x." => ("", pre),
                    _ => (pre, ""),
                };
                let recv = if pre == "private_class_method " { "self." } else { recv };
                if self.t.chance(10) && p != " a, b" && !m.ends_with('=') {
                    let e = self.expr(1);
                    return format!("{y}{ind}{kw}def {recv}{m}{} = {e}\n", if p.is_empty() { "()" } else { &p });
                }
                let b = self.block(ind, d1);
                format!("{y}{ind}{kw}def {recv}{m}{p}\n{b}{ind}end\n")
            }
            9 => {
                let b = self.block(ind, d1);
                format!("{ind}class << self\n{b}{ind}end\n")
            }
            10 => {
                let (e, b1, b2) = (self.expr(2), self.block(ind, d1), self.block(ind, d1));
                format!("{ind}if {e}\n{b1}{ind}else\n{b2}{ind}end\n")
            }
            11 => {
                let (e, b1) = (self.expr(1), self.block(ind, d1));
                let kw = *self.t.pick(&["unless", "while", "until"]);
                format!("{ind}{kw} {e}\n{b1}{ind}end\n")
            }
            12 => {
                let (e, b1, b2) = (self.expr(1), self.block(ind, d1), self.block(ind, d1));
                let w = self.expr(0);
                format!("{ind}case {e}\n{ind}when {w}, *x\n{b1}{ind}else\n{b2}{ind}end\n")
            }
            13 => {
                let (e, b1) = (self.expr(1), self.block(ind, d1));
                let p = *self.t.pick(&["[a, *b]", "{k:, j: Integer => x}", "Foo(a:)", "Integer | String => y", "nil", "[*, 1, *]", "^a", "{name: String => n, **nil}", "in_x if in_x > 1"]);
                format!("{ind}case {e}\n{ind}in {p}\n{b1}{ind}end\n")
            }
            14 => {
                let (b1, b2) = (self.block(ind, d1), self.block(ind, d1));
                let l = self.lp();
                let c = self.c();
                format!("{ind}begin\n{b1}{ind}rescue {c} => {l}\n{b2}{ind}ensure\n{ind}  1\n{ind}end\n")
            }
            15 | 16 => {
                let (e, m, p) = (self.expr(1), self.mcall(), self.lp());
                let b1 = self.block(ind, d1);
                format!("{ind}{e}.{m} do |{p}|\n{b1}{ind}end\n")
            }
            17 => {
                let b1 = self.block(ind, d1);
                let m = self.mcall();
                format!("{ind}define_method(:{m}) do |a|\n{b1}{ind}end\n")
            }
            18 => {
                let b1 = self.block(ind, d1);
                let c = *self.t.pick(&["Foo", "Bar", "Baz"]);
                let f = *self.t.pick(&["Class.new", "Module.new", "Class.new(Foo)", "Struct.new(:a, :b)", "Data.define(:a)", "Struct.new(:a, keyword_init: true)"]);
                format!("{ind}{c} = {f} do\n{b1}{ind}end\n")
            }
            19 => {
                let b1 = self.block(ind, d1);
                let c = self.c();
                let f = *self.t.pick(&["class_eval", "instance_eval", "class_exec", "tap", "module_eval", "refine String"]);
                if f.starts_with("refine") {
                    return format!("{ind}refine String do\n{b1}{ind}end\n");
                }
                format!("{ind}{c}.{f} do\n{b1}{ind}end\n")
            }
            20 => {
                let b1 = self.block(ind, d1);
                format!("{ind}for a, b in [[1, 2]]\n{b1}{ind}end\n")
            }
            21 => {
                let b1 = self.block(ind, d1);
                let e = self.expr(1);
                format!("{ind}loop do\n{b1}{ind}  break {e}\n{ind}end\n")
            }
            30 => {
                let (l, e) = (self.lp(), self.expr(2));
                format!("{ind}{l} = {e}\n")
            }
            31 => {
                let v = *self.t.pick(&["@a", "@@cv", "$g", "@b", "CONST", "Foo::CONST"]);
                let e = self.expr(2);
                format!("{ind}{v} = {e}\n")
            }
            32 => {
                let v = *self.t.pick(&["@a", "@@cv", "$g", "x", "self.name", "h[:k]", "CONST"]);
                let op = *self.t.pick(&["+=", "||=", "&&="]);
                let e = self.expr(1);
                format!("{ind}{v} {op} {e}\n")
            }
            33 => {
                let (a, b) = (self.lp(), self.lp());
                let e = self.expr(1);
                format!("{ind}{a}, (@b, *{b}), $g = {e}\n")
            }
            34 => {
                let k = *self.t.pick(&["include", "extend", "prepend"]);
                let c = self.c();
                format!("{ind}{k} {c}\n")
            }
            35 => {
                let k = *self.t.pick(&["attr_reader", "attr_writer", "attr_accessor", "private", "public", "module_function", "private_constant", "delegate", "protected", "public_class_method", "undef_method"]);
                let m = self.mcall();
                let m2 = self.mcall();
                format!("{ind}{k} :{m}, :{m2}\n")
            }
            36 => {
                let k = *self.t.pick(&["private", "public", "protected", "module_function"]);
                format!("{ind}{k}\n")
            }
            37 => {
                let (m, m2) = (self.mcall(), self.mcall());
                let f = self.t.below(4);
                match f {
                    0 => format!("{ind}alias {m} {m2}\n"),
                    1 => format!("{ind}alias_method :{m}, :{m2}\n"),
                    2 => format!("{ind}alias $h $g\n"),
                    _ => format!("{ind}undef {m}\n"),
                }
            }
            38 => {
                let k = *self.t.pick(&["require 'set'", "require_relative 'b'", "require", "autoload :Foo, 'foo'", "using Foo", "load 'x.rb'", "require_relative '../nope'", "require \"a#{1}\""]);
                format!("{ind}{k}\n")
            }
            39 => {
                let e = self.expr(1);
                let tag = *self.t.pick(&["EOS", "É"]);
                let tag = if self.unicode { tag } else { "EOS" };
                format!("{ind}x = <<~{tag}\n{ind}  text #{{{e}}} é\n{ind}{tag}\n").replace('é', if self.unicode { "é" } else { "e" })
            }
            40 => {
                let (e, c) = (self.expr(2), self.expr(1));
                let k = *self.t.pick(&["if", "unless", "while", "rescue"]);
                format!("{ind}{e} {k} {c}\n")
            }
            41 => {
                let e = self.expr(1);
                let k = *self.t.pick(&["return", "puts", "raise", "p", "next", "freeze"]);
                format!("{ind}{k} {e}\n")
            }
            42 => {
                let m = self.mcall();
                let a = self.args(1);
                format!("{ind}{m} {a}\n")
            }
            43 => self.yard(ind),
            44 => "\n".into(),
            _ => {
                let e = self.expr(3);
                format!("{ind}{e}\n")
            }
        }
    }
    pub fn file(&mut self) -> String {
        let mut s = String::new();
        if self.t.chance(10) {
            s.push_str("# frozen_string_literal: true\n\n");
        }
        let n = 1 + self.t.below(6);
        for _ in 0..n {
            s.push_str(&self.stmt("", 4));
        }
        if self.t.chance(4) {
            s.push_str("__END__\ndata é\n");
        }
        s
    }
}

const TOKENS: &[&str] = &[
    "class", "module", "def", "end", "do", "{", "}", "(", ")", "[", "]", "|", "if", "else", "elsif", "unless", "while", "case", "when", "in", "then", "begin", "rescue", "ensure", "return", "yield", "super", "self", "nil", "Foo", "Bar::Baz", "::A", "foo", "bar?", "baz!", "x", "@i", "@@c", "$g", ":sym", ":\"q\"", "\"str\"", "'s'", "\"#{", "}\"", "%w[a b]", "%i(", "<<~X", "X", "<<-'Y'", "/re/", "=", "==", "=>", "->", "::", ".", "&.", ",", ";", "*", "**", "&", "&&", "||=", "+=", "!", "?", ":", "a:", "1", "1.", "0x", "1e", "?a", "# c", "# @return [", "# @param x [A<B", "=begin", "=end", "__END__", "\\", "\n", "\n", "\n", "\n  ", "\t", "é", "😀", "中文", "\u{301}", "\u{200d}", "\u{feff}", "\r\n", "\0", "class << self", "def self.", "def ==(o)", "include", "attr_accessor :a", "private", "alias a b", "require 'set'", "Struct.new(:a)", "_1", "it", "BEGIN {", "END {", "undef", "not", "and", "or", "redo", "retry", "next", "break", "defined?", "...", "..", "<<", "`ls`", "__FILE__", "__method__", "proc", "lambda", "raise", "private_constant :A", "define_method(:z)", "Class.new", "<%=", "%>",
];

pub fn tokens(t: &mut Tape) -> String {
    let n = t.below(60);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*t.pick::<&str>(TOKENS));
        match t.below(4) {
            0 => {}
            1 => s.push('\n'),
            _ => s.push(' '),
        }
    }
    s
}

/// Structure-aware damage: deletions, duplications, insertions, truncation.
pub fn mutate(t: &mut Tape, src: &str) -> String {
    let mut s = src.to_string();
    let n = 1 + t.below(4);
    for _ in 0..n {
        let bounds: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
        let pick = |t: &mut Tape| bounds[t.below(bounds.len())];
        match t.below(7) {
            0 => {
                let a = pick(t);
                s.truncate(a);
            }
            1 => {
                let (a, b) = (pick(t), pick(t));
                let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 12));
                let b = (b..=s.len()).find(|i| s.is_char_boundary(*i)).unwrap_or(s.len());
                s.replace_range(a..b, "");
            }
            2 => {
                let a = pick(t);
                let tok = *t.pick(TOKENS);
                s.insert_str(a, tok);
            }
            3 => {
                let lines: Vec<String> = s.split_inclusive('\n').map(|x| x.to_string()).collect();
                if !lines.is_empty() {
                    let i = t.below(lines.len());
                    let mut l = lines.clone();
                    l.remove(i);
                    s = l.concat();
                }
            }
            4 => {
                let mut l: Vec<String> = s.split_inclusive('\n').map(|x| x.to_string()).collect();
                if !l.is_empty() {
                    let i = t.below(l.len());
                    let j = t.below(l.len());
                    let x = l[i].clone();
                    l.insert(j, x);
                    s = l.concat();
                }
            }
            5 => {
                s = s.replace('\n', "\r\n");
            }
            _ => {
                let a = pick(t);
                s.insert_str(a, *t.pick(&["é", "😀", "\u{0}", "中", "\u{feff}", "(", ")", "end", "\n", "\"", "#"]));
            }
        }
    }
    s
}
