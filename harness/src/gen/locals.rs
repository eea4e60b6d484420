//! Programs rich in local-variable scoping. Every value is an Integer, every
//! statement is executable, and observations go to `$t`.
use crate::tape::Tape;

const NAMES: &[&str] = &["a", "b", "c", "val", "x1"];

pub struct G<'t> {
    pub t: &'t mut Tape,
    out: String,
    ind: usize,
    uniq: usize,
    budget: usize,
    pub feats: Vec<&'static str>,
    pub unicode: bool,
}
#[derive(Clone, Default)]
struct Sc {
    vars: Vec<String>,
    in_def: bool,
    in_block: bool,
    in_class: bool,
}
impl Sc {
    fn without(&self, n: &str) -> Sc {
        let mut s = self.clone();
        s.vars.retain(|v| v != n);
        s
    }
    fn add(&mut self, n: &str) {
        if !self.vars.iter().any(|v| v == n) {
            self.vars.push(n.to_string());
        }
    }
}

pub fn program(t: &mut Tape, unicode: bool) -> (String, Vec<&'static str>) {
    let budget = 4 + t.below(22);
    let mut g = G { t, out: String::new(), ind: 0, uniq: 0, budget, feats: vec![], unicode };
    g.line("$t = []");
    let mut sc = Sc::default();
    let n = g.name();
    g.line(&format!("{n} = 1"));
    sc.add(&n);
    while g.budget > 0 {
        g.stmt(&mut sc, 0);
    }
    for v in sc.vars.clone() {
        g.line(&format!("$t << {v}"));
    }
    g.line("$__out = $t.inspect");
    (g.out, g.feats)
}

impl<'t> G<'t> {
    fn line(&mut self, s: &str) {
        if self.unicode && !s.starts_with("when ") && self.t.chance(12) {
            self.out.push_str("\"é😀\"; ");
        }
        for _ in 0..self.ind {
            self.out.push_str("  ");
        }
        self.out.push_str(s);
        if self.unicode && self.t.chance(15) {
            self.out.push_str(" # naïve 😀 → comment");
        }
        self.out.push('\n');
    }
    fn name(&mut self) -> String {
        if self.unicode && self.t.chance(15) {
            return "été".into();
        }
        self.t.pick(NAMES).to_string()
    }
    fn fresh(&mut self, p: &str) -> String {
        self.uniq += 1;
        format!("{p}{}", self.uniq)
    }
    fn var(&mut self, sc: &Sc) -> Option<String> {
        if sc.vars.is_empty() {
            None
        } else {
            let i = self.t.below(sc.vars.len());
            Some(sc.vars[sc.vars.len() - 1 - i].clone())
        }
    }
    fn expr(&mut self, sc: &Sc) -> String {
        let k = self.t.weighted(&[3, 6, 3, 1, 1, 1, 1]);
        let lit = |g: &mut Self| format!("{}", g.t.below(9) + 1);
        match k {
            0 => lit(self),
            1 => self.var(sc).unwrap_or_else(|| "7".into()),
            2 => {
                let a = self.var(sc).unwrap_or_else(|| "3".into());
                let b = self.var(sc).unwrap_or_else(|| "4".into());
                let op = *self.t.pick(&["+", "-", "*"]);
                format!("({a} {op} {b})")
            }
            3 => match self.var(sc) {
                Some(v) => {
                    if self.unicode {
                        format!("\"é#{{{v}}}😀\".size")
                    } else {
                        format!("\"v#{{{v}}}\".size")
                    }
                }
                None => lit(self),
            },
            4 => match self.var(sc) {
                Some(v) => format!("[{v}, 2].sum"),
                None => lit(self),
            },
            5 => match self.var(sc) {
                Some(v) => format!("({v} > 2 ? {v} : 0)"),
                None => lit(self),
            },
            _ => match (self.var(sc), self.var(sc)) {
                (Some(v), Some(w)) => {
                    self.feats.push("hash-value");
                    format!("{{k: {v}, j: {w}}}.values.max")
                }
                _ => lit(self),
            },
        }
    }
    fn block_body(&mut self, sc: &mut Sc, depth: usize) {
        self.ind += 1;
        let n = 1 + self.t.below(3);
        for _ in 0..n {
            self.stmt(sc, depth + 1);
        }
        if let Some(v) = self.var(sc) {
            self.line(&format!("$t << {v}"));
        }
        self.ind -= 1;
    }
    fn stmt(&mut self, sc: &mut Sc, depth: usize) {
        self.budget = self.budget.saturating_sub(1);
        let heavy = if depth >= 3 { 0 } else { 1 };
        let defs = if depth >= 3 || sc.in_block && self.t.chance(50) { 0 } else { 1 };
        let k = self.t.weighted(&[
            8,
            3,
            3,
            2,
            3,
            4 * heavy,
            5 * heavy,
            4 * heavy,
            2 * heavy,
            2 * heavy,
            5 * defs,
            2 * defs * (if sc.in_def { 0 } else { 1 }),
            3 * heavy,
            3,
            2 * heavy,
            2,
            2 * heavy,
            2,
            1,
            2 * heavy,
            1,
        ]);
        match k {
            0 => {
                let n = self.name();
                let e = self.expr(sc);
                self.line(&format!("{n} = {e}"));
                sc.add(&n);
            }
            1 => {
                if let Some(v) = self.var(sc) {
                    let e = self.expr(sc);
                    let op = *self.t.pick(&["+=", "-=", "||=", "&&=", "*="]);
                    self.feats.push("op-write");
                    self.line(&format!("{v} {op} {e}"));
                }
            }
            2 => {
                let e = self.expr(sc);
                self.line(&format!("$t << {e}"));
            }
            3 => {
                let (n, m) = (self.name(), self.name());
                if n == m {
                    return;
                }
                let (e, f) = (self.expr(sc), self.expr(sc));
                self.feats.push("multi-write");
                if self.t.bool() {
                    self.line(&format!("{n}, {m} = {e}, {f}"));
                } else {
                    self.line(&format!("({n}, _q), {m} = [{e}, 1], {f}"));
                }
                sc.add(&n);
                sc.add(&m);
            }
            4 => {
                let n = self.name();
                let e = self.expr(sc);
                let c = self.expr(sc);
                self.line(&format!("{n} = {e} if {c} > 0 || true"));
                sc.add(&n);
            }
            5 => {
                self.feats.push("if");
                let c = self.expr(sc);
                self.line(&format!("if {c} >= 0 || true"));
                let before = sc.clone();
                self.block_body(sc, depth);
                if self.t.bool() {
                    self.line("else");
                    let mut other = before.clone();
                    self.block_body(&mut other, depth);
                }
                self.line("end");
            }
            6 => {
                // block with parameters and captures
                self.feats.push("block");
                let n = self.name();
                let m = self.name();
                let l = self.name();
                let form = self.t.below(7);
                let mut inner = sc.clone();
                inner.in_block = true;
                let (recv, params, ps): (String, String, Vec<String>) = match form {
                    0 => ("[1, 2].each".into(), format!("|{n}|"), vec![n.clone()]),
                    1 if n != m => ("[[1, 2]].each".into(), format!("|{n}, {m}|"), vec![n.clone(), m.clone()]),
                    2 if n != m => ("[[1, [2, 3]]].each".into(), format!("|{n}, ({m}, _r)|"), vec![n.clone(), m.clone()]),
                    3 => ("1.times".into(), String::new(), vec![]),
                    4 if n != l => {
                        self.feats.push("block-local");
                        ("1.times".into(), format!("|{n}; {l}|"), vec![n.clone()])
                    }
                    5 if n != m => {
                        let e = self.expr(&sc.without(&m));
                        self.feats.push("block-opt");
                        ("[5].each".into(), format!("|{n}, {m} = {e}|"), vec![n.clone(), m.clone()])
                    }
                    6 if n != m => ("[[1, 2, 3]].each".into(), format!("|{n}, *{m}|"), vec![n.clone()]),
                    _ => ("2.times".into(), format!("|{n}|"), vec![n.clone()]),
                };
                if sc.vars.iter().any(|v| ps.contains(v)) {
                    self.feats.push("shadow");
                }
                for p in &ps {
                    inner.add(p);
                }
                if form == 4 && n != l {
                    self.line(&format!("{recv} do {params}"));
                    self.ind += 1;
                    let e = self.expr(&{
                        let mut s = inner.clone();
                        s.vars.retain(|v| v != &l);
                        s
                    });
                    self.line(&format!("{l} = {e}"));
                    self.ind -= 1;
                    inner.add(&l);
                } else if form == 6 && n != m {
                    self.line(&format!("{recv} do {params}"));
                    self.ind += 1;
                    self.line(&format!("$t << {m}.size"));
                    self.ind -= 1;
                    inner.vars.retain(|v| v != &m);
                } else {
                    self.line(&format!("{recv} do {params}"));
                }
                self.block_body(&mut inner, depth);
                self.line("end");
            }
            7 => {
                self.feats.push("lambda");
                let f = self.fresh("fn");
                let n = self.name();
                let m = self.name();
                let mut inner = sc.clone();
                inner.in_block = true;
                let (params, call) = if n != m && self.t.bool() {
                    let e = self.expr(&sc.without(&m));
                    inner.add(&n);
                    inner.add(&m);
                    (format!("({n}, {m} = {e})"), "(4)")
                } else {
                    inner.add(&n);
                    (format!("({n})"), "(3)")
                };
                self.line(&format!("{f} = ->{params} do"));
                self.block_body(&mut inner, depth);
                self.line("end");
                self.line(&format!("{f}.{call}"));
            }
            8 => {
                self.feats.push("while");
                let n = self.fresh("i");
                self.line(&format!("{n} = 0"));
                self.line(&format!("while {n} < 2"));
                self.ind += 1;
                self.line(&format!("{n} += 1"));
                self.ind -= 1;
                self.block_body(sc, depth);
                self.line("end");
            }
            9 => {
                self.feats.push("for");
                let n = self.name();
                sc.add(&n);
                self.line(&format!("for {n} in [1, 2]"));
                self.block_body(sc, depth);
                self.line("end");
            }
            10 => {
                self.feats.push("def");
                let m = self.fresh("meth");
                let mut inner = Sc { in_def: true, in_class: sc.in_class, ..Sc::default() };
                let mut ps = vec![];
                let mut args = vec!["1".to_string()];
                let n = self.name();
                ps.push(n.clone());
                inner.add(&n);
                if self.t.bool() {
                    let o = self.name();
                    if !inner.vars.contains(&o) {
                        let e = self.expr(&inner);
                        ps.push(format!("{o} = {e}"));
                        inner.add(&o);
                        self.feats.push("opt-param");
                    }
                }
                let mut rest = None;
                if self.t.chance(25) {
                    let o = self.fresh("rest");
                    ps.push(format!("*{o}"));
                    rest = Some(format!("$t << {o}.size"));
                }
                if self.t.chance(35) {
                    let o = self.name();
                    if !inner.vars.contains(&o) {
                        ps.push(format!("{o}:"));
                        args.push(format!("{o}: 5"));
                        inner.add(&o);
                        self.feats.push("req-kw");
                    }
                }
                if self.t.chance(35) {
                    let o = self.name();
                    if !inner.vars.contains(&o) {
                        let e = self.expr(&inner);
                        ps.push(format!("{o}: {e}"));
                        inner.add(&o);
                        self.feats.push("opt-kw");
                    }
                }
                let mut extra = vec![];
                if self.t.chance(20) {
                    let o = self.fresh("opts");
                    ps.push(format!("**{o}"));
                    extra.push(format!("$t << {o}.size"));
                }
                if self.t.chance(20) {
                    let o = self.fresh("blk");
                    ps.push(format!("&{o}"));
                    extra.push(format!("$t << ({o} ? 1 : 0)"));
                }
                let self_prefix = if sc.in_class || self.t.chance(20) { "self." } else { "" };
                self.line(&format!("def {self_prefix}{m}({})", ps.join(", ")));
                self.ind += 1;
                for r in rest.into_iter().chain(extra) {
                    self.line(&r);
                }
                self.ind -= 1;
                self.block_body(&mut inner, depth);
                self.line("end");
                self.line(&format!("{self_prefix}{m}({})", args.join(", ")));
            }
            11 => {
                self.feats.push("class-body");
                let c = self.fresh("K");
                let kw = *self.t.pick(&["class", "module"]);
                self.line(&format!("{kw} {c}"));
                let mut inner = Sc { in_class: true, ..Sc::default() };
                self.ind += 1;
                let n = self.name();
                self.line(&format!("{n} = 2"));
                inner.add(&n);
                self.ind -= 1;
                let save = self.budget;
                self.budget = self.budget.min(4);
                self.class_body(&mut inner, depth);
                self.budget = save;
                self.line("end");
            }
            12 => {
                self.feats.push("rescue");
                let n = self.fresh("err");
                self.line("begin");
                self.block_body(sc, depth);
                self.ind += 1;
                self.line("raise \"boom\"");
                self.ind -= 1;
                self.line(&format!("rescue => {n}"));
                self.ind += 1;
                self.line(&format!("$t << {n}.message.size"));
                self.ind -= 1;
                if self.t.bool() {
                    self.line("ensure");
                    self.block_body(sc, depth);
                }
                self.line("end");
            }
            13 => {
                self.feats.push("pattern");
                let n = self.name();
                let e = self.expr(sc);
                match self.t.below(5) {
                    0 => self.line(&format!("case {e}\nin Integer => {n} then $t << {n}\nend")),
                    1 => self.line(&format!("case [{e}, 2]\nin [{n}, _] then $t << {n}\nend")),
                    2 => self.line(&format!("case {{k: {e}}}\nin {{k: Integer => {n}}} then $t << {n}\nend")),
                    3 => {
                        self.feats.push("pattern-shorthand");
                        self.line(&format!("case {{{n}: {e}}}\nin {{{n}:}} then $t << {n}\nend"))
                    }
                    _ => self.line(&format!("{e} => {n}")),
                }
                sc.add(&n);
            }
            14 => {
                self.feats.push("case-when");
                let e = self.expr(sc);
                self.line(&format!("case {e}"));
                self.line("when Integer");
                self.block_body(sc, depth);
                self.line("end");
            }
            15 => {
                if let Some(v) = self.var(sc) {
                    self.feats.push("hash-shorthand");
                    self.line(&format!("$t << {{ {v}: }}.values.first"));
                }
            }
            16 => {
                self.feats.push("brace-block");
                let n = self.name();
                let mut inner = sc.clone();
                inner.add(&n);
                let e = self.expr(&inner);
                self.line(&format!("$t << [3, 4].map {{ |{n}| {e} }}.sum"));
            }
            17 => {
                if let Some(v) = self.var(sc) {
                    self.line(&format!("$t << (defined?({v}) ? 1 : 0)"));
                }
            }
            18 => {
                let n = self.name();
                if !sc.vars.contains(&n) {
                    self.feats.push("named-capture");
                    self.line(&format!("if /(?<{n}>\\d)/ =~ \"5\"\n  {n} = {n}.to_i\nend"));
                    sc.add(&n);
                }
            }
            19 => {
                self.feats.push("nested-block-shadow");
                let n = self.name();
                let e1 = self.expr(sc);
                let mut inner = sc.clone();
                inner.in_block = true;
                inner.add(&n);
                self.line(&format!("[{e1}].each do |{n}|"));
                self.ind += 1;
                let m = self.name();
                let e = self.expr(&inner);
                let mut inner2 = inner.clone();
                inner2.add(&m);
                self.line(&format!("[{e}].each do |{m}|"));
                self.block_body(&mut inner2, depth + 1);
                self.line("end");
                self.ind -= 1;
                self.line("end");
            }
            _ => {
                let n = self.name();
                let e = self.expr(sc);
                self.line(&format!("$t << ({n} = {e})"));
                sc.add(&n);
            }
        }
    }
    fn class_body(&mut self, sc: &mut Sc, depth: usize) {
        self.ind += 1;
        let n = 1 + self.t.below(3);
        for _ in 0..n {
            self.stmt(sc, depth.max(2));
        }
        // a method whose local must not see the class body's locals
        let v = sc.vars[0].clone();
        self.line(&format!("def self.probe({v} = 9)"));
        self.line(&format!("  $t << {v}"));
        self.line("end");
        self.line("probe");
        if self.t.chance(40) {
            self.feats.push("singleton-class");
            self.line("class << self");
            let mut inner = Sc { in_class: true, ..Sc::default() };
            self.ind += 1;
            let e = self.t.below(5);
            let n = if self.t.bool() { v.clone() } else { self.name() };
            self.line(&format!("{n} = {e}"));
            inner.add(&n);
            for _ in 0..self.t.below(3) {
                self.stmt(&mut inner, depth.max(2));
            }
            self.line(&format!("$t << {n}"));
            self.ind -= 1;
            self.line("end");
        }
        self.line(&format!("$t << {v}"));
        self.ind -= 1;
    }
}
