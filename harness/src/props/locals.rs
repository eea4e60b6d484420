//! C05: local variables — navigation and rename agree with Ruby's scoping.
use crate::gen;
use crate::lsp::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::text::*;
use ruby_prism::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Write,
    Param,
    Keyword,
    Read,
    /// read or bind through `{x:}`: the name is also a key
    Shorthand,
    Capture,
}
#[derive(Clone, Debug)]
pub struct Occ {
    pub name: String,
    pub scope: usize,
    pub s: usize,
    pub e: usize,
    pub kind: Kind,
}
struct V {
    occ: Vec<Occ>,
    stack: Vec<usize>,
    next: usize,
    implicit: bool,
}
impl V {
    fn push(&mut self) {
        self.stack.push(self.next);
        self.next += 1;
    }
    fn add(&mut self, name: &[u8], depth: u32, l: Location, kind: Kind) {
        let scope = self.stack[self.stack.len() - 1 - depth as usize];
        self.occ.push(Occ { name: String::from_utf8_lossy(name).into(), scope, s: l.start_offset(), e: l.end_offset(), kind });
    }
    fn with(&mut self, f: impl FnOnce(&mut Self)) {
        self.push();
        f(self);
        self.stack.pop();
    }
}
impl<'a> Visit<'a> for V {
    fn visit_def_node(&mut self, n: &DefNode<'a>) {
        if let Some(r) = n.receiver() {
            self.visit(&r);
        }
        self.with(|v| {
            if let Some(p) = n.parameters() {
                v.visit_parameters_node(&p);
            }
            if let Some(b) = n.body() {
                v.visit(&b);
            }
        });
    }
    fn visit_class_node(&mut self, n: &ClassNode<'a>) {
        self.visit(&n.constant_path());
        if let Some(s) = n.superclass() {
            self.visit(&s);
        }
        self.with(|v| {
            if let Some(b) = n.body() {
                v.visit(&b);
            }
        });
    }
    fn visit_module_node(&mut self, n: &ModuleNode<'a>) {
        self.visit(&n.constant_path());
        self.with(|v| {
            if let Some(b) = n.body() {
                v.visit(&b);
            }
        });
    }
    fn visit_singleton_class_node(&mut self, n: &SingletonClassNode<'a>) {
        self.visit(&n.expression());
        self.with(|v| {
            if let Some(b) = n.body() {
                v.visit(&b);
            }
        });
    }
    fn visit_block_node(&mut self, n: &BlockNode<'a>) {
        self.with(|v| visit_block_node(v, n));
    }
    fn visit_lambda_node(&mut self, n: &LambdaNode<'a>) {
        self.with(|v| visit_lambda_node(v, n));
    }
    fn visit_implicit_node(&mut self, n: &ImplicitNode<'a>) {
        self.implicit = true;
        visit_implicit_node(self, n);
        self.implicit = false;
    }
    fn visit_local_variable_read_node(&mut self, n: &LocalVariableReadNode<'a>) {
        let k = if self.implicit { Kind::Shorthand } else { Kind::Read };
        self.add(n.name().as_slice(), n.depth(), n.location(), k);
    }
    fn visit_local_variable_write_node(&mut self, n: &LocalVariableWriteNode<'a>) {
        self.add(n.name().as_slice(), n.depth(), n.name_loc(), Kind::Write);
        visit_local_variable_write_node(self, n);
    }
    fn visit_local_variable_target_node(&mut self, n: &LocalVariableTargetNode<'a>) {
        let k = if self.implicit { Kind::Shorthand } else { Kind::Write };
        self.add(n.name().as_slice(), n.depth(), n.location(), k);
    }
    fn visit_match_write_node(&mut self, n: &MatchWriteNode<'a>) {
        let from = self.occ.len();
        visit_match_write_node(self, n);
        for o in &mut self.occ[from..] {
            if o.kind == Kind::Write {
                o.kind = Kind::Capture;
                // Prism reports the whole regexp; the name sits in `(?<name>`
                let t = String::from_utf8_lossy(n.location().as_slice()).to_string();
                let at = t.find(&format!("(?<{}>", o.name)).expect("HARNESS capture group") + 3;
                o.s = n.location().start_offset() + at;
                o.e = o.s + o.name.len();
            }
        }
    }
    fn visit_local_variable_and_write_node(&mut self, n: &LocalVariableAndWriteNode<'a>) {
        self.add(n.name().as_slice(), n.depth(), n.name_loc(), Kind::Write);
        visit_local_variable_and_write_node(self, n);
    }
    fn visit_local_variable_or_write_node(&mut self, n: &LocalVariableOrWriteNode<'a>) {
        self.add(n.name().as_slice(), n.depth(), n.name_loc(), Kind::Write);
        visit_local_variable_or_write_node(self, n);
    }
    fn visit_local_variable_operator_write_node(&mut self, n: &LocalVariableOperatorWriteNode<'a>) {
        self.add(n.name().as_slice(), n.depth(), n.name_loc(), Kind::Write);
        visit_local_variable_operator_write_node(self, n);
    }
    fn visit_required_parameter_node(&mut self, n: &RequiredParameterNode<'a>) {
        self.add(n.name().as_slice(), 0, n.location(), Kind::Param);
    }
    fn visit_optional_parameter_node(&mut self, n: &OptionalParameterNode<'a>) {
        self.add(n.name().as_slice(), 0, n.name_loc(), Kind::Param);
        visit_optional_parameter_node(self, n);
    }
    fn visit_rest_parameter_node(&mut self, n: &RestParameterNode<'a>) {
        if let (Some(name), Some(l)) = (n.name(), n.name_loc()) {
            self.add(name.as_slice(), 0, l, Kind::Param);
        }
    }
    fn visit_keyword_rest_parameter_node(&mut self, n: &KeywordRestParameterNode<'a>) {
        if let (Some(name), Some(l)) = (n.name(), n.name_loc()) {
            self.add(name.as_slice(), 0, l, Kind::Param);
        }
    }
    fn visit_block_parameter_node(&mut self, n: &BlockParameterNode<'a>) {
        if let (Some(name), Some(l)) = (n.name(), n.name_loc()) {
            self.add(name.as_slice(), 0, l, Kind::Param);
        }
    }
    fn visit_block_local_variable_node(&mut self, n: &BlockLocalVariableNode<'a>) {
        self.add(n.name().as_slice(), 0, n.location(), Kind::Param);
    }
    fn visit_required_keyword_parameter_node(&mut self, n: &RequiredKeywordParameterNode<'a>) {
        self.add(n.name().as_slice(), 0, n.name_loc(), Kind::Keyword);
        let o = self.occ.last_mut().unwrap();
        o.e -= 1; // the colon
    }
    fn visit_optional_keyword_parameter_node(&mut self, n: &OptionalKeywordParameterNode<'a>) {
        self.add(n.name().as_slice(), 0, n.name_loc(), Kind::Keyword);
        let o = self.occ.last_mut().unwrap();
        o.e -= 1;
        visit_optional_keyword_parameter_node(self, n);
    }
}

pub fn occurrences(src: &str) -> Vec<Occ> {
    let r = parse(src.as_bytes());
    let mut v = V { occ: vec![], stack: vec![0], next: 1, implicit: false };
    v.visit(&r.node());
    let mut o = v.occ;
    for x in &mut o {
        // `{x:}` occurrences may include the colon
        let t = &src[x.s..x.e];
        if let Some(st) = t.strip_suffix(':') {
            x.e = x.s + st.len();
        }
    }
    o.sort_by_key(|o| (o.s, o.e));
    o.dedup_by_key(|o| (o.s, o.e));
    o
}

fn nav(t: &mut Tape) -> Case {
    let uni = t.chance(40);
    let (src, feats) = gen::locals::program(t, uni);
    let occ = occurrences(&src);
    let ix = Index::new(&src);
    let mut l = Lsp::bare();
    let uri = "file:///w/a.rb";
    l.open(uri, &src, 1);
    let mut groups: BTreeMap<(usize, String), Vec<&Occ>> = BTreeMap::new();
    for o in &occ {
        groups.entry((o.scope, o.name.clone())).or_default().push(o);
    }
    let mut shadowed = 0;
    let mut names = BTreeMap::<String, usize>::new();
    for (_, n) in groups.keys() {
        *names.entry(n.clone()).or_default() += 1;
    }
    for n in names.values() {
        if *n > 1 {
            shadowed += 1;
        }
    }
    let mut case = Case::ok(src.clone(), shadowed > 0 && occ.len() >= 6);
    for f in feats.iter().collect::<BTreeSet<_>>() {
        case.labels.push(f.to_string());
    }
    let picks = 8.min(occ.len());
    for _ in 0..picks {
        let o = &occ[t.below(occ.len())];
        let group = &groups[&(o.scope, o.name.clone())];
        let want: Vec<[u32; 4]> = {
            let mut v: Vec<_> = group.iter().map(|g| ix.range(g.s, g.e)).collect();
            v.sort();
            v
        };
        // aim anywhere inside the name
        let nchars: Vec<usize> = src[o.s..o.e].char_indices().map(|(i, _)| i).collect();
        let at = o.s + nchars[t.below(nchars.len())];
        let (ln, ch) = ix.pos(at);
        let refs: Vec<[u32; 4]> = l.references(uri, ln, ch, true).into_iter().map(|x| x.r).collect();
        let mut got = refs.clone();
        got.sort();
        let ctx = format!("local `{}` at {}:{} ({:?})", o.name, ln, ch, o.kind);
        if got != want {
            return Case::bad(src, format!("refs|{:?}", o.kind), format!("references of {ctx}: got {got:?}, Ruby scoping gives {want:?}"));
        }
        let hl = l.at("textDocument/documentHighlight", uri, ln, ch);
        let mut got: Vec<[u32; 4]> = hl.as_array().cloned().unwrap_or_default().iter().map(|h| range4(&h["range"])).collect();
        got.sort();
        if got != want {
            return Case::bad(src, format!("highlight|{:?}", o.kind), format!("highlights of {ctx}: got {got:?}, Ruby scoping gives {want:?}"));
        }
        let d = l.definition(uri, ln, ch);
        let writes: Vec<[u32; 4]> = group.iter().filter(|g| !matches!(g.kind, Kind::Read)).map(|g| ix.range(g.s, g.e)).collect();
        if matches!(o.kind, Kind::Read) {
            if d.is_empty() {
                return Case::bad(src, "def-missing", format!("definition of {ctx}: none, expected one of {writes:?}"));
            }
        }
        for x in &d {
            if !writes.contains(&x.r) {
                return Case::bad(src, "def-wrong", format!("definition of {ctx}: got {:?}, expected one of {writes:?}", x.r));
            }
        }
    }
    case
}

fn rename(t: &mut Tape) -> Case {
    let uni = t.chance(30);
    let (src, feats) = gen::locals::program(t, uni);
    let occ = occurrences(&src);
    let ix = Index::new(&src);
    let o = occ[t.below(occ.len())].clone();
    let mut l = Lsp::bare();
    let uri = "file:///w/a.rb";
    l.open(uri, &src, 1);
    let (ln, ch) = ix.pos(o.s);
    let prep = l.at("textDocument/prepareRename", uri, ln, ch);
    let res = l.ask("textDocument/rename", json!({"textDocument": {"uri": uri}, "position": {"line": ln, "character": ch}, "newName": "zz_new"}));
    let text = format!("rename `{}` at {ln}:{ch} ({:?})\n{src}", o.name, o.kind);
    let mut case = Case::ok(text.clone(), true).label(format!("{:?}", o.kind));
    for f in feats.iter().collect::<BTreeSet<_>>() {
        case.labels.push(f.to_string());
    }
    let edits: Vec<([u32; 4], String)> = match res["changes"][uri].as_array() {
        Some(a) => a.iter().map(|e| (range4(&e["range"]), e["newText"].as_str().unwrap_or("").to_string())).collect(),
        None => {
            if !prep.is_null() {
                return Case::bad(text, "rename-offered-but-refused", format!("prepareRename answered {prep} but rename produced nothing"));
            }
            case.nontrivial = false;
            return case.label("refused");
        }
    };
    let new = match apply_edits(&src, &edits) {
        Ok(n) => n,
        Err(e) => return Case::bad(text, "rename-edits", e),
    };
    let a = crate::rubyproc::eval(&[("a.rb".into(), src.clone())]);
    if a["ok"] != true {
        crate::runner::harness_error(&format!("generated program does not run: {a}\n{src}"));
    }
    let b = crate::rubyproc::eval(&[("a.rb".into(), new.clone())]);
    if a["out"] != b["out"] || b["ok"] != true {
        return Case::bad(text, format!("rename-behaviour|{:?}", o.kind), format!("after rename program behaves differently: {a} vs {b}\n{new}"));
    }
    // the whole variable was renamed: no occurrence keeps the old name
    let left = occurrences(&new);
    let n_old = occ.iter().filter(|x| x.scope == o.scope && x.name == o.name).count();
    let n_new = left.iter().filter(|x| x.name == "zz_new").count();
    if n_old != n_new {
        return Case::bad(text, "rename-partial", format!("{n_old} occurrences before, {n_new} carry the new name after\n{new}"));
    }
    case
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "generated executable programs with nested def/class/block/lambda/for/while/rescue/pattern scopes over a small pool of local names; oracle = Prism scope depths (navigation) and real Ruby execution before/after (rename). Non-trivial: the same name denotes at least two distinct variables (navigation) / the server produced rename edits (rename)",
        assumptions: &["Prism's (name, depth) local-variable resolution equals Ruby's", "installed ruby 3.2 is the reference for program behaviour"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("nav", 3000, 60000, nav), Lane::new("rename", 2500, 40000, rename)],
    }
}
