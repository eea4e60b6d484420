//! C08: any text, any request, any position — an answer, never a crash, and
//! every range in it lies inside the document it names.
use crate::gen::soup::*;
use crate::lsp::*;
use crate::runner::*;
use crate::tape::Tape;
use crate::text::*;
use serde_json::{json, Value};
use std::collections::HashMap;

pub const POS_METHODS: &[&str] = &[
    "textDocument/definition",
    "textDocument/implementation",
    "textDocument/hover",
    "textDocument/documentHighlight",
    "textDocument/signatureHelp",
    "textDocument/completion",
    "textDocument/prepareRename",
    "textDocument/prepareTypeHierarchy",
    "textDocument/prepareCallHierarchy",
];
pub const DOC_METHODS: &[&str] = &["textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/codeLens", "textDocument/semanticTokens/full"];

fn is_range(v: &Value) -> bool {
    v.get("start").is_some_and(|s| s.get("line").is_some()) && v.get("end").is_some_and(|s| s.get("line").is_some())
}

/// Check every range in a response against the text of the document it names.
pub fn check_ranges(v: &Value, uri: &str, docs: &HashMap<String, Index>) -> Result<(), String> {
    match v {
        Value::Array(a) => {
            for x in a {
                check_ranges(x, uri, docs)?;
            }
        }
        Value::Object(o) => {
            let u = o.get("targetUri").or_else(|| o.get("uri")).and_then(|u| u.as_str()).unwrap_or(uri);
            if is_range(v) {
                if let Some(ix) = docs.get(u) {
                    let r = range4(v);
                    if !ix.valid_range(r) {
                        return Err(format!("range {r:?} is not inside {u}"));
                    }
                }
            } else {
                for (k, x) in o {
                    if k == "changes" {
                        if let Value::Object(ch) = x {
                            for (cu, edits) in ch {
                                check_ranges(edits, cu, docs)?;
                            }
                        }
                        continue;
                    }
                    check_ranges(x, u, docs)?;
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn contains(outer: [u32; 4], inner: [u32; 4]) -> bool {
    (outer[0], outer[1]) <= (inner[0], inner[1]) && (inner[2], inner[3]) <= (outer[2], outer[3])
}

pub fn check_symbols(v: &Value, parent: Option<[u32; 4]>, ix: &Index) -> Result<(), String> {
    for s in v.as_array().into_iter().flatten() {
        if s.get("selectionRange").is_none() {
            continue;
        }
        let (r, sel) = (range4(&s["range"]), range4(&s["selectionRange"]));
        if !contains(r, sel) {
            return Err(format!("symbol {} selection {sel:?} outside its range {r:?}", s["name"]));
        }
        if s["name"].as_str().is_none_or(|n| n.is_empty()) {
            return Err(format!("symbol with an empty name at {r:?}"));
        }
        if let Some(p) = parent {
            // a heredoc's interpolation lies outside the node that opens it
            if !contains(p, r) && !ix.text.contains("<<") {
                return Err(format!("symbol {} range {r:?} outside its parent {p:?}", s["name"]));
            }
        }
        check_symbols(&s["children"], Some(r), ix)?;
    }
    Ok(())
}

pub fn check_tokens(v: &Value, ix: &Index, ntypes: u64) -> Result<(), String> {
    let Some(d) = v["data"].as_array() else { return Ok(()) };
    if d.len() % 5 != 0 {
        return Err("semantic token data length not a multiple of five".into());
    }
    let n: Vec<u64> = d.iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect();
    let (mut line, mut ch, mut end) = (0u64, 0u64, 0u64);
    for (i, c) in n.chunks(5).enumerate() {
        if c[0] > 0 {
            line += c[0];
            ch = c[1];
            end = 0;
        } else {
            ch += c[1];
        }
        if i > 0 && c[0] == 0 && ch < end {
            return Err(format!("semantic token at {line}:{ch} overlaps the previous one ending at {end}"));
        }
        if line as usize >= ix.lines() {
            return Err(format!("semantic token on line {line} beyond the document"));
        }
        let len = ix.line_len16(line as usize) as u64;
        if c[2] == 0 || ch + c[2] > len {
            return Err(format!("semantic token {line}:{ch}+{} outside the line (length {len})", c[2]));
        }
        if c[3] >= ntypes {
            return Err(format!("semantic token type {} is not in the legend", c[3]));
        }
        end = ch + c[2];
    }
    Ok(())
}

pub fn check_folding(v: &Value, ix: &Index) -> Result<(), String> {
    for f in v.as_array().into_iter().flatten() {
        let (a, b) = (f["startLine"].as_u64().unwrap_or(u64::MAX), f["endLine"].as_u64().unwrap_or(u64::MAX));
        if a > b || b as usize >= ix.lines() {
            return Err(format!("folding range {a}..{b} (document has {} lines)", ix.lines()));
        }
    }
    Ok(())
}

pub fn check_selection(v: &Value, pos: (u32, u32)) -> Result<(), String> {
    for s in v.as_array().into_iter().flatten() {
        let mut cur = s;
        let first = range4(&s["range"]);
        if !((first[0], first[1]) <= pos && pos <= (first[2], first[3])) {
            return Err(format!("selection range {first:?} does not contain the position {pos:?}"));
        }
        while cur.get("parent").is_some_and(|p| !p.is_null()) {
            let (a, b) = (range4(&cur["range"]), range4(&cur["parent"]["range"]));
            if !contains(b, a) || a == b && false {
                return Err(format!("selection parent {b:?} does not contain {a:?}"));
            }
            cur = &cur["parent"];
        }
    }
    Ok(())
}

pub struct Sess {
    pub l: Lsp,
    pub docs: HashMap<String, Index>,
    pub log: String,
}
fn ask(s: &mut Sess, method: &str, p: Value) -> Result<Value, (String, String)> {
    match s.l.req(method, p) {
        Ok(v) => Ok(v),
        Err(e) => Err((format!("error|{method}"), format!("{method} answered error {e:?}"))),
    }
}

/// All document-wide requests with structural checks.
pub fn doc_requests(s: &mut Sess, uri: &str) -> Result<(), (String, String)> {
    for m in DOC_METHODS {
        let v = ask(s, m, json!({"textDocument": {"uri": uri}}))?;
        let w = |e: String| (format!("shape|{m}"), format!("{m}: {e}"));
        check_ranges(&v, uri, &s.docs).map_err(w)?;
        let ix = &s.docs[uri];
        match *m {
            "textDocument/documentSymbol" => check_symbols(&v, None, ix).map_err(w)?,
            "textDocument/foldingRange" => check_folding(&v, ix).map_err(w)?,
            "textDocument/semanticTokens/full" => check_tokens(&v, ix, 64).map_err(w)?,
            _ => {}
        }
    }
    let ix = &s.docs[uri];
    let last = ix.lines() as u32 - 1;
    let whole = json!({"start": {"line": 0, "character": 0}, "end": {"line": last, "character": ix.line_len16(last as usize)}});
    let v = ask(s, "textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": whole}))?;
    for h in v.as_array().into_iter().flatten() {
        let (l, c) = (h["position"]["line"].as_u64().unwrap_or(u64::MAX) as u32, h["position"]["character"].as_u64().unwrap_or(u64::MAX) as u32);
        if s.docs[uri].off(l, c).is_none() {
            return Err(("shape|inlay".into(), format!("inlay hint position {l}:{c} is not inside the document")));
        }
    }
    let v = ask(s, "textDocument/codeAction", json!({"textDocument": {"uri": uri}, "range": whole, "context": {"diagnostics": []}}))?;
    check_ranges(&v, uri, &s.docs).map_err(|e| ("shape|codeAction".into(), e))?;
    Ok(())
}

pub fn pos_requests(s: &mut Sess, uri: &str, line: u32, ch: u32, heavy: bool) -> Result<(), (String, String)> {
    let p = json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}});
    for m in POS_METHODS {
        let v = ask(s, m, p.clone())?;
        check_ranges(&v, uri, &s.docs).map_err(|e| (format!("shape|{m}"), format!("{m} at {line}:{ch}: {e}")))?;
        if m.starts_with("textDocument/prepareTypeHierarchy") && heavy {
            for item in v.as_array().into_iter().flatten().take(2) {
                for mm in ["typeHierarchy/supertypes", "typeHierarchy/subtypes"] {
                    ask(s, mm, json!({"item": item}))?;
                }
            }
        }
        if m.starts_with("textDocument/prepareCallHierarchy") && heavy {
            for item in v.as_array().into_iter().flatten().take(2) {
                for mm in ["callHierarchy/incomingCalls", "callHierarchy/outgoingCalls"] {
                    let r = ask(s, mm, json!({"item": item}))?;
                    let _ = r;
                }
            }
        }
    }
    let mut q = p.clone();
    q["context"] = json!({"includeDeclaration": true});
    let v = ask(s, "textDocument/references", q)?;
    check_ranges(&v, uri, &s.docs).map_err(|e| ("shape|references".into(), format!("references at {line}:{ch}: {e}")))?;
    let mut q = p.clone();
    q["newName"] = json!("renamed");
    let v = ask(s, "textDocument/rename", q)?;
    check_ranges(&v, uri, &s.docs).map_err(|e| ("shape|rename".into(), format!("rename at {line}:{ch}: {e}")))?;
    let v = ask(s, "textDocument/selectionRange", json!({"textDocument": {"uri": uri}, "positions": [{"line": line, "character": ch}]}))?;
    check_ranges(&v, uri, &s.docs).map_err(|e| ("shape|selectionRange".into(), format!("selectionRange at {line}:{ch}: {e}")))?;
    if s.docs.get(uri).is_some_and(|ix| ix.off(line, ch).is_some()) {
        check_selection(&v, (line, ch)).map_err(|e| ("shape|selectionRange".into(), format!("selectionRange at {line}:{ch}: {e}")))?;
    }
    if s.docs.get(uri).is_none_or(|ix| ix.off(line, ch).is_none()) {
        return Ok(());
    }
    let c = *["\n", "d", "|", "}"].get((line as usize + ch as usize) % 4).unwrap();
    let v = ask(s, "textDocument/onTypeFormatting", json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}, "ch": c, "options": {"tabSize": 2, "insertSpaces": true}}))?;
    check_ranges(&v, uri, &s.docs).map_err(|e| ("shape|onType".into(), format!("onTypeFormatting({c:?}) at {line}:{ch}: {e}")))?;
    Ok(())
}

/// Prism 1.4.0 (the vendored C parser) can abort on misplaced block exits in
/// malformed text; malformed texts therefore contain none of these words.
fn no_block_exits(s: String) -> String {
    s.replace("break", "brake").replace("next", "nexx").replace("redo", "redd")
}

fn gen_text(t: &mut Tape) -> (String, &'static str) {
    let (s, k) = gen_text0(t);
    let s = if k == "grammar" { s } else { no_block_exits(s) };
    (if t.chance(5) { format!("{}\n{s}", t.pick(&["#!/usr/bin/env ruby", "#!/usr/bin/env rake", "#!/bin/sh", "#! x"])) } else { s }, k)
}

fn gen_text0(t: &mut Tape) -> (String, &'static str) {
    match t.weighted(&[5, 4, 2, 1]) {
        0 => {
            let fuel = 5 + t.below(40);
            let uni = t.chance(40);
            (S::new(t, fuel, uni).file(), "grammar")
        }
        1 => {
            let fuel = 5 + t.below(30);
            let uni = t.chance(40);
            let s = S::new(t, fuel, uni).file();
            (mutate(t, &s), "mutated")
        }
        2 => (tokens(t), "tokens"),
        _ => {
            let uni = t.chance(40);
            let (s, _) = crate::gen::locals::program(t, uni);
            (mutate(t, &s), "locals-mutated")
        }
    }
}

fn case(t: &mut Tape, uri: &'static str, wrap: fn(&mut Tape, String) -> String) -> Case {
    let mut s = Sess { l: Lsp::bare(), docs: HashMap::new(), log: String::new() };
    let before = panic_log_len();
    let versions = 1 + t.below(3);
    let mut kinds = vec![];
    let mut size = 0;
    for v in 0..versions {
        let (text, kind) = gen_text(t);
        let text = wrap(t, text);
        size = size.max(text.len());
        kinds.push(kind);
        s.log.push_str(&format!("--- version {v} ({kind})\n{text}\n"));
        note_input(&s.log);
        note_source(&text);
        if v == 0 {
            s.l.open(uri, &text, 1);
        } else {
            s.l.change(uri, &text, v as i64 + 1);
        }
        note_input(&s.log);
        s.docs.insert(uri.into(), Index::new(&text));
        let r = doc_requests(&mut s, uri);
        if let Err((sig, m)) = r {
            return Case::bad(s.log, sig, m);
        }
        let np = 1 + t.below(6);
        for _ in 0..np {
            let ix = &s.docs[uri];
            let line = t.below(ix.lines());
            let len = ix.line_len16(line) as usize;
            let mut line = line as u32;
            let mut ch = t.below(len + 1) as u32;
            match t.below(20) {
                0 => ch = len as u32 + 1 + t.below(5) as u32,
                1 => line = ix.lines() as u32 + t.below(3) as u32,
                2 => ch = u32::MAX,
                _ => {}
            }
            note_input(&format!("{}\n@ {line}:{ch}", s.log));
            let heavy = t.chance(30);
            if let Err((sig, m)) = pos_requests(&mut s, uri, line, ch, heavy) {
                return Case::bad(format!("{}\n@ {line}:{ch}", s.log), sig, m);
            }
        }
        match t.below(5) {
            0 => s.l.save(uri),
            1 => {
                s.l.close(uri);
                s.l.open(uri, &text, 90 + v as i64);
            }
            _ => {}
        }
        for m in ["ruby-fast-lsp/debug/stats", "ruby/namespaceTree"] {
            let _ = s.l.req(m, json!({"uri": uri}));
        }
        let q = t.pick(&["Foo", "", "foo", "é", "F::B", "x y"]).to_string();
        if let Err((sig, m)) = ask(&mut s, "workspace/symbol", json!({"query": q})) {
            return Case::bad(s.log, sig, m);
        }
    }
    s.l.settle();
    let bad = |s: &Sess| s.l.diagnostics(uri).iter().any(|d| !s.docs[uri].valid_range(range4(&d["range"])));
    for _ in 0..100 {
        if !bad(&s) {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    for (u, ds) in s.l.diags.lock().unwrap().iter() {
        if u == uri {
            for d in ds {
                if !s.docs[uri].valid_range(range4(&d["range"])) {
                    return Case::bad(s.log.clone(), "shape|diagnostic", format!("diagnostic range {:?} is not inside the document: {}", range4(&d["range"]), d["message"]));
                }
            }
        }
    }
    let p = panic_log_since(before);
    if !p.is_empty() {
        return Case::bad(s.log, format!("panic:{}", p[0].chars().take(120).collect::<String>()), format!("panic: {}", p[0]));
    }
    let mut c = Case::ok(s.log, size > 40);
    for k in kinds {
        c.labels.push(k.into());
    }
    c
}

fn ruby(t: &mut Tape) -> Case {
    case(t, "file:///w/a.rb", |_, s| s)
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "documents from a broad Ruby grammar, structure-aware mutations of it and token soup (multibyte, CRLF, NUL, BOM, malformed YARD), through open/change/save/close, with every document-wide request and every position request at generated (also out-of-range) positions. Non-trivial: a document longer than 40 bytes was processed",
        assumptions: &["a panic or JSON-RPC error for a well-formed request is a crash", "line breaks are \\n or \\r\\n"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("ruby", 4000, 100000, ruby)],
    }
}
