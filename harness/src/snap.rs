//! Canonical snapshot of everything a client can observe about a set of
//! documents, for comparing two servers or two histories.
use crate::lsp::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type Snap = BTreeMap<String, Value>;

/// Sort arrays whose order carries no meaning (arrays of objects/strings).
pub fn canon(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut b: Vec<Value> = a.iter().map(canon).collect();
            if b.iter().any(|x| x.is_object() || x.is_string()) {
                b.sort_by_cached_key(|x| x.to_string());
            }
            Value::Array(b)
        }
        Value::Object(o) => Value::Object(o.iter().filter(|(k, _)| k.as_str() != "version" && k.as_str() != "resultId").map(|(k, x)| (k.clone(), canon(x))).collect()),
        x => x.clone(),
    }
}

/// Identifier-like tokens of a text: (line, utf16 column) of their first character.
pub fn token_positions(text: &str) -> Vec<(u32, u32)> {
    let mut out = vec![];
    for (ln, line) in text.split('\n').enumerate() {
        let mut col = 0u32;
        let mut prev = false;
        for c in line.chars() {
            let id = c.is_alphanumeric() || c == '_';
            if id && !prev {
                out.push((ln as u32, col));
            }
            prev = id;
            col += c.len_utf16() as u32;
        }
    }
    out
}

pub const POS: &[&str] = &["definition", "hover", "documentHighlight", "implementation", "signatureHelp", "prepareRename", "prepareTypeHierarchy", "prepareCallHierarchy"];

pub fn doc_snap(l: &mut Lsp, uri: &str, text: &str, out: &mut Snap) {
    for m in ["documentSymbol", "foldingRange", "codeLens", "semanticTokens/full"] {
        let v = l.ask(&format!("textDocument/{m}"), json!({"textDocument": {"uri": uri}}));
        out.insert(format!("{m} {uri}"), canon(&v));
    }
    let ix = crate::text::Index::new(text);
    let last = ix.lines() as u32 - 1;
    let whole = json!({"start": {"line": 0, "character": 0}, "end": {"line": last, "character": ix.line_len16(last as usize)}});
    let v = l.ask("textDocument/inlayHint", json!({"textDocument": {"uri": uri}, "range": whole}));
    out.insert(format!("inlayHint {uri}"), canon(&v));
}

pub fn pos_snap(l: &mut Lsp, uri: &str, line: u32, ch: u32, heavy: bool, out: &mut Snap) {
    for m in POS {
        let v = l.at(&format!("textDocument/{m}"), uri, line, ch);
        if heavy && m.starts_with("prepareTypeH") {
            for item in v.as_array().into_iter().flatten().take(1) {
                for mm in ["typeHierarchy/supertypes", "typeHierarchy/subtypes"] {
                    let r = l.ask(mm, json!({"item": item}));
                    out.insert(format!("{mm} {uri} {line}:{ch}"), canon(&r));
                }
            }
        }
        if heavy && m.starts_with("prepareCallH") {
            for item in v.as_array().into_iter().flatten().take(1) {
                for mm in ["callHierarchy/incomingCalls", "callHierarchy/outgoingCalls"] {
                    let r = l.ask(mm, json!({"item": item}));
                    out.insert(format!("{mm} {uri} {line}:{ch}"), canon(&r));
                }
            }
        }
        out.insert(format!("{m} {uri} {line}:{ch}"), canon(&v));
    }
    let v = l.ask("textDocument/references", json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}, "context": {"includeDeclaration": true}}));
    out.insert(format!("references {uri} {line}:{ch}"), canon(&v));
    if heavy {
        let v = l.at("textDocument/completion", uri, line, ch);
        out.insert(format!("completion {uri} {line}:{ch}"), canon(&v));
        let mut p = json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}});
        p["newName"] = json!("zz_renamed");
        let v = match l.req("textDocument/rename", p) {
            Ok(v) => v,
            Err(e) => json!({"error": e.message}),
        };
        out.insert(format!("rename {uri} {line}:{ch}"), canon(&v));
    }
}

/// Requests about names rather than positions.
pub fn global_snap(l: &mut Lsp, names: &[&str], out: &mut Snap) {
    for q in ["", "Foo", "a", "K"] {
        let v = l.ask("workspace/symbol", json!({"query": q}));
        out.insert(format!("workspace/symbol {q:?}"), canon(&v));
    }
    for n in names {
        for m in ["ruby-fast-lsp/debug/ancestors", "ruby-fast-lsp/debug/methods"] {
            let v = match l.req(m, json!({"class": n, "className": n, "name": n, "fqn": n})) {
                Ok(v) => v,
                Err(e) => json!({"error": e.message}),
            };
            out.insert(format!("{m} {n}"), canon(&v));
        }
    }
}

pub fn diff(a: &Snap, b: &Snap) -> Option<(String, String)> {
    for (k, v) in a {
        match b.get(k) {
            Some(w) if w == v => {}
            Some(w) => return Some((k.clone(), format!("{k}:\n   first: {}\n  second: {}", short(v), short(w)))),
            None => return Some((k.clone(), format!("{k}: only in first: {}", short(v)))),
        }
    }
    for (k, w) in b {
        if !a.contains_key(k) {
            return Some((k.clone(), format!("{k}: only in second: {}", short(w))));
        }
    }
    None
}

fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 1500 {
        s.chars().take(1500).collect::<String>() + "…"
    } else {
        s
    }
}

/// Published diagnostics in canonical form.
pub fn diag_snap(l: &Lsp, uri: &str) -> Value {
    canon(&Value::Array(l.diagnostics(uri)))
}

/// Wait until two servers' diagnostics for a document agree (publication is
/// asynchronous); the last pair otherwise.
pub fn diags_agree(a: &mut Lsp, b: &mut Lsp, uri: &str) -> Result<(), (Value, Value)> {
    diags_agree_by(a, b, uri, |v| v.clone())
}
pub fn diags_agree_by(a: &mut Lsp, b: &mut Lsp, uri: &str, f: impl Fn(&Value) -> Value) -> Result<(), (Value, Value)> {
    for _ in 0..150 {
        let (x, y) = (f(&diag_snap(a, uri)), f(&diag_snap(b, uri)));
        if x == y {
            return Ok(());
        }
        a.settle();
        std::thread::sleep(std::time::Duration::from_millis(15));
    }
    Err((diag_snap(a, uri), diag_snap(b, uri)))
}
