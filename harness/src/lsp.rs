//! In-process LSP client: drives the real server through JSON-RPC.
use futures::StreamExt;
use ruby_fast_lsp::server::RubyLanguageServer;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use tokio::runtime::Runtime;
use tower::{Service, ServiceExt};
use tower_lsp::{jsonrpc, LspService};

/// One runtime per case thread, its threads named after it, so that a panic on
/// any of them is attributed to the case that caused it.
pub fn rt() -> &'static Runtime {
    thread_local! {
        static RT: std::cell::OnceCell<&'static Runtime> = const { std::cell::OnceCell::new() };
    }
    RT.with(|c| {
        *c.get_or_init(|| {
            Box::leak(Box::new(
                tokio::runtime::Builder::new_multi_thread()
                    .worker_threads(4)
                    .thread_name(format!("rt-{}", crate::runner::thread_key()))
                    .thread_stack_size(16 << 20)
                    .enable_all()
                    .build()
                    .unwrap(),
            ))
        })
    })
}

const MARK: &str = "zzz:///vh-mark";

pub struct Lsp {
    svc: LspService<RubyLanguageServer>,
    pub diags: Arc<Mutex<HashMap<String, Vec<Value>>>>,
    pub notes: Arc<Mutex<Vec<(String, Value)>>>,
    marks: Arc<std::sync::atomic::AtomicU64>,
    sent: std::cell::Cell<u64>,
    id: i64,
    pump: tokio::task::JoinHandle<()>,
}

impl Drop for Lsp {
    fn drop(&mut self) {
        self.pump.abort();
    }
}

#[derive(Debug, Clone)]
pub struct RpcErr {
    pub code: i64,
    pub message: String,
    pub data: Value,
}

impl Lsp {
    /// params: InitializeParams JSON
    pub fn start(params: Value) -> Lsp {
        rt().block_on(async move {
            let (svc, socket) = LspService::build(|client| RubyLanguageServer::new(client).expect("server construction"))
                .custom_method("ruby/namespaceTree", RubyLanguageServer::handle_namespace_tree_request)
                .custom_method("ruby-fast-lsp/debug/lookup", RubyLanguageServer::handle_debug_lookup)
                .custom_method("ruby-fast-lsp/debug/stats", RubyLanguageServer::handle_debug_stats)
                .custom_method("ruby-fast-lsp/debug/ancestors", RubyLanguageServer::handle_debug_ancestors)
                .custom_method("ruby-fast-lsp/debug/methods", RubyLanguageServer::handle_debug_methods)
                .custom_method("ruby/exportGraph", RubyLanguageServer::handle_export_graph)
                .custom_method("ruby-fast-lsp/extensions/status", RubyLanguageServer::handle_extension_status)
                .custom_method("ruby-fast-lsp/indexing/status", RubyLanguageServer::handle_indexing_status)
                .finish();
            let diags = Arc::new(Mutex::new(HashMap::new()));
            let notes = Arc::new(Mutex::new(Vec::new()));
            let marks = Arc::new(std::sync::atomic::AtomicU64::new(0));
            let (d2, n2, m2) = (diags.clone(), notes.clone(), marks.clone());
            let (mut stream, mut sink) = socket.split();
            let pump = tokio::spawn(async move {
                use futures::SinkExt;
                while let Some(req) = stream.next().await {
                    let v = serde_json::to_value(&req).unwrap();
                    let m = v["method"].as_str().unwrap_or("").to_string();
                    if m == "textDocument/publishDiagnostics" {
                        let uri = v["params"]["uri"].as_str().unwrap_or("").to_string();
                        let ds = v["params"]["diagnostics"].as_array().cloned().unwrap_or_default();
                        if uri == MARK {
                            let n = ds[0]["message"].as_str().and_then(|n| n.parse().ok()).unwrap_or(0);
                            m2.fetch_max(n, std::sync::atomic::Ordering::SeqCst);
                            continue;
                        }
                        d2.lock().unwrap().insert(uri, ds);
                    } else {
                        let mut g = n2.lock().unwrap();
                        if g.len() < 5000 {
                            g.push((m, v["params"].clone()));
                        }
                    }
                    if let Some(id) = req.id().cloned() {
                        let _ = sink.send(jsonrpc::Response::from_ok(id, Value::Null)).await;
                    }
                }
            });
            let mut l = Lsp { svc, diags, notes, marks, sent: std::cell::Cell::new(0), id: 0, pump };
            l.areq("initialize", params).await.expect("initialize");
            l.anote("initialized", json!({})).await;
            l
        })
    }
    pub fn bare() -> Lsp {
        Lsp::start(json!({"capabilities": {}}))
    }
    pub fn with_root(path: &std::path::Path) -> Lsp {
        Lsp::start(json!({"capabilities": {}, "rootUri": uri_of(path)}))
    }
    pub fn server(&self) -> &RubyLanguageServer {
        self.svc.inner()
    }
    pub async fn areq(&mut self, method: &str, params: Value) -> Result<Value, RpcErr> {
        self.id += 1;
        let req = jsonrpc::Request::build(method.to_string()).id(self.id).params(params).finish();
        let r = self.svc.ready().await.expect("service ready").call(req).await;
        match r {
            Ok(Some(resp)) => {
                let (_, res) = resp.into_parts();
                match res {
                    Ok(v) => Ok(v),
                    Err(e) => Err(RpcErr { code: e.code.code(), message: e.message.to_string(), data: e.data.unwrap_or(Value::Null) }),
                }
            }
            Ok(None) => Ok(Value::Null),
            Err(e) => panic!("HARNESS service exited: {e:?}"),
        }
    }
    pub async fn anote(&mut self, method: &str, params: Value) {
        let req = jsonrpc::Request::build(method.to_string()).params(params).finish();
        let _ = self.svc.ready().await.expect("service ready").call(req).await;
    }
    pub fn req(&mut self, method: &str, params: Value) -> Result<Value, RpcErr> {
        rt().block_on(self.areq(method, params))
    }
    /// Request with the documented bounded retrigger contract during indexing.
    pub fn ask(&mut self, method: &str, params: Value) -> Value {
        let t = std::time::Instant::now();
        loop {
            match self.req(method, params.clone()) {
                Ok(v) => return v,
                Err(e) if e.code == -32802 && t.elapsed().as_secs() < 60 => std::thread::sleep(std::time::Duration::from_millis(10)),
                Err(e) => panic!("request {method} failed: {e:?}"),
            }
        }
    }
    pub fn note(&mut self, method: &str, params: Value) {
        rt().block_on(self.anote(method, params))
    }
    pub fn open(&mut self, uri: &str, text: &str, version: i64) {
        self.open_lang(uri, text, version, "ruby")
    }
    pub fn open_lang(&mut self, uri: &str, text: &str, version: i64, lang: &str) {
        crate::runner::note_input(text);
        self.note("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": lang, "version": version, "text": text}}));
    }
    pub fn change(&mut self, uri: &str, text: &str, version: i64) {
        self.note("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": text}]}));
    }
    pub fn save(&mut self, uri: &str) {
        self.note("textDocument/didSave", json!({"textDocument": {"uri": uri}}));
    }
    pub fn close(&mut self, uri: &str) {
        self.note("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
    }
    pub fn at(&mut self, method: &str, uri: &str, line: u32, ch: u32) -> Value {
        self.ask(method, json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}}))
    }
    pub fn definition(&mut self, uri: &str, line: u32, ch: u32) -> Vec<Loc> {
        locs(&self.at("textDocument/definition", uri, line, ch))
    }
    pub fn references(&mut self, uri: &str, line: u32, ch: u32, decl: bool) -> Vec<Loc> {
        locs(&self.ask("textDocument/references", json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}, "context": {"includeDeclaration": decl}})))
    }
    pub fn hover_text(&mut self, uri: &str, line: u32, ch: u32) -> Option<String> {
        let v = self.at("textDocument/hover", uri, line, ch);
        if v.is_null() {
            return None;
        }
        let c = &v["contents"];
        Some(c["value"].as_str().map(|s| s.to_string()).unwrap_or_else(|| c.to_string()))
    }
    pub fn wait_indexed(&mut self) {
        let t = std::time::Instant::now();
        while !self.server().is_indexing_complete() {
            if t.elapsed().as_secs() > 120 {
                crate::runner::harness_error("indexing did not complete in 120 s (inconclusive)");
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
    }
    /// Wait until everything the server has sent so far has been received: a
    /// publication of our own, queued behind all others (they are sent in the
    /// order of their URIs), marks the place.
    pub fn settle(&self) {
        let server = self.server().clone();
        if server.client.is_none() {
            return;
        }
        self.sent.set(self.sent.get() + 1);
        let (want, marks) = (self.sent.get(), self.marks.clone());
        let done = rt().block_on(async move {
            let at = tower_lsp::lsp_types::Url::parse(MARK).expect("HARNESS mark");
            let d = tower_lsp::lsp_types::Diagnostic { message: want.to_string(), ..Default::default() };
            server.publish_diagnostics(at, vec![d]).await;
            for i in 0..600_000 {
                if marks.load(std::sync::atomic::Ordering::SeqCst) >= want {
                    return true;
                }
                if i < 200 {
                    tokio::task::yield_now().await;
                } else {
                    tokio::time::sleep(std::time::Duration::from_micros(100)).await;
                }
            }
            false
        });
        if !done {
            crate::runner::harness_error("the server's messages were not received in 60 s (inconclusive)");
        }
    }
    pub fn diagnostics(&self, uri: &str) -> Vec<Value> {
        self.settle();
        self.diags.lock().unwrap().get(uri).cloned().unwrap_or_default()
    }
}

pub fn uri_of(p: &std::path::Path) -> String {
    tower_lsp::lsp_types::Url::from_file_path(p).expect("HARNESS file uri").to_string()
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Loc {
    pub uri: String,
    pub r: [u32; 4],
}

pub fn range4(v: &Value) -> [u32; 4] {
    let g = |a: &str, b: &str| v[a][b].as_u64().unwrap_or(u32::MAX as u64) as u32;
    [g("start", "line"), g("start", "character"), g("end", "line"), g("end", "character")]
}

pub fn locs(v: &Value) -> Vec<Loc> {
    let one = |v: &Value| -> Loc {
        if v.get("targetUri").is_some() {
            Loc { uri: v["targetUri"].as_str().unwrap().into(), r: range4(&v["targetSelectionRange"]) }
        } else {
            Loc { uri: v["uri"].as_str().unwrap_or("").into(), r: range4(&v["range"]) }
        }
    };
    let mut out: Vec<Loc> = match v {
        Value::Array(a) => a.iter().map(one).collect(),
        Value::Null => vec![],
        o => vec![one(o)],
    };
    out.sort();
    out
}
