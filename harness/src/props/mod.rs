use crate::runner::Prop;
mod locals;
mod robust;
mod history;
mod nav;
mod args;
mod outline;
mod graph;
mod utf16;
mod rbs;
pub mod cache;
pub mod complete;
pub mod erb;
mod flight;
mod admit;
mod jvm;
pub fn all() -> Vec<Prop> {
    vec![locals::prop(), robust::prop(), history::prop(), nav::prop_c03(), nav::prop_c04(), nav::prop_c02(), complete::prop(), erb::prop(), args::prop_c24(), args::prop_c25(), outline::prop(), graph::prop_c22(), graph::prop_c23(), graph::prop_c26(), utf16::prop(), rbs::prop(), cache::prop(), flight::prop(), admit::prop(), jvm::prop()]
}
/// Development aid: `vh exp FILE` opens a file in a bare server and prints diagnostics.
pub fn experiment(args: &[String]) {
    use crate::lsp::*;
    let mut l = Lsp::bare();
    for f in args.iter().filter(|a| !a.contains(':')) {
        let name = f.rsplit('/').next().unwrap();
        l.open(&format!("file:///x/{name}"), &std::fs::read_to_string(f).unwrap(), 1);
    }
    l.settle();
    for d in args.iter().filter(|a| !a.contains(':')).flat_map(|f| l.diagnostics(&format!("file:///x/{}", f.rsplit('/').next().unwrap()))).collect::<Vec<_>>() {
        println!("diag {} {}", range4(&d["range"]).map(|x| x.to_string()).join(":"), d["message"]);
    }
    for q in args.iter().filter(|a| a.contains(':')) {
        // method:line:col:file
        let p: Vec<&str> = q.split(':').collect();
        let v = l.ask(&format!("textDocument/{}", p[0]), serde_json::json!({"textDocument": {"uri": format!("file:///x/{}", p[3])}, "context": {"includeDeclaration": true}, "newName": "zzz", "position": {"line": p[1].parse::<u32>().unwrap(), "character": p[2].parse::<u32>().unwrap()}}));
        println!("{q} => {v}");
    }
}
