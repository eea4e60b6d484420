//! The JDK as an oracle: a persistent helper compiles one source per request in
//! memory and reports the classes with what reflection says about them.
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

const SERVER: &str = include_str!("../java/Server.java");
struct Proc {
    _child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
static POOL: Mutex<Vec<Proc>> = Mutex::new(Vec::new());
static COMPILED: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);

fn die(m: String) -> ! {
    crate::runner::harness_error(&m)
}
/// The helper is compiled once per run; its processes then start fast.
fn classes() -> std::path::PathBuf {
    let mut g = COMPILED.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(p) = &*g {
        return p.clone();
    }
    let dir = std::path::PathBuf::from(std::env::var_os("VH_SCRATCH").unwrap_or_else(|| "/tmp".into())).join(format!("java-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(format!("java scratch: {e}")));
    let f = dir.join("Server.java");
    std::fs::write(&f, SERVER).unwrap_or_else(|e| die(format!("java scratch: {e}")));
    let ok = Command::new("javac").arg("-d").arg(&dir).arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok_and(|s| s.success());
    if !ok {
        die("javac cannot compile the oracle".into());
    }
    *g = Some(dir.clone());
    dir
}
fn spawn() -> Proc {
    let mut child = Command::new("java")
        .args(["-Xmx400m", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "--add-opens", "java.base/java.lang=ALL-UNNAMED", "--add-opens", "java.base/java.lang.reflect=ALL-UNNAMED", "-cp"])
        .arg(classes())
        .arg("Server")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| die(format!("cannot start java: {e}")));
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Proc { _child: child, stdin, stdout }
}
pub fn b64(data: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    o
}
pub fn unb64(s: &str) -> Vec<u8> {
    let v = |c: u8| match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'+' => 62,
        _ => 63,
    } as u32;
    let mut o = vec![];
    for c in s.as_bytes().chunks(4) {
        let n = c.iter().fold(0, |a, &x| a << 6 | if x == b'=' { 0 } else { v(x) });
        let pad = c.iter().filter(|&&x| x == b'=').count();
        o.extend_from_slice(&n.to_be_bytes()[1..4 - pad]);
    }
    o
}
/// Compile a source file; options are javac's.
pub fn compile(file: &str, source: &str, options: &[&str]) -> Value {
    let p = POOL.lock().unwrap().pop();
    let mut p = p.unwrap_or_else(spawn);
    let ok = writeln!(p.stdin, "{}\t{}\t{}", b64(source.as_bytes()), file, options.join(",")).is_ok() && p.stdin.flush().is_ok();
    let mut line = String::new();
    if !ok || p.stdout.read_line(&mut line).unwrap_or(0) == 0 {
        die("java oracle process died".into());
    }
    POOL.lock().unwrap().push(p);
    let v: Value = serde_json::from_str(&line).unwrap_or_else(|e| die(format!("java oracle reply: {e}: {line}")));
    if v["err"].as_str().is_some_and(|e| e.starts_with("ORACLE")) {
        die(format!("java oracle: {}\n{source}", v["err"]));
    }
    v
}
