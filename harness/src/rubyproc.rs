//! Real Ruby as an oracle: a persistent helper that forks one child per case.
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

const HELPER: &str = r#"
require 'json'
$stdout.sync = true
out = $stdout.dup
out.sync = true
$stdout.reopen(File::NULL); $stderr.reopen(File::NULL)
while (line = $stdin.gets)
  src = JSON.parse(line)
  r, w = IO.pipe
  pid = fork do
    r.close
    Process.setrlimit(Process::RLIMIT_CPU, 10, 10)
    Process.setrlimit(Process::RLIMIT_AS, 2 << 30, 2 << 30)
    Process.setrlimit(Process::RLIMIT_FSIZE, 0, 0)
    $__out = nil
    res = begin
      f = src["files"]
      f.each { |name, text| TOPLEVEL_BINDING.eval(text, name, 1) }
      { "ok" => true, "out" => $__out }
    rescue Exception => e
      { "ok" => false, "err" => e.class.name, "msg" => e.message.to_s[0, 300], "at" => (e.backtrace || [])[0, 3], "out" => $__out }
    end
    w.write(JSON.generate(res)); w.close
    exit!(0)
  end
  w.close
  data = r.read; r.close
  Process.wait(pid)
  data = JSON.generate({ "ok" => false, "err" => "CHILD-DIED", "msg" => $?.to_s }) if data.empty?
  out.puts(data)
end
"#;

struct Proc {
    _child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
static POOL: Mutex<Vec<Proc>> = Mutex::new(Vec::new());

fn spawn() -> Proc {
    let mut child = Command::new("ruby")
        .arg("--disable=gems")
        .arg("-W0")
        .arg("-EUTF-8:UTF-8")
        .arg("-e")
        .arg(HELPER)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| crate::runner::harness_error(&format!("cannot start ruby: {e}")));
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Proc { _child: child, stdin, stdout }
}

/// Evaluate files in order in one fresh Ruby process. Programs put their
/// observations in $__out (JSON-able).
pub fn eval(files: &[(String, String)]) -> Value {
    let p = POOL.lock().unwrap().pop();
    let mut p = p.unwrap_or_else(spawn);
    let req = serde_json::json!({ "files": files });
    let ok = writeln!(p.stdin, "{}", req).is_ok() && p.stdin.flush().is_ok();
    let mut line = String::new();
    if !ok || p.stdout.read_line(&mut line).unwrap_or(0) == 0 {
        crate::runner::harness_error("ruby oracle process died");
    }
    POOL.lock().unwrap().push(p);
    serde_json::from_str(&line).unwrap_or_else(|e| crate::runner::harness_error(&format!("ruby oracle reply: {e}: {line}")))
}
