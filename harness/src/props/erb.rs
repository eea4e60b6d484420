//! C10: an ERB template is analysed as the Ruby it contains, at the places of
//! the template; text outside the tags is never Ruby.
use crate::lsp::*;
use crate::runner::*;
use crate::snap::*;
use crate::tape::Tape;
use serde_json::Value;

const ERB: &str = "file:///w/v.html.erb";
const RB: &str = "file:///w/v.rb";
const HOST: &[&str] = &["", " ", "<p>", "</p>", "<b class=\"x\">é</b>", "😀 ", "User.new ", "a = 1; ", "\t", "def x", "end", "'", "\"", "#{", "<%# note: end %>", "<%% if x %>", "% ", "&lt;%", "你好", "<!-- # -->"];

/// (template, the same Ruby alone at the same places, places of host text)
fn template(t: &mut Tape, src: &str) -> (String, String, Vec<(u32, u32)>) {
    let (mut e, mut r) = (String::new(), String::new());
    let mut hosts = vec![];
    let crlf = t.chance(15);
    let lines: Vec<&str> = src.lines().collect();
    let mut i = 0;
    let blank = |s: &str| -> String { s.encode_utf16().map(|_| ' ').collect() };
    while i < lines.len() {
        for _ in 0..t.below(3) {
            let h = *t.pick(HOST);
            let line = e.matches('\n').count() as u32;
            let col = e.rsplit('\n').next().unwrap().encode_utf16().count() as u32;
            for (k, _) in h.encode_utf16().enumerate() {
                hosts.push((line, col + k as u32));
            }
            e.push_str(h);
            r.push_str(&blank(h));
        }
        let open = *t.pick(&["<%", "<%", "<%=", "<%-"]);
        let pad = *t.pick(&[" ", " ", "", "\n"]);
        let pad = if pad.is_empty() && lines[i].starts_with(|c: char| !c.is_alphabetic() && c != ' ') { " " } else { pad };
        e.push_str(open);
        r.push_str(&blank(open));
        let n = if t.chance(30) { 1 + t.below(3) } else { 1 };
        let body = lines[i..(i + n).min(lines.len())].join("\n");
        i += n;
        let tail = if t.chance(50) { " " } else { "" };
        let body = format!("{pad}{body}{tail}");
        e.push_str(&body);
        r.push_str(&body);
        if t.chance(30) {
            e.push_str("-%>");
            r.push_str(" ; ");
        } else {
            e.push_str("%>");
            r.push_str("; ");
        }
        // a comment in the code would swallow whatever follows on its line
        if body.contains('#') || t.chance(70) {
            e.push('\n');
            r.push('\n');
        }
    }
    if crlf {
        e = e.replace('\n', "\r\n");
        r = r.replace('\n', "\r\n");
    }
    (e, r, hosts)
}

fn rb(v: &Value) -> Value {
    match v {
        Value::String(s) => Value::String(s.replace("v.html.erb", "v.rb")),
        Value::Array(a) => Value::Array(a.iter().map(rb).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.replace("v.html.erb", "v.rb"), rb(x))).collect()),
        x => x.clone(),
    }
}

fn go(t: &mut Tape) -> Case {
    let w = crate::gen::world::generate(t, crate::gen::world::Opts { unicode: true, max_files: 2, size: 8, ..Default::default() });
    let src = if t.chance(60) {
        let uni = t.chance(30);
        crate::gen::locals::program(t, uni).0
    } else {
        w.files[w.files.len() - 1].text.clone()
    };
    let (e, r, hosts) = template(t, &src);
    let (mut a, mut b) = (Lsp::bare(), Lsp::bare());
    let mut log = String::new();
    if w.files.len() > 1 || t.chance(50) {
        let f = &w.files[0];
        log.push_str(&format!("=== m.rb\n{}", f.text));
        a.open("file:///w/m.rb", &f.text, 1);
        b.open("file:///w/m.rb", &f.text, 1);
    }
    log.push_str(&format!("=== v.html.erb\n{e}\n=== v.rb\n{r}\n"));
    note_input(&log);
    note_source(&r);
    a.open(RB, &r, 1);
    b.open(ERB, &e, 1);
    let (mut x, mut y) = (Snap::new(), Snap::new());
    doc_snap(&mut a, RB, &r, &mut x);
    doc_snap(&mut b, ERB, &r, &mut y);
    let ps = token_positions(&r);
    for _ in 0..ps.len().min(14) {
        let (l, c) = *t.pick(&ps);
        let heavy = t.chance(40);
        note_input(&format!("{log}\n@ {l}:{c}"));
        pos_snap(&mut a, RB, l, c, heavy, &mut x);
        pos_snap(&mut b, ERB, l, c, heavy, &mut y);
    }
    let norm = |s: &Snap| -> Snap { s.iter().map(|(k, v)| (k.replace("v.html.erb", "v.rb"), canon(&rb(v)))).filter(|x| !x.1.is_null() && x.1 != serde_json::json!([])).collect() };
    if let Some((k, m)) = diff(&norm(&x), &norm(&y)) {
        return Case::bad(log, k.split(' ').next().unwrap().to_string(), m);
    }
    // (the parser's own warnings, such as on indentation, are not given for templates)
    let real = |v: Value| -> Value { Value::Array(canon(&rb(&v)).as_array().unwrap().iter().filter(|d| d["severity"] != 2 || d["code"].is_string()).cloned().collect()) };
    let (d, f) = (real(diag_snap(&a, RB)), real(diag_snap(&b, ERB)));
    if d != f {
        return Case::bad(log, "diagnostics", format!(" Ruby: {d}\n ERB: {f}"));
    }
    for _ in 0..hosts.len().min(6) {
        let (l, c) = *t.pick(&hosts);
        let mut z = Snap::new();
        pos_snap(&mut b, ERB, l, c, true, &mut z);
        for (k, v) in &z {
            let empty = v.is_null() || v.as_array().is_some_and(|x| x.is_empty()) || k.starts_with("rename") && (v["error"].is_string() || v["changes"].as_object().is_some_and(|x| x.is_empty()));
            if !empty {
                return Case::bad(log, format!("host|{}", k.split(' ').next().unwrap()), format!("outside every tag, {k} answers {v}"));
            }
        }
    }
    Case::ok(log, ps.len() >= 5 && hosts.len() >= 5)
}

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "a case is one generated template (statements in tags of every form, host text in between) and the same Ruby alone at the same places; all document-wide answers, those at sampled places and diagnostics are compared, and host places must stay silent. Non-trivial: at least five tokens and five host places",
        assumptions: &["the order of results inside one answer is not significant"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("templates", 2500, 100000, go)],
    }
}
