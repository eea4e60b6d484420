//! C09: positions count UTF-16 units. A program and the same program spelt with
//! multi-byte characters of the same UTF-16 width get the same answers; so do
//! the same lines separated by CRLF.
use crate::gen::soup::*;
use crate::lsp::*;
use crate::runner::*;
use crate::snap::*;
use crate::tape::Tape;
use serde_json::Value;

const WORDS: &[&str] = &[
    "Alpha", "Beta", "Gamma", "Delta", "Omega", "Kappa", "LIMIT", "SIZE", "Mode", "MAX_AGE", "run", "build", "fetch_it", "total", "mark", "visit", "colour", "weight", "owner", "again", "twice", "Foo", "Bar", "Baz",
    "Qux", "foo", "bar", "baz", "qux", "lorem", "ipsum", "dolor",
];
const ONE: &[char] = &['é', 'ü', 'ж', '中', 'ñ', 'ß', 'λ', 'д', 'ø', 'ん', 'ą', 'ő', 'ț', '語', 'ǫ', 'ŧ'];
const TWO: &[char] = &['𝒶', '𝒷', '𝒸', '𝒹', '𝓁', '𝓂', '𝓃', '𝓅', '𠀀', '𠀁', '𠀂', '𠀃', '𠀄', '𠀅', '𠀆', '𠀇'];

fn comments(t: &mut Tape, s: &str) -> String {
    // lines on their own, so that what follows starts at other offsets
    let mut out = String::new();
    for l in s.split_inclusive('\n') {
        if t.chance(15) && !l.starts_with("=begin") && !s.contains("<<") && !s.contains("__END__") && !s.contains("=begin") {
            let ind: String = l.chars().take_while(|c| *c == ' ').collect();
            out.push_str(&format!("{ind}\"lorem ipsum\"; :dolor # lorem\n"));
        }
        out.push_str(l);
    }
    out
}

fn words(s: &str) -> Vec<&'static str> {
    let mut out: Vec<&'static str> = vec![];
    for w in s.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
        if let Some(k) = WORDS.iter().find(|k| **k == w) {
            if !out.contains(k) {
                out.push(k);
            }
        }
    }
    out.sort();
    out
}

/// Replace whole words.
fn spell(s: &str, map: &[(String, String)]) -> String {
    let mut out = String::new();
    let mut cur = String::new();
    let flush = |cur: &mut String, out: &mut String| {
        match map.iter().find(|m| m.0 == *cur) {
            Some(m) => out.push_str(&m.1),
            None => out.push_str(cur),
        }
        cur.clear();
    };
    for c in s.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            flush(&mut cur, &mut out);
            out.push(c);
        }
    }
    flush(&mut cur, &mut out);
    out
}

fn back(v: &Value, chars: &[(char, String)]) -> Value {
    match v {
        Value::String(s) => {
            // (suggestions go by edit distance in characters)
            let s = s.split(". Did you mean").next().unwrap_or(s);
            let mut o = String::new();
            for c in s.chars() {
                match chars.iter().find(|x| x.0 == c) {
                    Some(x) => o.push_str(&x.1),
                    None => o.push(c),
                }
            }
            Value::String(o)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| back(x, chars)).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), back(x, chars))).collect()),
        x => x.clone(),
    }
}

fn sources(t: &mut Tape, broken: bool) -> Vec<(String, String)> {
    match t.weighted(&[4, 3, 2, if broken { 2 } else { 0 }]) {
        0 => {
            let w = crate::gen::world::generate(t, crate::gen::world::Opts { unicode: false, max_files: 2, size: 8, ..Default::default() });
            w.files.iter().map(|f| (crate::props::nav::uri(&f.path), f.text.clone())).collect()
        }
        1 => {
            let fuel = 4 + t.below(20);
            vec![("file:///w/a.rb".into(), S::new(t, fuel, false).file())]
        }
        2 => vec![("file:///w/a.rb".into(), crate::gen::locals::program(t, false).0)],
        _ => {
            let fuel = 4 + t.below(20);
            let s = S::new(t, fuel, false).file();
            let m = mutate(t, &s).replace("break", "brake").replace("next", "nexx").replace("redo", "redd").replace('\0', "");
            vec![("file:///w/a.rb".into(), m.chars().filter(|c| c.is_ascii() && *c != '\r').collect())]
        }
    }
}

fn go(t: &mut Tape, crlf: bool) -> Case {
    let mut fs = sources(t, !crlf);
    for f in &mut fs {
        f.1 = comments(t, &f.1);
    }
    let all: String = fs.iter().map(|f| f.1.as_str()).collect::<Vec<_>>().join("\n");
    let mut map: Vec<(String, String)> = vec![];
    let mut chars: Vec<(char, String)> = vec![];
    if !crlf {
        for w in words(&all) {
            if !t.chance(60) {
                continue;
            }
            let two = t.chance(60);
            let cut = if two { w.len() - 2 } else { w.len() - 1 };
            if cut == 0 {
                continue;
            }
            let k = map.len();
            let free = |x: &[char]| x.iter().filter(|c| !all.contains(**c)).copied().nth(k);
            let c = if two { free(TWO) } else { free(ONE) };
            let Some(c) = c else { break };
            chars.push((c, w[cut..].to_string()));
            map.push((w.to_string(), format!("{}{c}", &w[..cut])));
        }
    }
    let alt: Vec<(String, String)> = fs.iter().map(|(u, s)| (u.clone(), if crlf { s.replace('\n', "\r\n") } else { spell(s, &map) })).collect();
    let log = alt.iter().map(|f| format!("=== {}\n{}", f.0, f.1)).collect::<String>() + &fs.iter().map(|f| format!("=== plain {}\n{}", f.0, f.1)).collect::<String>();
    note_input(&log);
    let (mut a, mut b) = (Lsp::bare(), Lsp::bare());
    for (x, y) in fs.iter().zip(&alt) {
        note_source(&x.1);
        note_source(&y.1);
        a.open(&x.0, &x.1, 1);
        b.open(&y.0, &y.1, 1);
    }
    let (mut x, mut y) = (Snap::new(), Snap::new());
    let mut n = 0;
    for (f, g) in fs.iter().zip(&alt) {
        doc_snap(&mut a, &f.0, &f.1, &mut x);
        // (the range asked for is given in lines and columns of the plain text)
        doc_snap(&mut b, &f.0, &f.1, &mut y);
        let ps = token_positions(&f.1);
        n += ps.len();
        for _ in 0..ps.len().min(12) {
            let (l, mut c) = *t.pick(&ps);
            if t.chance(30) {
                c += t.below(4) as u32;
                let (i, j) = (crate::text::Index::new(&f.1), crate::text::Index::new(&g.1));
                // a place between the halves of a pair has no counterpart
                if i.off(l, c).is_none() || j.off(l, c).is_none() {
                    continue;
                }
            }
            let heavy = t.chance(35);
            note_input(&format!("{log}\n@ {} {l}:{c}", f.0));
            pos_snap(&mut a, &f.0, l, c, heavy, &mut x);
            pos_snap(&mut b, &f.0, l, c, heavy, &mut y);
            let line = f.1.split('\n').nth(l as usize).unwrap_or("");
            let cs: Vec<char> = line.chars().collect();
            let id = |i: usize| cs.get(i).is_some_and(|c| c.is_alphanumeric() || *c == '_');
            let (mut i, mut j) = (c as usize, c as usize);
            while i > 0 && id(i - 1) {
                i -= 1;
            }
            while id(j) {
                j += 1;
            }
            let word: String = cs.get(i..j).unwrap_or(&[]).iter().collect();
            if !word.is_empty() && !(i == c as usize && i > 0 && cs[i - 1] == '.') {
                // completion filters by the letters typed so far
                let k = format!("completion {} {l}:{c}", f.0);
                x.remove(&k);
                y.remove(&k);
            }
        }
    }
    for (f, _) in fs.iter().zip(&alt) {
        let r = crate::snap::diags_agree_by(&mut a, &mut b, &f.0, |v| {
            let mut v = back(v, &chars);
            if let Some(a) = v.as_array_mut() {
                a.retain(|d| !d["message"].as_str().unwrap_or("").contains("encoding"));
            }
            canon(&v)
        });
        if let Err((p, q)) = r {
            return Case::bad(log, "diagnostics", format!("diagnostics of {}\n plain: {p}\n  other: {q}", f.0));
        }
    }
    let norm = |s: &Snap| -> Snap { s.iter().map(|(k, v)| (k.clone(), canon(&back(v, &chars)))).filter(|x| !x.1.is_null() && x.1 != serde_json::json!([])).collect() };
    let (x, y) = (norm(&x), norm(&y));
    if let Some((k, m)) = diff(&x, &y) {
        return Case::bad(log, k.split(' ').next().unwrap().to_string(), m);
    }
    Case::ok(log, n >= 5 && (crlf || map.len() >= 2))
}
fn spelt(t: &mut Tape) -> Case {
    go(t, false)
}
fn crlf(t: &mut Tape) -> Case {
    go(t, true)
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "a case is one generated program (valid or half-typed) in two spellings: names and literals partly replaced by two-, three- and four-byte characters of the same UTF-16 width, or lines ended by CRLF; every document-wide answer and those at sampled positions must be the same up to the spelling. Non-trivial: at least two names respelt (CRLF lane: five tokens)",
        assumptions: &["the order of results inside one answer is not significant"],
        case_limit: CASE_LIMIT,
        lanes: vec![Lane::new("spelling", 4000, 100000, spelt), Lane::new("crlf", 2000, 40000, crlf)],
    }
}
