mod gen;
mod lsp;
mod props;
mod runner;
mod tape;
mod text;
mod snap;
mod rubyproc;
mod javaproc;

fn main() {
    runner::install_panic_hook();
    // All server-side caches go to a scratch directory of this run.
    let scratch = std::env::temp_dir().join(format!("vh-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    std::env::set_var("RUBY_FAST_LSP_CACHE_DIR", scratch.join("cache"));
    std::env::set_var("VH_SCRATCH", &scratch);
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check" | "check-child") => {
            let id = &args[2];
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if args.get(3).is_some_and(|t| t == "thorough") { "thorough".to_string() } else { tier };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            match all.iter().find(|p| p.id == id) {
                Some(p) if args[1] == "check-child" || std::env::var_os("VH_ALL").is_some() => runner::run_property(p, &tier, seed),
                Some(p) => runner::supervise(p, &tier, seed, &scratch),
                None => {
                    eprintln!("unknown property {id}");
                    3
                }
            }
        }
        Some("case") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let p = all.iter().find(|p| p.id == args[2]).expect("HARNESS property");
            runner::run_case(p, &args[3], seed, args[4].parse().expect("HARNESS case number"))
        }
        Some("parse") => {
            for e in std::fs::read_dir(&args[2]).into_iter().flatten().flatten() {
                let s = std::fs::read(e.path()).unwrap_or_default();
                // the server never hands a shebang to the parser
                let s = if s.starts_with(b"#!") { [b"##", &s[2..]].concat() } else { s };
                let r = ruby_prism::parse(&s);
                let _ = r.node();
            }
            0
        }
        Some("replay") => runner::replay(&all, &args[2]),
        Some("cache-child") => props::cache::child(&args[2..]),
        Some("exp") => {
            props::experiment(&args[2..]);
            0
        }
        _ => {
            eprintln!("usage: vh check <id> [quick|thorough] | replay <file>");
            3
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}
