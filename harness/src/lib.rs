//! Property checks for scribe.
#[macro_use]
pub mod common;
pub mod props;
mod supervise;

use std::path::PathBuf;
use vcore::engine::{self, Env, Tier};

/// Scratch directory of this process, in memory where possible; also the working
/// directory, so that relative paths stay inside it.
pub fn scratch(tag: &str) -> PathBuf {
    for base in ["/dev/shm", "/tmp"] {
        let d = PathBuf::from(base).join(format!("vh-{}-{}", tag, std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        if std::fs::create_dir_all(&d).is_ok() && std::fs::write(d.join("probe"), b"x").is_ok() {
            let _ = std::fs::remove_file(d.join("probe"));
            let d = d.canonicalize().expect("scratch directory");
            std::env::set_current_dir(&d).expect("scratch directory");
            return d;
        }
    }
    panic!("no scratch directory");
}

macro_rules! registry {
    ($($id:literal => $t:ty),* $(,)?) => {
        pub const IDS: &[&str] = &[$($id),*];
        pub fn run(id: &str, env: &Env) -> Option<i32> {
            match id { $($id => Some(engine::run::<$t>(env)),)* _ => None }
        }
        pub fn replay(id: &str, env: &Env, f: &std::path::Path) -> Option<i32> {
            match id { $($id => Some(engine::replay::<$t>(env, f)),)* _ => None }
        }
        /// A closure that runs one fuzzer input.
        pub fn fuzzer(id: &str, env: Env) -> Option<Box<dyn FnMut(&[u8]) -> bool>> {
            match id {
                $($id => {
                    use vcore::engine::Prop;
                    let strat = <$t>::strategy(Tier::Quick);
                    Some(Box::new(move |data: &[u8]| {
                        let d = env.scratch.join("fuzz");
                        let _ = std::fs::create_dir_all(&d);
                        let mut ctx = engine::Ctx::new(d);
                        engine::fuzz_one::<$t>(&env, &strat, data, &mut ctx)
                    }))
                })*
                _ => None,
            }
        }
    };
}

registry! {
    "C01" => props::edits::C01,
    "C02" => props::edits::C02,
    "C03" => props::edits::C03,
    "C04" => props::history::C04,
    "C05" => props::history::C05,
    "C06" => props::history::C06,
    "C07" => props::history::C07,
    "C08" => props::files::C08,
    "C09" => props::files::C09,
    "C10" => props::cursors::C10,
    "C12" => props::cursors::C12,
    "C13" => props::cursors::C13,
    "C11" => props::history::C11,
    "C14" => props::query::C14,
    "C15" => props::tokens::C15,
    "C16" => props::tokens::C16,
    "C17" => props::tokens::C17,
    "C19" => props::query::C19,
    "C27" => props::query::C27,
    "C18" => props::edits::C18,
    "C20" => props::workspace::C20,
    "C21" => props::workspace::C21,
    "C22" => props::workspace::C22,
    "C23" => props::workspace::C23,
    "C26" => props::workspace::C26,
    "C24" => props::edits::C24,
    "C25" => props::edits::C25,
    "C28" => props::extra::C28,
    "C29" => props::extra::C29,
    "C30" => props::disk::C30,
    "C31" => props::apart::C31,
}

fn usage() -> i32 {
    eprintln!("usage: harness run <ID> [--tier quick|thorough] [--scale X] [--seed N] [--no-evidence] | replay <file> | list");
    2
}

pub fn run_main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    engine::install_panic_hook();
    let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let tier_env = std::env::var("VERIF_TIER").unwrap_or_default();
    let mut tier = if tier_env == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut scale = 1.0;
    let mut write_evidence = true;
    let mut pos = Vec::new();
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => match it.next().as_deref() {
                Some("quick") => tier = Tier::Quick,
                Some("thorough") => tier = Tier::Thorough,
                _ => return usage(),
            },
            "--scale" => scale = it.next().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            "--seed" => seed = it.next().and_then(|s| s.parse().ok()).unwrap_or(1),
            "--no-evidence" => write_evidence = false,
            _ => pos.push(a),
        }
    }
    let pos: Vec<&str> = pos.iter().map(|s| s.as_str()).collect();
    match pos.as_slice() {
        ["list"] => {
            for i in IDS {
                println!("{i}");
            }
            0
        }
        ["run", id] => {
            if !IDS.contains(id) {
                return usage();
            }
            // The cases run in a process of their own, watched by this one.
            if let Some(d) = std::env::var_os("VERIF_CHILD") {
                let env = Env { root, scratch: PathBuf::from(d), seed, tier, scale, write_evidence };
                std::env::remove_var("VERIF_CHILD");
                return run(id, &env).unwrap_or_else(usage);
            }
            let env = Env { root, scratch: scratch(id), seed, tier, scale, write_evidence };
            let code = supervise::run(id, &env);
            let _ = std::fs::remove_dir_all(&env.scratch);
            code
        }
        ["replay", file] => {
            let f = std::fs::canonicalize(file).unwrap_or_else(|_| PathBuf::from(file));
            let id = std::fs::read_to_string(&f)
                .ok()
                .and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok())
                .and_then(|v| v.get("property").and_then(|p| p.as_str()).map(|s| s.to_string()));
            let Some(id) = id else {
                eprintln!("ERROR: {} names no property", f.display());
                return 4;
            };
            // Within the directory of the process that asked, if any: it is cleaned up there.
            let own = std::env::var_os("VERIF_CHILD").map(PathBuf::from).filter(|d| std::fs::create_dir_all(d).is_ok());
            std::env::remove_var("VERIF_CHILD");
            if let Some(d) = &own {
                std::env::set_current_dir(d).expect("scratch directory");
            }
            let env = Env { root, scratch: own.unwrap_or_else(|| scratch("replay")), seed, tier, scale, write_evidence };
            let code = replay(&id, &env, &f).unwrap_or_else(usage);
            let _ = std::fs::remove_dir_all(&env.scratch);
            code
        }
        _ => usage(),
    }
}
