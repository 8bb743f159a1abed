//! Runs a check in a child process. When that ends without a verdict (killed by a signal,
//! out of memory or stack, or stuck), the cases it was busy with are run again, each in a
//! process of its own, to find the one that does it.
use serde_json::Value;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};
use vcore::engine::{self, Env};

fn child(args: &[&str], memory: u64) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args);
    // SAFETY: only async-signal-safe calls.
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: memory, rlim_max: memory };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    c
}

pub fn run(id: &str, env: &Env) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let status = child(&args, 16 << 30).env("VERIF_CHILD", &env.scratch).current_dir(&env.scratch).status();
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR: the check cannot be started: {e}");
            return 7;
        }
    };
    match status.code() {
        Some(c) if c != engine::STUCK && c < 100 => c,
        _ => judge(id, env, status),
    }
}

fn report(id: &str, env: &Env, case: &Value, msg: &str) -> i32 {
    let f = engine::write_raw(env, id, case, msg);
    println!("property {id} fails on a generated case: {msg}");
    println!("case (not minimised): {}", engine::truncate(&case.to_string(), 2000));
    println!("VIOLATION property={id} replay={}", f.display());
    1
}

fn load(f: &Path) -> Option<Value> {
    serde_json::from_str(&std::fs::read_to_string(f).ok()?).ok()
}

fn judge(id: &str, env: &Env, status: ExitStatus) -> i32 {
    let dir = engine::slots(&env.scratch);
    // A failure that was found before, but not minimised.
    if let Some(v) = load(&dir.join("failed.json")) {
        return report(id, env, &v["case"], v["message"].as_str().unwrap_or_default());
    }
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let mut running: Vec<(Value, Option<Child>, Option<ExitStatus>)> = vec![];
    for f in files {
        let Some(case) = load(&f) else { continue };
        let doc = serde_json::json!({ "property": id, "case": case });
        let r = f.with_extension("replay");
        if std::fs::write(&r, doc.to_string()).is_ok() {
            let c = child(&["replay", r.to_str().unwrap_or_default()], 3 << 30)
                .env("VERIF_CHILD", f.with_extension("dir"))
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn();
            running.push((case, c.ok(), None));
        }
    }
    let t = Instant::now();
    while t.elapsed() < engine::PATIENCE {
        let mut busy = false;
        for (case, c, s) in &mut running {
            if let (Some(c), None) = (c.as_mut(), &s) {
                *s = c.try_wait().ok().flatten();
                if let Some(s) = s {
                    let how = match (s.code(), s.signal()) {
                        (Some(0), _) => continue,
                        (Some(1), _) => "the case fails when it is run again on its own".to_string(),
                        (_, Some(n)) => format!("the case ends the process with signal {n}"),
                        (c, _) => format!("the case ends the process with code {c:?}"),
                    };
                    let case = case.clone();
                    end(running);
                    return report(id, env, &case, &how);
                }
                busy = true;
            }
        }
        if !busy {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let stuck = running.iter().find(|(_, c, s)| c.is_some() && s.is_none()).map(|r| r.0.clone());
    end(running);
    if let Some(case) = stuck {
        return report(id, env, &case, &format!("the case does not end within {} s", engine::PATIENCE.as_secs()));
    }
    eprintln!("ERROR: property {id}: the run ended without a verdict ({status}), and no case of it does so on its own");
    3
}

fn end(running: Vec<(Value, Option<Child>, Option<ExitStatus>)>) {
    for (_, c, _) in running {
        if let Some(mut c) = c {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}
