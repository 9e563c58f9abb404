//! Runs the check in a child process, so that a case which ends the process (abort, stack overflow,
//! bad memory access, an exit in the middle) still gets a verdict and a replay file.
//! Every case is written to a journal before it runs; after such a death the journaled cases are run
//! again one by one, each in a process of its own, and the one that fails is reported.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::OnceLock;

/// a child's own verdicts are offset by this, so that an exit from inside the code under test is told apart
pub const BASE: i32 = 40;
const CHILD: &str = "PV_CHILD";
static PROP: OnceLock<String> = OnceLock::new();

pub fn is_child() -> bool {
    std::env::var_os(CHILD).is_some()
}

/// Exit with a verdict.
pub fn leave(code: i32) -> ! {
    std::process::exit(if is_child() { BASE + code } else { code })
}

pub fn journal_for(prop: &str) {
    let _ = PROP.set(prop.to_string());
}

thread_local! {
    static SLOT: RefCell<Option<File>> = const { RefCell::new(None) };
}

/// Note the case this thread is about to run.
pub fn note(sub: &str, case: &Value) {
    let (Some(prop), Some(dir)) = (PROP.get(), std::env::var_os(CHILD)) else { return };
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
            let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            *s = File::create(Path::new(&dir).join(format!("{n:06}.json"))).ok();
        }
        if let Some(f) = s.as_mut() {
            let body = json!({"property": prop, "sub": sub, "case": case}).to_string();
            let _ = f.set_len(0);
            let _ = f.write_all_at(body.as_bytes(), 0);
        }
    })
}

fn describe(s: &ExitStatus) -> String {
    match s.signal() {
        Some(n) => format!("the process was ended by signal {n}"),
        None => format!("the process left with code {} in the middle of a case", s.code().unwrap_or(-1)),
    }
}

fn verdict(s: &ExitStatus) -> Option<i32> {
    s.code().filter(|c| (BASE..BASE + 10).contains(c)).map(|c| c - BASE)
}

fn child(args: &[String], dir: &Path, quiet: bool) -> ExitStatus {
    let _ = std::io::stdout().flush();
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env(CHILD, dir)
        .stdout(if quiet { Stdio::null() } else { Stdio::inherit() })
        .status()
        .unwrap_or_else(|e| {
            println!("no verdict: cannot start the check: {e}");
            std::process::exit(2)
        })
}

/// Run this program's arguments in a child and give the exit code.
pub fn supervise(args: &[String]) -> i32 {
    let base = crate::engine::verif_dir().join(".replays");
    let dir = base.join(format!("running-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let st = child(args, &dir, false);
    let code = verdict(&st).unwrap_or_else(|| died(args, &st, &dir, &base));
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn died(args: &[String], st: &ExitStatus, dir: &Path, base: &Path) -> i32 {
    println!("{}", describe(st));
    if args.first().map(|s| s.as_str()) == Some("replay") {
        let file = &args[1];
        let prop = std::fs::read_to_string(file)
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .and_then(|v| v["property"].as_str().map(String::from))
            .unwrap_or_default();
        println!("VIOLATION property={prop} replay={file}");
        return 1;
    }
    let prop = &args[1];
    let mut files: Vec<PathBuf> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    // the threads noted last are the ones that were running
    files.sort_by_key(|p| std::cmp::Reverse(p.metadata().and_then(|m| m.modified()).ok()));
    let again = dir.join("again");
    let _ = std::fs::create_dir_all(&again);
    let mut first = None;
    for f in files.iter().take(64) {
        let Ok(text) = std::fs::read_to_string(f) else { continue };
        let Ok(mut v) = serde_json::from_str::<Value>(&text) else { continue };
        let s = child(&["replay".into(), f.display().to_string()], &again, true);
        let bad = verdict(&s) != Some(0);
        if bad {
            v["message"] = json!(if verdict(&s).is_none() { describe(&s) } else { "fails".into() });
            return report(prop, &v, base);
        }
        first.get_or_insert(v);
    }
    // a signal from outside (memory, time): no verdict unless a case brings it back
    match (st.signal(), first) {
        (Some(1 | 2 | 9 | 15), _) | (_, None) => {
            println!("no verdict: {}", describe(st));
            2
        }
        (_, Some(mut v)) => {
            v["message"] = json!(format!("{}; not seen again when this case ran alone", describe(st)));
            report(prop, &v, base)
        }
    }
}

fn report(prop: &str, v: &Value, base: &Path) -> i32 {
    let p = base.join(format!(
        "{}-{}-{:016x}.json",
        prop,
        v["sub"].as_str().unwrap_or("x"),
        crate::engine::hash64(&v["case"].to_string())
    ));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(v).unwrap());
    println!("{} {}: {}", prop, v["sub"].as_str().unwrap_or("?"), v["message"].as_str().unwrap_or("?"));
    println!("VIOLATION property={} replay={}", prop, p.display());
    1
}
