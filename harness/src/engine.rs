//! Generic driver: a sub-check is a proptest strategy, a run function and a fixed number of cases.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Default, Clone)]
pub struct Out {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}

impl Out {
    pub fn new(nontrivial: bool) -> Self {
        Self {
            nontrivial,
            labels: vec![],
        }
    }
    pub fn label(mut self, s: impl Into<String>) -> Self {
        self.labels.push(s.into());
        self
    }
    pub fn label_if(self, c: bool, s: &str) -> Self {
        if c {
            self.label(s)
        } else {
            self
        }
    }
}

pub type R = Result<Out, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub struct RunCfg {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub scale: f64,
}

pub struct Failure {
    pub sub: String,
    pub msg: String,
    pub case: Value,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub truncated: bool,
    pub wall: f64,
}

pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub exhaustive: bool,
    pub run: Box<dyn Fn(&RunCfg) -> Report + Sync>,
    pub replay: Box<dyn Fn(&Value) -> Result<(), String> + Sync>,
}

pub struct Check {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

/// The cases that are running now, for the watchdog.
struct Running {
    id: u64,
    since: Instant,
    sub: &'static str,
    case: Box<dyn Fn() -> Value + Send>,
}
static RUNNING: Mutex<Vec<Running>> = Mutex::new(vec![]);
static NEXT: AtomicU64 = AtomicU64::new(0);

/// Run one case, known to the watchdog while it runs.
fn watched<C, T>(sub: &'static str, c: &C, f: impl FnOnce() -> T) -> T
where
    C: Serialize + Clone + Send + 'static,
{
    let id = NEXT.fetch_add(1, Ordering::Relaxed);
    let copy = c.clone();
    crate::supervise::note(sub, &serde_json::to_value(c).unwrap());
    RUNNING.lock().unwrap().push(Running {
        id,
        since: Instant::now(),
        sub,
        case: Box::new(move || serde_json::to_value(&copy).unwrap()),
    });
    let r = f();
    RUNNING.lock().unwrap().retain(|x| x.id != id);
    r
}

/// longest time one case may take
pub const CASE_LIMIT_S: u64 = 420;

pub fn hash64<T: Hash>(t: &T) -> u64 {
    // FNV-1a through the Hasher interface: stable across processes
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

fn seed_bytes(parts: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut s = 0x9E3779B97F4A7C15u64;
    for p in parts {
        s = crate::refm::mix(s ^ *p);
    }
    for i in 0..4 {
        s = crate::refm::mix(s.wrapping_add(i as u64 + 1));
        out[i * 8..i * 8 + 8].copy_from_slice(&s.to_le_bytes());
    }
    out
}

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        format!("panic: {s}")
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("panic: {s}")
    } else {
        "panic".to_string()
    }
}

/// Run `f` and turn a panic into an Err.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => Err(panic_msg(e)),
    }
}

/// true if `f` panics
pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub struct Opt {
    pub workers: usize,
    pub shrink: u32,
}

impl Default for Opt {
    fn default() -> Self {
        Self {
            workers: 8,
            shrink: 300,
        }
    }
}

pub fn sub<C>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    strat: impl Fn() -> BoxedStrategy<C> + Sync + 'static,
    f: impl Fn(&C) -> R + Sync + Send + Copy + 'static,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
{
    sub_opt(name, rule, quick, thorough, Opt::default(), strat, f)
}

pub fn sub_opt<C>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    thorough: u32,
    opt: Opt,
    strat: impl Fn() -> BoxedStrategy<C> + Sync + 'static,
    f: impl Fn(&C) -> R + Sync + Send + Copy + 'static,
) -> Sub
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
{
    let run = move |cfg: &RunCfg| -> Report {
        let t0 = Instant::now();
        let total = (((if cfg.thorough { thorough } else { quick }) as f64 * cfg.scale).ceil()
            as u32)
            .max(1);
        let workers = if slow(cfg.prop) { 1 } else { opt.workers.min(total as usize).max(1) };
        let stop = AtomicBool::new(false);
        let truncated = AtomicBool::new(false);
        let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let labels: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let samples: Mutex<Vec<Value>> = Mutex::new(vec![]);
        let evals = AtomicU64::new(0);
        let failures: Mutex<Vec<(usize, Failure)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for w in 0..workers {
                let cases = total / workers as u32
                    + if (w as u32) < total % workers as u32 {
                        1
                    } else {
                        0
                    };
                let (stop, truncated, seen, labels, samples, evals, failures) = (
                    &stop, &truncated, &seen, &labels, &samples, &evals, &failures,
                );
                let strat = &strat;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let config = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: opt.shrink,
                            max_shrink_time: 60_000,
                            max_global_rejects: 100_000,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(
                            RngAlgorithm::ChaCha,
                            &seed_bytes(&[
                                cfg.seed,
                                hash64(&cfg.prop),
                                hash64(&name),
                                w as u64,
                            ]),
                        );
                        let mut runner = TestRunner::new_with_rng(config, rng);
                        let failed = AtomicBool::new(false);
                        let last: Mutex<Option<(C, String)>> = Mutex::new(None);
                        let res = runner.run(&strat(), |c: C| {
                            let mine = failed.load(Ordering::Relaxed);
                            if !mine && stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            if !mine && Instant::now() > cfg.deadline {
                                truncated.store(true, Ordering::Relaxed);
                                return Ok(());
                            }
                            let r = watched(name, &c, || guarded(|| f(&c)));
                            let skipped = crate::noise::take_skipped();
                            match r {
                                Ok(o) => {
                                    if !mine {
                                        evals.fetch_add(1, Ordering::Relaxed);
                                        let o = o.label_if(skipped, "some noise comparison left out: prediction beyond the torus");
                                        if o.nontrivial {
                                            let v = serde_json::to_value(&c).unwrap();
                                            let s = v.to_string();
                                            if seen.lock().unwrap().insert(hash64(&s)) {
                                                let mut sm = samples.lock().unwrap();
                                                if sm.len() < 3 {
                                                    if s.len() < 1500 {
                                                        sm.push(v);
                                                    } else {
                                                        sm.push(Value::String(
                                                            s.chars().take(1500).collect::<String>()
                                                                + "...",
                                                        ));
                                                    }
                                                }
                                            }
                                        }
                                        let mut l = labels.lock().unwrap();
                                        for x in o.labels {
                                            *l.entry(x).or_insert(0) += 1;
                                        }
                                    }
                                    Ok(())
                                }
                                Err(m) => {
                                    failed.store(true, Ordering::Relaxed);
                                    stop.store(true, Ordering::Relaxed);
                                    *last.lock().unwrap() = Some((c, m.clone()));
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => {
                                failures.lock().unwrap().push((
                                    w,
                                    Failure {
                                        sub: name.to_string(),
                                        msg: reason.message().to_string(),
                                        case: serde_json::to_value(&case).unwrap(),
                                    },
                                ));
                            }
                            Err(TestError::Abort(reason)) => {
                                // generator problem (or failure that went away): no verdict
                                eprintln!("sub-check {name}: generator aborted: {reason}");
                                crate::supervise::leave(3);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let mut fs = failures.into_inner().unwrap();
        fs.sort_by_key(|x| x.0);
        let distinct = seen.into_inner().unwrap().len() as u64;
        Report {
            evaluations: evals.into_inner(),
            distinct,
            labels: labels.into_inner().unwrap(),
            samples: samples.into_inner().unwrap(),
            failure: fs.into_iter().next().map(|x| x.1),
            truncated: truncated.into_inner(),
            wall: t0.elapsed().as_secs_f64(),
        }
    };
    let replay = move |v: &Value| -> Result<(), String> {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("bad replay file: {e}"))?;
        watched(name, &c, || guarded(|| f(&c))).map(|_| ())
    };
    Sub {
        name,
        rule,
        exhaustive: false,
        run: Box::new(run),
        replay: Box::new(replay),
    }
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|_| "/verif".into())
}

fn write_replay(prop: &str, f: &Failure) -> std::path::PathBuf {
    let dir = verif_dir().join(".replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": prop, "sub": f.sub, "message": f.msg, "case": f.case});
    let s = serde_json::to_string_pretty(&body).unwrap();
    let p = dir.join(format!("{}-{}-{:016x}.json", prop, f.sub, hash64(&f.case.to_string())));
    std::fs::write(&p, s).unwrap();
    p
}

/// without the hooks every access to an ORAM makes 65535 buffers
fn slow(prop: &str) -> bool {
    !crate::hooks::HOOKED && matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C30")
}

/// Returns the exit code.
pub fn run_check(c: &Check, seed: u64, thorough: bool, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let budget = std::env::var("PV_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 36_000u64 } else { 560 });
    let scale = std::env::var("PV_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0f64)
        * if slow(c.id) { 0.04 } else { 1.0 };
    let cfg = RunCfg {
        prop: c.id,
        seed,
        thorough,
        deadline: t0 + std::time::Duration::from_secs(budget),
        scale,
    };
    // watchdog: a case that does not end is a violation (every case ends within seconds on a tree that works)
    let hard = budget + 300;
    let prop = c.id;
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let hung = RUNNING
            .lock()
            .unwrap()
            .iter()
            .find(|x| x.since.elapsed().as_secs() > CASE_LIMIT_S)
            .map(|x| Failure {
                sub: x.sub.to_string(),
                msg: format!("this case has not finished after {CASE_LIMIT_S} s"),
                case: (x.case)(),
            });
        if let Some(f) = hung {
            let p = write_replay(prop, &f);
            println!("{} {}: {}", prop, f.sub, f.msg);
            println!("VIOLATION property={} replay={}", prop, p.display());
            crate::supervise::leave(1);
        }
        if t0.elapsed().as_secs() > hard {
            println!("no verdict: out of time");
            crate::supervise::leave(2);
        }
    });

    let mut failure: Option<Failure> = None;
    let mut subs = vec![];
    let (mut ev, mut di) = (0u64, 0u64);
    let mut samples = vec![];
    let mut truncated = false;
    let mut regress = 0u64;

    // saved cases first
    let dir = verif_dir().join("regressions").join(c.id);
    if let Ok(rd) = std::fs::read_dir(&dir) {
        let mut files: Vec<_> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
        files.sort();
        for p in files {
            let Ok(s) = std::fs::read_to_string(&p) else { continue };
            let Ok(v) = serde_json::from_str::<Value>(&s) else { continue };
            let Some(sub) = c.subs.iter().find(|x| v["sub"] == x.name) else { continue };
            regress += 1;
            match (sub.replay)(&v["case"]) {
                Ok(()) => {}
                Err(m) if m.starts_with("bad replay file") => {
                    println!("skipped {}: {m}", p.display());
                }
                Err(m) => {
                    failure = Some(Failure {
                        sub: sub.name.to_string(),
                        msg: m,
                        case: v["case"].clone(),
                    });
                    break;
                }
            }
        }
    }
    ev += regress;

    for s in &c.subs {
        if failure.is_some() {
            break;
        }
        if let Some(o) = only {
            if o != s.name {
                continue;
            }
        }
        let r = (s.run)(&cfg);
        ev += r.evaluations;
        di += r.distinct;
        truncated |= r.truncated;
        for x in r.samples.iter().take(2) {
            samples.push(json!({"sub": s.name, "case": x}));
        }
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1}s{} {:?}",
            c.id,
            s.name,
            r.evaluations,
            r.distinct,
            r.wall,
            if r.truncated { " (time budget reached)" } else { "" },
            r.labels
        );
        subs.push(json!({
            "sub": s.name, "rule": s.rule, "evaluations": r.evaluations,
            "distinct_nontrivial": r.distinct, "labels": r.labels, "wall_s": r.wall,
            "stopped_at_time_budget": r.truncated, "exhaustive": s.exhaustive,
        }));
        failure = r.failure;
    }

    let rule = c
        .subs
        .iter()
        .map(|s| format!("{}: {}", s.name, s.rule))
        .collect::<Vec<_>>()
        .join(" | ");
    let ev_json = json!({
        "property": c.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": di,
            "rule": rule,
            "samples": samples,
            "subs": subs,
            "saved_cases_replayed": regress,
            "built_with_hooks": crate::hooks::HOOKED,
            "stopped_at_time_budget": truncated,
        },
        "assumptions": c.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    if only.is_none() {
        let ed = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&ed);
        let f = ed.join(format!("{}.json", c.id));
        std::fs::write(&f, serde_json::to_string_pretty(&ev_json).unwrap() + "\n").unwrap();
    }
    match failure {
        Some(f) => {
            let p = write_replay(c.id, &f);
            println!("{} {}: {}", c.id, f.sub, f.msg);
            println!("VIOLATION property={} replay={}", c.id, p.display());
            1
        }
        None => {
            println!(
                "{}: held on {} cases ({} distinct non-trivial), {:.1}s",
                c.id,
                ev,
                di,
                t0.elapsed().as_secs_f64()
            );
            0
        }
    }
}
