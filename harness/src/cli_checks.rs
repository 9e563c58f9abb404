//! C28: the command-line program, run as a child process.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::misc_checks::*;
use crate::oramh::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const HEADER: &str = "standard_deviation,polynomial_size,base_log,level_count,key_switch_base_log,key_switch_level_count,negs_base_log,negs_level_count,plaintext_modulus,secure_seed,mode,item_count,query_count,rows,cols,n,setup_duration,server_duration,response_duration,final_noise";

fn bin() -> PathBuf {
    std::env::var("PV_BIN")
        .map(Into::into)
        .unwrap_or_else(|_| verif_dir().join(".build/cli/release/panacea"))
}

/// A scratch directory, removed when dropped.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        static K: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("pv-cli-{}-{}", std::process::id(), K.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("cannot create a scratch directory");
        Self(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Ran {
    ok: bool,
    out: String,
    err: String,
}

/// Run the program in a directory of its own, with bounded memory and time.
fn run(dir: &Scratch, args: &[String], threads: u32, limit_s: u64, mem_gb: u64) -> Result<Ran, String> {
    let (o, e) = (dir.0.join("stdout"), dir.0.join("stderr"));
    let create = |p: &PathBuf| std::fs::File::create(p).map_err(|x| format!("scratch: {x}"));
    let mut c = Command::new("sh");
    c.arg("-c")
        .arg(format!("ulimit -c 0; ulimit -v {}; exec \"$0\" \"$@\"", mem_gb << 20))
        .arg(bin())
        .args(args)
        .current_dir(&dir.0)
        .env_remove("RUST_BACKTRACE")
        .env_remove("RAYON_NUM_THREADS")
        .stdin(Stdio::null())
        .stdout(create(&o)?)
        .stderr(create(&e)?);
    if threads > 0 {
        c.env("RAYON_NUM_THREADS", threads.to_string());
    }
    let mut child = c.spawn().expect("cannot start the program");
    let t0 = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(limit_s) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("no end after {limit_s} s: {args:?}"));
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let read = |p: &PathBuf| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    Ok(Ran { ok: status.success(), out: read(&o), err: read(&e) })
}

fn floor_log2(x: u64) -> u32 {
    let mut k = 0;
    while k < 63 && x >> (k + 1) != 0 {
        k += 1;
    }
    k
}

/// the columns before the measurements
fn row_start(o: &OP, t: &TP) -> String {
    let v = t.v;
    let tf = format!("{},{},{},{},{},{},{},{},2^{},{},", t.std, t.n, v[0], v[1], v[2], v[3], v[4], v[5], floor_log2(t.t), t.secure);
    let or = match *o {
        OP::S(i, _) => format!("0,{i},-,-,-,2^{},", floor_log2(i as u64)),
        OP::M(i, q, _) => format!("1,{i},{q},-,-,2^{},", floor_log2(i as u64)),
        OP::B(r, c, _) => {
            let i = r * c / 3;
            format!("2,{i},-,{r},{c},2^{},", floor_log2(i as u64))
        }
    };
    tf + &or
}

/// what a dry run of these runs prints
fn dry_text(runs: &[(OP, TP)]) -> String {
    let mut s = format!("{HEADER}\n");
    for (o, t) in runs {
        s += &row_start(o, t);
        s += "-,-,-,-\n";
    }
    s
}

fn expand(l: &[(Vec<OP>, Vec<TP>)]) -> Vec<(OP, TP)> {
    let mut v = vec![];
    for (os, ts) in l {
        for o in os {
            for t in ts {
                v.push((o.clone(), t.clone()));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- flags

/// A flag that is given, or left at its default; `style` picks `--f v` or `--f=v`.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flags {
    mode: Option<u8>,
    item_count: Option<usize>,
    query_count: Option<usize>,
    rows: Option<usize>,
    cols: Option<usize>,
    std: Option<f64>,
    n: Option<usize>,
    v: [Option<usize>; 6],
    t: Option<u64>,
    secure: bool,
    verbose: bool,
    style: u32,
    order: u32,
}

impl Flags {
    fn args(&self, params: Option<&str>, dry: bool) -> Vec<String> {
        let mut groups: Vec<Vec<String>> = vec![];
        let style = self.style;
        let mut add = |k: usize, name: &str, v: Option<String>| {
            if let Some(v) = v {
                groups.push(if style >> (k % 32) & 1 == 1 { vec![format!("--{name}={v}")] } else { vec![format!("--{name}"), v] });
            }
        };
        add(0, "mode", self.mode.map(|x| x.to_string()));
        add(1, "item-count", self.item_count.map(|x| x.to_string()));
        add(2, "query-count", self.query_count.map(|x| x.to_string()));
        add(3, "rows", self.rows.map(|x| x.to_string()));
        add(4, "cols", self.cols.map(|x| x.to_string()));
        add(5, "standard-deviation", self.std.map(|x| x.to_string()));
        add(6, "polynomial-size", self.n.map(|x| x.to_string()));
        let names = ["base-log", "level-count", "key-switch-base-log", "key-switch-level-count", "negs-base-log", "negs-level-count"];
        for (k, nm) in names.iter().enumerate() {
            add(7 + k, nm, self.v[k].map(|x| x.to_string()));
        }
        add(13, "plaintext-modulus", self.t.map(|x| x.to_string()));
        add(14, "params", params.map(|x| x.to_string()));
        for (on, f) in [(self.secure, "--secure-seed"), (self.verbose, "--verbose"), (dry, "--dryrun")] {
            if on {
                groups.push(vec![f.to_string()]);
            }
        }
        if self.order != 0 {
            crate::refm::Sm(self.order as u64).shuffle(&mut groups);
        }
        groups.into_iter().flatten().collect()
    }
    /// the run these flags ask for
    fn run(&self) -> (OP, TP) {
        let ic = self.item_count.unwrap_or(4096);
        let o = match self.mode.unwrap_or(2) {
            0 => OP::S(ic, 1),
            1 => OP::M(ic, self.query_count.unwrap_or(1), 1),
            _ => OP::B(self.rows.unwrap_or(96), self.cols.unwrap_or(64), 1),
        };
        let d = [5usize, 9, 5, 11, 5, 11];
        let mut v = [0; 6];
        for k in 0..6 {
            v[k] = self.v[k].unwrap_or(d[k]);
        }
        (o, TP { std: self.std.unwrap_or(-55.0), n: self.n.unwrap_or(2048), v, t: self.t.unwrap_or(256), secure: true })
    }
}

fn size() -> BoxedStrategy<usize> {
    prop_oneof![4 => 1usize..5000, 2 => (0u32..40).prop_map(|k| 1usize << k), 1 => any::<u32>().prop_map(|x| x as usize + 1), 1 => (0u32..40).prop_map(|k| (2usize << k) - 1)].boxed()
}

fn side() -> BoxedStrategy<usize> {
    // rows*cols stays in range, and there is at least one item
    prop_oneof![4 => 2usize..5000, 2 => (1u32..20).prop_map(|k| 1usize << k), 1 => (2usize..1 << 31)].boxed()
}

fn dry_op() -> BoxedStrategy<OP> {
    let it = || prop_oneof![4 => Just(1usize), 2 => 1usize..6, 1 => 1usize..10_000];
    prop_oneof![
        (size(), it()).prop_map(|(a, i)| OP::S(a, i)),
        (size(), 0usize..5000, it()).prop_map(|(a, q, i)| OP::M(a, q, i)),
        (side(), side(), it()).prop_map(|(r, c, i)| OP::B(r, c, i)),
    ]
    .boxed()
}

fn dry_tp() -> BoxedStrategy<TP> {
    some_tp().prop_map(|mut t| {
        t.t = t.t.max(1);
        t
    })
    .boxed()
}

fn flags() -> BoxedStrategy<Flags> {
    use proptest::option::of;
    let v = || of(prop_oneof![6 => 0usize..64, 1 => any::<u32>().prop_map(|x| x as usize)]);
    (
        (of(0u8..=2), of(size()), of(0usize..5000), of(side()), of(side())),
        (of(dry_tp().prop_map(|t| t.std)), of(0usize..5000), [v(), v(), v(), v(), v(), v()], of(dry_tp().prop_map(|t| t.t))),
        (any::<bool>(), any::<bool>(), any::<u32>(), any::<u32>()),
    )
        .prop_map(|((mode, item_count, query_count, rows, cols), (std, n, v, t), (secure, verbose, style, order))| Flags {
            mode, item_count, query_count, rows, cols, std, n, v, t, secure, verbose, style, order,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DryFlags {
    f: Flags,
    /// no parameter file, the empty path, or a path that does not exist
    missing: u8,
}

fn same(what: &str, args: &[String], r: &Ran, want: &str) -> Result<(), String> {
    ensure!(r.ok, "{what}: {args:?} fails; stdout {:?}, stderr {:?}", r.out, r.err);
    ensure!(r.out == want, "{what}: {args:?} prints\n{}\nexpected\n{want}", r.out);
    Ok(())
}

fn dry_flags(k: &DryFlags) -> R {
    let d = Scratch::new();
    let p = match k.missing {
        0 => None,
        1 => Some(""),
        2 => Some("nothing-here.json"),
        _ => Some("no/such/dir/params.json"),
    };
    let args = k.f.args(p, true);
    let r = run(&d, &args, 0, 120, 16)?;
    let (o, t) = k.f.run();
    let given = k.f.v.iter().filter(|x| x.is_some()).count();
    let m = match o {
        OP::S(..) => "single",
        OP::M(..) => "multi",
        OP::B(..) => "batch",
    };
    same("dry run from flags", &args, &r, &dry_text(&[(o, t)]))?;
    Ok(Out::new(given > 0).label(m).label_if(k.missing >= 2, "path that does not exist"))
}

// ---------------------------------------------------------------- files

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DryFile {
    l: Vec<(Vec<OP>, Vec<TP>)>,
    f: Flags,
    sub_dir: bool,
}

fn put(d: &Scratch, name: &str, body: &[u8]) -> Result<(), String> {
    let p = d.0.join(name);
    if let Some(q) = p.parent() {
        std::fs::create_dir_all(q).map_err(|e| e.to_string())?;
    }
    std::fs::write(p, body).map_err(|e| e.to_string())
}

fn dry_file(k: &DryFile) -> R {
    let d = Scratch::new();
    let name = if k.sub_dir { "a dir/p.json" } else { "params.json" };
    put(&d, name, list_json(&k.l).as_bytes())?;
    let args = k.f.args(Some(name), true);
    let r = run(&d, &args, 0, 120, 16)?;
    let runs = expand(&k.l);
    same(&format!("dry run from {}", list_json(&k.l)), &args, &r, &dry_text(&runs))?;
    Ok(Out::new(runs.len() > 1)
        .label(bucket("runs", runs.len()))
        .label_if(runs.iter().any(|(_, t)| !t.secure), "insecure seed"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadFile {
    l: Vec<(Vec<OP>, Vec<TP>)>,
    kind: u8,
    at: u32,
    f: Flags,
}

fn bad_file(k: &BadFile) -> R {
    let d = Scratch::new();
    let good = list_json(&k.l);
    let swap = |a: &str, b: &str| good.replacen(a, b, 1).into_bytes();
    let (name, body): (&str, Vec<u8>) = match k.kind {
        0 => ("empty", vec![]),
        1 => ("cut short", good.as_bytes()[..k.at as usize % good.len()].to_vec()),
        2 => ("trailing text", format!("{good} x").into_bytes()),
        3 => ("not UTF-8", { let mut b = swap("polynomial_size", "polynomial_siz@"); if let Some(x) = b.iter_mut().find(|x| **x == b'@') { *x = 0xff } else { b.push(0xff) } b }),
        4 => ("missing field", swap("\"base_log\":", "\"bass_log\":")),
        5 => ("negative size", swap("\"level_count\":", "\"level_count\":-")),
        6 => ("text for a number", swap("\"polynomial_size\":", "\"polynomial_size\":\"2048\",\"q\":")),
        7 => ("unknown mode", swap("{\"SingleQuery\"", "{\"Query\"")),
        8 => ("object", b"{}".to_vec()),
        9 => ("flat list", b"[1, 2]".to_vec()),
        _ => ("text", b"standard_deviation = -55\n".to_vec()),
    };
    // a change that did not apply leaves a valid list: cut it instead
    let body = if body == good.as_bytes() || (k.kind == 5 && !good.contains("level_count")) { good.as_bytes()[..good.len() - 1].to_vec() } else { body };
    put(&d, "params.json", &body)?;
    let args = k.f.args(Some("params.json"), true);
    let r = run(&d, &args, 0, 120, 16)?;
    let default = (OP::B(384, 16, 1), TP { std: -55.0, n: 2048, v: [5, 9, 5, 11, 5, 11], t: 256, secure: true });
    same(&format!("malformed file ({name}) {:?}", String::from_utf8_lossy(&body)), &args, &r, &dry_text(&[default]))?;
    Ok(Out::new(!k.l.is_empty()).label(name))
}

// ---------------------------------------------------------------- real runs

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RealRun {
    o: OP,
    p: P,
    secure: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Real {
    /// one run per entry, or (when `by_flags`) the first one through flags
    runs: Vec<RealRun>,
    by_flags: bool,
    threads: u32,
    style: u32,
    order: u32,
    verbose: bool,
}

fn groups_of(o: &OP) -> (usize, usize, Vec<G>) {
    let lg = |x: usize| floor_log2(x as u64) as usize;
    match *o {
        OP::S(i, it) => (lg(i), 1, vec![G::One(0, None); it]),
        OP::M(i, q, it) => (lg(i), 1, vec![G::Multi(vec![(0, None); q]); it]),
        OP::B(_, c, it) => (lg(c), 3, vec![G::Batch(vec![0, 1], None); it]),
    }
}

fn tp_of(p: &P, secure: bool) -> TP {
    TP { std: p.std(), n: p.n(), v: [p.b, p.l, p.kb, p.kl, p.nb, p.nl], t: p.t(), secure }
}

fn noise_ok(what: &str, x: &str, r: &RealRun) -> Result<(), String> {
    let v: f64 = x.parse().map_err(|_| format!("{what}: noise {x:?} is not a number"))?;
    let (lc, h, g) = groups_of(&r.o);
    let lo = r.p.sigma().log2() - 3.0;
    let hi = final_noise(&r.p, lc, h, &g) + 6.0;
    let thr = 63.0 - r.p.logt as f64;
    ensure!(v.is_finite() && v < thr, "{what}: noise {v} bits, the threshold is {thr}");
    ensure!(v >= lo && v <= hi, "{what}: noise {v} bits, expected between {lo:.1} and {hi:.1}");
    Ok(())
}

fn real(k: &Real) -> R {
    let d = Scratch::new();
    let runs: Vec<(OP, TP)> = k.runs.iter().map(|r| (r.o.clone(), tp_of(&r.p, r.secure))).collect();
    let mut f = Flags { mode: None, item_count: None, query_count: None, rows: None, cols: None, std: None, n: None, v: [None; 6], t: None, secure: false, verbose: k.verbose, style: k.style, order: k.order };
    let args = if k.by_flags {
        let (o, t) = &runs[0];
        match *o {
            OP::S(i, _) => (f.mode, f.item_count) = (Some(0), Some(i)),
            OP::M(i, q, _) => (f.mode, f.item_count, f.query_count) = (Some(1), Some(i), Some(q)),
            OP::B(r, c, _) => (f.mode, f.rows, f.cols) = (Some(2), Some(r), Some(c)),
        }
        (f.std, f.n, f.t) = (Some(t.std), Some(t.n), Some(t.t));
        f.v = t.v.map(Some);
        f.args(None, false)
    } else {
        let l: Vec<_> = runs.iter().map(|(o, t)| (vec![o.clone()], vec![t.clone()])).collect();
        put(&d, "params.json", list_json(&l).as_bytes())?;
        f.args(Some("params.json"), false)
    };
    let mut tries = 0;
    let r = loop {
        let r = run(&d, &args, k.threads, 200, 24)?;
        tries += 1;
        // the hash is drawn at random: now and then the two items cannot both be placed
        if !r.ok && r.err.contains("all slots are taken") && tries < 5 && runs.iter().any(|(o, _)| matches!(o, OP::B(..))) {
            continue;
        }
        break r;
    };
    let what = format!("{args:?} with {:?}", k.runs);
    ensure!(r.ok, "{what} fails; stdout {:?}, stderr {:?}", r.out, r.err);
    let mut lines = r.out.lines();
    ensure!(lines.next() == Some(HEADER), "{what}: header in {:?}", r.out);
    for (rr, (o, t)) in k.runs.iter().zip(&runs) {
        let line = lines.next().unwrap_or("(end of output)");
        let start = row_start(o, t);
        let Some(rest) = line.strip_prefix(&start) else {
            return Err(format!("{what}: row {line:?}, expected it to start with {start:?}"));
        };
        let cols: Vec<&str> = rest.split(',').collect();
        ensure!(cols.len() == 4, "{what}: row {line:?} has {} measurements", cols.len());
        let mut times = vec![];
        for c in &cols[..3] {
            let v: f64 = c.parse().map_err(|_| format!("{what}: timing {c:?} is not a number"))?;
            ensure!(v.is_finite() && v >= 0.0 && v < 200.0, "{what}: timing {v}");
            times.push(v);
        }
        // the response is part of the server's work
        ensure!(times[2] <= times[1], "{what}: response took {} of the server's {} seconds", times[2], times[1]);
        noise_ok(&what, cols[3], rr)?;
        let (m, it) = match *o {
            OP::S(_, it) => (0, it),
            OP::M(_, _, it) => (1, it),
            OP::B(_, _, it) => (2, it),
        };
        for i in 1..it {
            let line = lines.next().unwrap_or("(end of output)");
            let start = format!("### mode={m}, iter={i}, noise=");
            let Some(x) = line.strip_prefix(&start) else {
                return Err(format!("{what}: line {line:?}, expected it to start with {start:?}"));
            };
            noise_ok(&format!("{what}, iteration {i}"), x, rr)?;
        }
    }
    ensure!(lines.next().is_none(), "{what}: extra output {:?}", r.out);
    let mut out = Out::new(k.runs.len() > 1 || k.by_flags || !k.runs[0].secure)
        .label_if(k.by_flags, "from flags")
        .label_if(tries > 1, "drawn again: items could not be placed");
    for x in &k.runs {
        out = out.label(match x.o {
            OP::S(_, it) => if it > 1 { "single, iterated" } else { "single" },
            OP::M(_, _, it) => if it > 1 { "multi, iterated" } else { "multi" },
            OP::B(_, _, it) => if it > 1 { "batch, iterated" } else { "batch" },
        });
    }
    Ok(out)
}

fn real_op() -> BoxedStrategy<OP> {
    let it = || prop_oneof![2 => Just(1usize), 2 => 2usize..5];
    prop_oneof![
        (1u32..7, it()).prop_map(|(k, i)| OP::S(1 << k, i)),
        (1u32..6, any::<u16>(), it()).prop_map(|(k, q, i)| {
            let n = 1usize << k;
            OP::M(n, 1 + q as usize % (n - 1).min(12), i)
        }),
        (1usize..7, it()).prop_map(|(r, i)| OP::B(3 * r, 2, i)),
        (2usize..6, it()).prop_map(|(r, i)| OP::B(3 * r, 4, i)),
        (3usize..5, it()).prop_map(|(r, i)| OP::B(3 * r, 8, i)),
    ]
    .boxed()
}

fn real_run(by_flags: bool, lo: usize, hi: usize) -> BoxedStrategy<RealRun> {
    (real_op(), oram_params(lo, hi, hi), any::<bool>())
        .prop_map(move |(mut o, p, secure)| {
            if by_flags {
                match &mut o {
                    OP::S(_, i) | OP::M(_, _, i) | OP::B(_, _, i) => *i = 1,
                }
            }
            let (lc, h, g) = groups_of(&o);
            let p = fit(p, MARGIN, |p| final_noise(p, lc, h, &g));
            RealRun { o, p, secure: secure || by_flags }
        })
        .boxed()
}

fn real_case(lo: usize, hi: usize) -> BoxedStrategy<Real> {
    any::<bool>()
        .prop_flat_map(move |by_flags| {
            let n = if by_flags { 1..=1usize } else { 1..=3usize };
            (vec(real_run(by_flags, lo, hi), n), Just(by_flags), prop_oneof![Just(0u32), Just(1), 2u32..20], any::<u32>(), any::<u32>(), any::<bool>())
        })
        .prop_map(|(runs, by_flags, threads, style, order, verbose)| Real { runs, by_flags, threads, style, order, verbose })
        .boxed()
}

fn default_real() -> BoxedStrategy<Real> {
    (real_op(), any::<bool>(), prop_oneof![Just(0u32), Just(2)])
        .prop_map(|(o, secure, threads)| {
            let o = match o {
                OP::S(i, it) => OP::S(i.min(4), it.min(2)),
                OP::M(i, q, it) => OP::M(i.min(4), q.min(i.min(4) - 1), it.min(2)),
                OP::B(_, _, it) => OP::B(3, 2, it.min(2)),
            };
            Real { runs: vec![RealRun { o, p: DEFAULT_P, secure }], by_flags: false, threads, style: 0, order: 0, verbose: false }
        })
        .boxed()
}

fn lists() -> BoxedStrategy<Vec<(Vec<OP>, Vec<TP>)>> {
    vec((vec(dry_op(), 0..=4), vec(dry_tp(), 0..=4)), 0..=4).boxed()
}

pub fn c28() -> Check {
    let slow = || Opt { workers: 4, shrink: 60 };
    Check {
        id: "C28",
        assumptions: &[
            "the program is built without the hooks' cfg",
            "in batched mode the hash is drawn at random: a run that says that the two items cannot be placed is repeated",
        ],
        subs: vec![
            sub("dry_flags", "dry runs from flags in any order and both spellings, each given or left out, with no, an empty or a missing parameter file; non-trivial: some gadget flag given", 7500, 240000,
                || (flags(), 0u8..4).prop_map(|(f, missing)| DryFlags { f, missing }).boxed(), dry_flags),
            sub("dry_file", "dry runs from generated parameter files, with contradicting flags; non-trivial: more than one run", 7500, 240000,
                || (lists(), flags(), any::<bool>()).prop_map(|(l, f, sub_dir)| DryFile { l, f, sub_dir }).boxed(), dry_file),
            sub("bad_file", "dry runs from eleven kinds of malformed files, with contradicting flags; non-trivial: made from a non-empty list", 4500, 160000,
                || (lists(), 0u8..11, any::<u32>(), flags()).prop_map(|(l, kind, at, f)| BadFile { l, kind, at, f }).boxed(), bad_file),
            sub_opt("real", "real runs in the three modes, from flags and files of one to three runs, several iterations, thread counts; non-trivial: several runs, flags or insecure seeding", 120, 6_000, slow(),
                || real_case(6, 8), real),
            sub_opt("real_default", "real runs with the default parameters on small databases; non-trivial: insecure seeding", 2, 40, slow(), default_real, real),
        ],
    }
}
