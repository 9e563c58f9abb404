//! C25, C26, C27, C29: hashing, noise measurement, parameters and data helpers.
use crate::codec_checks::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oramh::{first_fit, perm_table};
use crate::refm::*;
use concrete_core::prelude::{DecompositionBaseLog, DecompositionLevelCount, PolynomialSize};
use panacea::codec::Codec;
use panacea::context::Context;
use panacea::naive_hash::NaiveHash;
use panacea::params::*;
use panacea::rgsw::{compute_noise_rgsw1, RGSWCiphertext};
use panacea::rlwe::*;
use panacea::utils::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HashCase {
    h: usize,
    dom: usize,
    d: usize,
}

fn hash_case(k: &HashCase) -> R {
    let (h, dom, d) = (k.h, k.dom, k.d);
    let nh = NaiveHash::new(h, dom);
    ensure!(nh.h_count() == h && nh.input_domain() == dom && nh.output_domain() == h * dom, "reported sizes");
    let mut seen = vec![false; h * dom];
    let copy = nh.clone();
    for x in 0..dom {
        for j in 0..h {
            let y = nh.hash(j, x);
            ensure!(y < h * dom, "hash({j},{x}) = {y} is outside 0..{}", h * dom);
            ensure!(!seen[y], "hash({j},{x}) = {y} is taken already");
            seen[y] = true;
            ensure!(nh.hash(j, x) == y && copy.hash(j, x) == y, "hash({j},{x}) changes");
            ensure!(nh.checked_hash(j, x) == Some(y), "checked_hash({j},{x}) = {:?}, hash gives {y}", nh.checked_hash(j, x));
            let (r, c) = nh.hash_to_tuple(j, x, d);
            ensure!(c < d && r * d + c == y, "hash_to_tuple({j},{x},{d}) = ({r},{c}) for {y}");
        }
        ensure!(nh.hash0(x) == nh.hash(0, x), "hash0({x})");
        ensure!(h < 2 || nh.hash1(x) == nh.hash(1, x), "hash1({x})");
        ensure!(h < 3 || nh.hash2(x) == nh.hash(2, x), "hash2({x})");
    }
    for (j, x) in [(h, 0), (0, dom), (h, dom), (h - 1, dom), (h, dom - 1), (usize::MAX, 0), (0, usize::MAX), (h + 1, 0), (0, dom + 1)] {
        ensure!(nh.checked_hash(j, x).is_none(), "checked_hash({j},{x}) = {:?}", nh.checked_hash(j, x));
    }
    let mut fresh = true;
    if h * dom >= 40 {
        // 40! permutations: two equal draws do not happen
        let other = NaiveHash::new(h, dom);
        fresh = (0..dom).any(|x| (0..h).any(|j| other.hash(j, x) != nh.hash(j, x)));
    }
    ensure!(fresh, "two hashes drawn independently are equal");
    Ok(Out::new(h > 1 && dom > 1))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PlaceCase {
    h: usize,
    rows: usize,
    d: usize,
    perm: u64,
    items: Vec<u32>,
}

fn place_case(k: &PlaceCase) -> R {
    let (h, d) = (k.h, k.d);
    let dom = (k.rows * d / h).max(1);
    let table = perm_table(k.perm, dom * h);
    let nh = crate::hooks::hash_of(table.clone(), h, dom);
    let mut is: Vec<usize> = vec![];
    for x in &k.items {
        let x = *x as usize % dom;
        if !is.contains(&x) {
            is.push(x);
        }
    }
    let (placed, missed) = first_fit(&is, h, d, |j, x| nh.hash(j, x));
    let got = guarded(|| Ok(nh.hash_to_mapping(&is, d)));
    match got {
        Err(m) => {
            ensure!(!missed.is_empty(), "placing {is:?} fails ({m}), first-fit places all: {placed:?}");
        }
        Ok(m) => {
            let mut found: Vec<usize> = m.values().map(|v| v.1).collect();
            found.sort_unstable();
            let mut want = is.clone();
            want.sort_unstable();
            ensure!(found == want, "placing {want:?} returns a mapping for {found:?} only");
            for (r, (c, x)) in &m {
                ensure!(*c < d && (0..h).any(|j| nh.hash(j, *x) == r * d + c), "item {x} is placed at ({r},{c}), which is none of its {h} cells with rows of {d}");
            }
            ensure!(nh.hash_to_mapping(&is, d) == m && nh.clone().hash_to_mapping(&is, d) == m, "the placement changes from call to call");
        }
    }
    Ok(Out::new(is.len() > 1)
        .label_if(!missed.is_empty(), "not all fit")
        .label_if(placed.iter().any(|(r, c, x)| nh.hash(0, *x) != r * d + c), "some item not at its first cell"))
}

pub fn c25() -> Check {
    Check {
        id: "C25",
        assumptions: &["the placement sub-check feeds hash tables through a guarded constructor; the table that `new` draws is checked by the first sub-check"],
        subs: vec![
            sub("bijection", "hashes as drawn by the crate: all pairs, both forms, out-of-range arguments, a second draw; non-trivial: more than one function and item", 240000, 4800000,
                || (1usize..=6, prop_oneof![5 => 1usize..=40, 1 => 40usize..=700], prop_oneof![1usize..=20, Just(64usize), Just(1000)]).prop_map(|(h, dom, d)| HashCase { h, dom, d }).boxed(),
                hash_case),
            sub("large", "as bijection on domains of 700 to 150000 items", 40, 800,
                || (1usize..=4, prop_oneof![700usize..=20000, 60000usize..=150000], prop_oneof![Just(64usize), Just(300), Just(4096)]).prop_map(|(h, dom, d)| HashCase { h, dom, d }).boxed(),
                hash_case),
            sub("large_placement", "tables of up to 400 rows and 400 columns, up to 400 items; non-trivial: at least two items", 6000, 120000,
                || (1usize..=4, 100usize..=400, prop_oneof![1usize..=16, 100usize..=400], any::<u64>(), prop_oneof![2 => vec(any::<u32>(), 1..=40), 1 => vec(any::<u32>(), 1..=400)])
                    .prop_map(|(h, rows, d, perm, items)| PlaceCase { h, rows, d, perm, items }).boxed(),
                place_case),
            sub("placement", "random permutations, row widths and lists of distinct items, from sparse to over-full; non-trivial: at least two items", 3000000, 60000000,
                || (1usize..=5, 1usize..=12, 1usize..=16, prop_oneof![8 => any::<u64>(), 1 => Just(0u64)], vec(any::<u32>(), 0..=9))
                    .prop_map(|(h, rows, d, perm, items)| PlaceCase { h, rows, d, perm, items }).boxed(),
                place_case),
        ],
    }
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NoiseCase {
    logn: usize,
    logt: usize,
    seed: u64,
    key: u8,
    mask: u8,
    err: u8,
    shift: u32,
}

fn want_log(e: &[u64]) -> f64 {
    (max_abs(e) as f64).log2()
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9
}

fn error_poly(kind: u8, shift: u32, n: usize, r: &mut Sm) -> Poly {
    let mut e = vec![0u64; n];
    let top = 1u64 << shift;
    match kind {
        0 => {}
        // one coefficient dominates, positive or negative
        1 | 2 => {
            e.iter_mut().for_each(|x| *x = r.below(top).wrapping_sub(top / 2));
            let i = r.below(n as u64) as usize;
            e[i] = if kind == 1 { top } else { top.wrapping_neg() };
        }
        // everything negative
        3 => e.iter_mut().for_each(|x| *x = (1 + r.below(top)).wrapping_neg()),
        // the largest error there is
        4 => e[r.below(n as u64) as usize] = 1 << 63,
        5 => e[r.below(n as u64) as usize] = r.next(),
        6 => e[[0, n - 1][r.below(2) as usize]] = top,
        _ => e.iter_mut().for_each(|x| *x = r.next() >> r.below(64)),
    }
    e
}

fn noise_case(k: &NoiseCase) -> R {
    let n = 1usize << k.logn;
    let mut r = Sm(k.seed);
    let s = match k.key {
        0 => vec![0; n],
        1 => vec![1; n],
        _ => random_bits(n, k.seed ^ 9),
    };
    let sk = key_from_bits(&s);
    let mask = match k.mask {
        0 => vec![0; n],
        1 => vec![u64::MAX; n],
        _ => random_poly(n, &mut r),
    };
    let e = error_poly(k.err, k.shift, n, &mut r);
    let make = |plain: &[u64]| ct_from(&mask, &padd(&padd(&negmul(&mask, &s), plain), &e));
    let want = want_log(&e);

    let raw = random_poly(n, &mut r);
    let got = compute_noise(&sk, &make(&raw), &pl(&raw));
    ensure!(close(got, want), "compute_noise is {got}, the largest error {} is 2^{want}", max_abs(&e));

    let t = 1u64 << k.logt;
    let codec = Codec::new(t);
    let m: Poly = (0..n).map(|_| r.next() & (t - 1)).collect();
    let got = compute_noise_encoded(&sk, &make(&scale(&m, 1 << (64 - k.logt))), &pl(&m), &codec);
    ensure!(close(got, want), "compute_noise_encoded is {got}, the largest error {} is 2^{want}", max_abs(&e));

    let m: Poly = (0..n).map(|_| r.below(3).wrapping_sub(1)).collect();
    let enc: Poly = m.iter().map(|x| {
        let mut y = *x;
        Codec::ternary_encode(&mut y);
        y
    }).collect();
    let got = compute_noise_ternary(&sk, &make(&enc), &pl(&m));
    ensure!(close(got, want), "compute_noise_ternary is {got}, the largest error {} is 2^{want}", max_abs(&e));
    Ok(Out::new(k.err != 0)
        .label_if(max_abs(&e) == 1 << 63, "error of 2^63")
        .label_if(e.iter().all(|x| *x == 0), "no error"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GswNoiseCase {
    p: P,
    b: usize,
    l: usize,
    synth: bool,
    seed: u64,
}

fn gsw_noise(k: &GswNoiseCase) -> R {
    let p = &k.p;
    let n = p.n();
    let mut ctx = p.ctx(k.seed);
    let mut r = Sm(k.seed);
    let sk = ctx.gen_rlwe_sk();
    let s = key_bits(&sk);
    let mut c = RGSWCiphertext::allocate(PolynomialSize(n), DecompositionBaseLog(k.b), DecompositionLevelCount(k.l));
    if k.synth {
        // assembled from body rows with chosen errors
        let mut q = *p;
        (q.b, q.l) = (k.b, k.l);
        let mut ctx2 = q.ctx(k.seed ^ 1);
        let neg = sk.neg_gsw(&mut ctx2);
        let rows: Vec<_> = (0..k.l)
            .map(|i| {
                let mask = random_poly(n, &mut r);
                let mut body = negmul(&mask, &s);
                body[0] = body[0].wrapping_add(1 << (64 - k.b * (i + 1)));
                let kind = r.below(8) as u8;
                let shift = r.below(63) as u32;
                let e = error_poly(if kind == 0 { 1 } else { kind }, shift, n, &mut r);
                ct_from(&mask, &padd(&body, &e))
            })
            .collect();
        let mut buf = ctx2.gen_fft_ctx();
        c = decomposed_rlwe_to_rgsw(&rows, &neg, &ctx2, &mut buf);
    } else {
        let one = concrete_core::commons::crypto::encoding::Plaintext(1u64);
        sk.encrypt_constant_rgsw(&mut c, &one, &mut ctx);
    }
    let mut sum = 0.0;
    for i in 0..k.l {
        let mut m = vec![0; n];
        m[0] = 1 << (64 - k.b * (i + 1));
        sum += want_log(&psub(&phase(&c.get_nth_row(2 * i + 1), &s), &m));
    }
    let want = sum / k.l as f64;
    let got = compute_noise_rgsw1(&sk, &c, &ctx);
    ensure!(close(got, want), "compute_noise_rgsw1 of a ({},{}) ciphertext in a ({},{}) context is {got}, the average over its body rows is {want}", k.b, k.l, p.b, p.l);
    Ok(Out::new(k.l > 1).label_if((k.b, k.l) != (p.b, p.l), "gadget other than the context's").label_if(k.synth, "chosen errors"))
}

pub fn c26() -> Check {
    Check {
        id: "C26",
        assumptions: &["logarithms are compared to 1e-9", "keys are binary, as the crate generates them"],
        subs: vec![
            sub("rlwe", "ciphertexts built from a chosen key, mask, plaintext and error, from no error to 2^63, in the raw, encoded and ternary form; non-trivial: an error", 1000000, 20000000,
                || (0usize..=7, 1usize..=63, any::<u64>(), 0u8..6, 0u8..8, 0u8..=7, 0u32..63)
                    .prop_map(|(logn, logt, seed, key, mask, err, shift)| NoiseCase { logn, logt, seed, key, mask, err, shift }).boxed(),
                noise_case),
            sub("large_rlwe", "the same at ring degrees from 256 to 4096", 1600, 32000,
                || (8usize..=12, 1usize..=63, any::<u64>(), 0u8..6, 0u8..8, 0u8..=7, 0u32..63)
                    .prop_map(|(logn, logt, seed, key, mask, err, shift)| NoiseCase { logn, logt, seed, key, mask, err, shift }).boxed(),
                noise_case),
            sub("rgsw", "RGSW encryptions of one and synthetic ones with chosen row errors, gadgets equal to and different from the context's; non-trivial: more than one level", 36000, 720000,
                || (crate::ring_checks::ring_params(6, 7, 9), gadget(20, 10, 20), any::<bool>(), any::<bool>(), any::<u32>())
                    .prop_map(|(p, (b, l), synth, own, seed)| {
                        let (b, l) = if own { (p.b, p.l) } else { (b, l) };
                        GswNoiseCase { p, b, l, synth, seed: seed as u64 }
                    }).boxed(),
                gsw_noise),
        ],
    }
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OP {
    S(usize, usize),
    M(usize, usize, usize),
    B(usize, usize, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TP {
    /// bits of the standard deviation, as a decimal number
    pub std: f64,
    pub n: usize,
    pub v: [usize; 6],
    pub t: u64,
    pub secure: bool,
}

fn to_oram(o: &OP) -> ORAMParameters {
    match *o {
        OP::S(item_count, iterations) => ORAMParameters::SingleQuery { item_count, iterations },
        OP::M(item_count, query_count, iterations) => ORAMParameters::MultiQuery { item_count, query_count, iterations },
        OP::B(rows, cols, iterations) => ORAMParameters::Batched { rows, cols, iterations },
    }
}
fn of_oram(o: &ORAMParameters) -> OP {
    match *o {
        ORAMParameters::SingleQuery { item_count, iterations } => OP::S(item_count, iterations),
        ORAMParameters::MultiQuery { item_count, query_count, iterations } => OP::M(item_count, query_count, iterations),
        ORAMParameters::Batched { rows, cols, iterations } => OP::B(rows, cols, iterations),
    }
}
fn to_tfhe(t: &TP) -> TFHEParameters {
    TFHEParameters {
        standard_deviation: t.std,
        polynomial_size: t.n,
        base_log: t.v[0],
        level_count: t.v[1],
        key_switch_base_log: t.v[2],
        key_switch_level_count: t.v[3],
        negs_base_log: t.v[4],
        negs_level_count: t.v[5],
        plaintext_modulus: t.t,
        secure_seed: t.secure,
    }
}
fn of_tfhe(t: &TFHEParameters) -> TP {
    TP {
        std: t.standard_deviation,
        n: t.polynomial_size,
        v: [t.base_log, t.level_count, t.key_switch_base_log, t.key_switch_level_count, t.negs_base_log, t.negs_level_count],
        t: t.plaintext_modulus,
        secure: t.secure_seed,
    }
}

pub fn oram_json(o: &OP) -> String {
    match o {
        OP::S(a, b) => format!(r#"{{"SingleQuery":{{"item_count":{a},"iterations":{b}}}}}"#),
        OP::M(a, b, c) => format!(r#"{{"MultiQuery":{{"item_count":{a},"query_count":{b},"iterations":{c}}}}}"#),
        OP::B(a, b, c) => format!(r#"{{"Batched":{{"rows":{a},"cols":{b},"iterations":{c}}}}}"#),
    }
}
pub fn tfhe_json(t: &TP) -> String {
    format!(
        r#"{{"standard_deviation":{:?},"polynomial_size":{},"base_log":{},"level_count":{},"key_switch_base_log":{},"key_switch_level_count":{},"negs_base_log":{},"negs_level_count":{},"plaintext_modulus":{},"secure_seed":{}}}"#,
        t.std, t.n, t.v[0], t.v[1], t.v[2], t.v[3], t.v[4], t.v[5], t.t, t.secure
    )
}
/// the parameter file format, written out by hand
pub fn list_json(l: &[(Vec<OP>, Vec<TP>)]) -> String {
    let entry = |(o, t): &(Vec<OP>, Vec<TP>)| {
        format!(
            "[[{}],[{}]]",
            o.iter().map(oram_json).collect::<Vec<_>>().join(","),
            t.iter().map(tfhe_json).collect::<Vec<_>>().join(",")
        )
    };
    format!("[{}]", l.iter().map(entry).collect::<Vec<_>>().join(",\n "))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ListCase {
    l: Vec<(Vec<OP>, Vec<TP>)>,
}

fn list_case(k: &ListCase) -> R {
    let make = || InputParamsList {
        list: k.l.iter().map(|(o, t)| (o.iter().map(to_oram).collect(), t.iter().map(to_tfhe).collect())).collect(),
    };
    let read = |l: &InputParamsList| -> Vec<(Vec<OP>, Vec<TP>)> {
        l.list.iter().map(|(o, t)| (o.iter().map(of_oram).collect(), t.iter().map(of_tfhe).collect())).collect()
    };
    let s = serde_json::to_string(&make()).map_err(|e| format!("serialisation: {e}"))?;
    let back: InputParamsList = serde_json::from_str(&s).map_err(|e| format!("reading {s} back: {e}"))?;
    ensure!(read(&back) == k.l, "round trip of {:?} gives {:?}", k.l, read(&back));
    let file = list_json(&k.l);
    let from_file: InputParamsList = serde_json::from_str(&file).map_err(|e| format!("reading {file}: {e}"))?;
    ensure!(read(&from_file) == k.l, "reading {file} gives {:?}", read(&from_file));
    let v: serde_json::Value = serde_json::from_str(&s).unwrap();
    let w: serde_json::Value = serde_json::from_str(&file).unwrap();
    ensure!(v == w, "written as {s}, expected {file}");

    let mut want = vec![];
    for (o, t) in &k.l {
        for x in o {
            for y in t {
                want.push((x.clone(), y.clone()));
            }
        }
    }
    let runs = ServerParams::from_input_params_list(make());
    let got: Vec<(OP, TP)> = runs.iter().map(|r| (of_oram(&r.oram), of_tfhe(&r.tfhe))).collect();
    ensure!(got == want, "{:?} expands to {got:?}, expected {want:?}", k.l);
    Ok(Out::new(want.len() > 1)
        .label_if(k.l.is_empty(), "empty list")
        .label_if(k.l.iter().any(|x| x.0.is_empty() != x.1.is_empty()), "an entry with one side empty")
        .label_if(k.l.len() > 1, "several entries"))
}

fn ctx_case(p: &P) -> R {
    for secure in [false, true] {
        let tp = p.tfhe(secure);
        let c = Context::new(tp.clone());
        let got = (c.std.0, c.poly_size.0, c.base_log.0, c.level_count.0, c.ks_base_log.0, c.ks_level_count.0, c.negs_base_log.0, c.negs_level_count.0, c.codec.pt_modulus());
        let want = (tp.standard_deviation, tp.polynomial_size, tp.base_log, tp.level_count, tp.key_switch_base_log, tp.key_switch_level_count, tp.negs_base_log, tp.negs_level_count, tp.plaintext_modulus);
        ensure!(got == want, "a context from {tp:?} holds {got:?}");
        ensure!(c.plaintext_count().0 == p.n() && c.lwe_dim().0 == p.n() && c.lwe_size().0 == p.n() + 1, "derived sizes");
        ensure!(c.codec.pt_modulus_bits() == p.logt && c.codec.largest_error() == 1 << (63 - p.logt), "codec of the context");
        let shown = c.to_string();
        let want = format!(
            "q=64, poly_size={}, log_std={:?}, default_decomp=({},{}), ks_decomp=({},{}), negs_decomp=({},{}), pt_modulus=({})",
            p.n(), p.std(), p.b, p.l, p.kb, p.kl, p.nb, p.nl, p.t()
        );
        ensure!(shown == want, "displayed as {shown}, expected {want}");
    }
    Ok(Out::new(p.b != p.kb || p.b != p.nb))
}

fn defaults_case(_: &u8) -> R {
    let d = of_tfhe(&TFHEParameters::default());
    let w = TP { std: -55.0, n: 2048, v: [5, 9, 5, 11, 5, 11], t: 256, secure: true };
    ensure!(d == w, "default TFHE parameters {d:?}");
    let o = OP::B(384, 16, 1);
    ensure!(of_oram(&ORAMParameters::default()) == o, "default ORAM parameters");
    let sp = ServerParams::default();
    ensure!(of_oram(&sp.oram) == o && of_tfhe(&sp.tfhe) == w, "default run");
    let l = InputParamsList::default();
    ensure!(l.list.len() == 1 && l.list[0].0.len() == 1 && l.list[0].1.len() == 1, "default list");
    ensure!(of_oram(&l.list[0].0[0]) == o && of_tfhe(&l.list[0].1[0]) == w, "default list's entry");
    Ok(Out::new(true))
}

pub fn some_op() -> BoxedStrategy<OP> {
    let v = || prop_oneof![6 => 0usize..5000, 1 => any::<u32>().prop_map(|x| x as usize), 1 => Just(usize::MAX)];
    prop_oneof![
        (v(), v()).prop_map(|(a, b)| OP::S(a, b)),
        (v(), v(), v()).prop_map(|(a, b, c)| OP::M(a, b, c)),
        (v(), v(), v()).prop_map(|(a, b, c)| OP::B(a, b, c)),
    ]
    .boxed()
}
pub fn some_tp() -> BoxedStrategy<TP> {
    let std = prop_oneof![4 => (-260i32..0).prop_map(|x| x as f64 / 4.0), 2 => Just(-55.0), 2 => (-1000i64..1000).prop_map(|x| x as f64), 1 => any::<i32>().prop_map(|x| x as f64 / 1000.0)];
    let v = prop_oneof![6 => 0usize..64, 1 => any::<u32>().prop_map(|x| x as usize), 1 => Just(usize::MAX)];
    (std, prop_oneof![(0u32..20).prop_map(|k| 1usize << k), 0usize..5000], proptest::array::uniform6(v), prop_oneof![(0u32..64).prop_map(|k| 1u64 << k), any::<u64>()], any::<bool>())
        .prop_map(|(std, n, v, t, secure)| TP { std, n, v, t, secure })
        .boxed()
}

pub fn c27() -> Check {
    Check {
        id: "C27",
        assumptions: &["standard deviations have at most 15 significant decimal digits: serde_json parses longer ones with an error in the last place"],
        subs: vec![
            sub("lists", "lists of up to four entries, each with up to four settings per side, empty ones included: serialisation, a hand-written file, expansion; non-trivial: more than one run", 480000, 9600000,
                || vec((vec(some_op(), 0..=4), vec(some_tp(), 0..=4)), 0..=4).prop_map(|l| ListCase { l }).boxed(),
                list_case),
            sub("long_lists", "lists of up to 40 entries or 300 settings; non-trivial: more than one run", 800, 16000,
                || prop_oneof![
                    vec((vec(some_op(), 0..=3), vec(some_tp(), 0..=3)), 5..=40),
                    vec((vec(some_op(), 1..=300), vec(some_tp(), 1..=3)), 1..=2),
                    vec((vec(some_op(), 1..=3), vec(some_tp(), 1..=300)), 1..=2),
                    // equal settings next to each other
                    (some_op(), some_tp(), vec((1usize..=4, 1usize..=4), 1..=4)).prop_map(|(o, t, l)| l.into_iter().map(|(a, b)| (vec![o.clone(); a], vec![t.clone(); b])).collect()),
                ].prop_map(|l| ListCase { l }).boxed(),
                list_case),
            sub("contexts", "contexts of random parameter sets, both seedings; non-trivial: gadgets differ", 30000, 600000, || crate::ring_checks::ring_params(0, 11, 14), ctx_case),
            sub("defaults", "the documented defaults; all non-trivial", 1, 1, || Just(0u8).boxed(), defaults_case),
        ],
    }
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TableCase {
    rows: usize,
    cols: usize,
    seed: u64,
}

fn table_case(k: &TableCase) -> R {
    let mut r = Sm(k.seed);
    let t: Vec<Vec<String>> = (0..k.rows).map(|_| (0..k.cols).map(|_| format!("{:x}", r.next())).collect()).collect();
    let u = transpose(t.clone());
    ensure!(u.len() == k.cols, "{} rows after transposing {}x{}", u.len(), k.rows, k.cols);
    for (j, row) in u.iter().enumerate() {
        ensure!(row.len() == k.rows, "row {j} has {} entries", row.len());
        for (i, x) in row.iter().enumerate() {
            ensure!(*x == t[i][j], "entry ({j},{i}) is not entry ({i},{j}) of the input");
        }
    }
    if k.cols > 0 {
        ensure!(transpose(u) == t, "transposing twice");
    }
    ensure!(panics(|| { transpose::<u8>(vec![]); }), "an empty table is accepted");
    Ok(Out::new(k.rows > 1 && k.cols > 1 && k.rows != k.cols))
}

fn log2_case(x: &u64) -> R {
    let x = (*x).max(1);
    let got = log2(x as usize);
    let ok = got < 64 && (x >> got) == 1;
    ensure!(ok, "log2({x}) = {got}");
    Ok(Out::new(x > 1).label_if(x.is_power_of_two(), "power of two").label_if((x as u128 + 1).is_power_of_two(), "one below a power of two"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PackCase {
    len: usize,
    bits: u64,
    bad: Option<(u64, u64)>,
}

fn pack_case(k: &PackCase) -> R {
    let mut p: Poly = (0..k.len).map(|i| if i < 64 { (k.bits >> i) & 1 } else { mix(k.bits ^ i as u64) }).collect();
    let want = (0..k.len.min(64)).fold(0u64, |a, i| a | (p[i] << i));
    let got = pt_to_lossy_u64(&pl(&p));
    ensure!(got == want, "{p:?} packs to {got:#x}, expected {want:#x}");
    let mut l = "binary";
    if let Some((at, v)) = k.bad {
        let at = at as usize % k.len;
        p[at] = v.max(2);
        let rejected = panics(|| {
            pt_to_lossy_u64(&pl(&p));
        });
        ensure!(rejected == (at < 64), "coefficient {at} = {}: {}", p[at], if rejected { "rejected" } else { "accepted" });
        l = if at < 64 { "non-binary among the first 64" } else { "non-binary beyond the first 64" };
    }
    Ok(Out::new(want != 0).label(l))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CsvCase {
    header: u8,
    rows: Vec<Vec<u64>>,
    crlf: bool,
    last: bool,
    tag: u32,
}

fn csv_case(k: &CsvCase) -> R {
    let w = k.rows.first().map_or(3, |r| r.len());
    let rows: Vec<Vec<u64>> = k.rows.iter().map(|r| (0..w).map(|i| r.get(i).copied().unwrap_or(7)).collect()).collect();
    let nl = if k.crlf { "\r\n" } else { "\n" };
    let head: Vec<String> = (0..w).map(|i| match k.header { 0 => format!("f{i}"), 1 => format!("{i}"), _ => format!("\"feature, {i}\"") }).collect();
    let mut lines = vec![head.join(",")];
    lines.extend(rows.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    let mut s = lines.join(nl);
    if k.last {
        s += nl;
    }
    let dir = std::env::temp_dir().join(format!("pv-csv-{}-{:x}", std::process::id(), mix(k.tag as u64 ^ hash64(&s))));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let f = dir.join("x.csv");
    std::fs::write(&f, &s).map_err(|e| e.to_string())?;
    let got = guarded(|| Ok(parse_csv(&f)));
    let missing = panics(|| {
        parse_csv(&dir.join("none.csv"));
    });
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&dir);
    let got: Vec<Vec<u64>> = got?.into_iter().map(|r| r.into_iter().map(|x| x as u64).collect()).collect();
    ensure!(got == rows, "{s:?} is read as {got:?}");
    ensure!(missing, "a missing file is accepted");
    Ok(Out::new(rows.len() > 1 && w > 1))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SampleCase {
    p: P,
    i: u64,
    seed: u64,
}

fn sample_case(k: &SampleCase) -> R {
    let p = &k.p;
    let n = p.n();
    let mut c = p.ctx(k.seed);
    let t = p.t();
    // enough coefficients that a missing value or bit cannot be chance
    let reps = (2048 / n).max(2);
    let (mut all, mut bin, mut ter) = (vec![], vec![], vec![]);
    let mut sb = vec![];
    let mut prev: Option<Poly> = None;
    for _ in 0..reps {
        let x = pl_vec(&c.gen_pt());
        ensure!(x.len() == n, "gen_pt gives {} coefficients", x.len());
        if n * p.logt >= 96 {
            ensure!(prev.as_ref() != Some(&x), "gen_pt repeats itself");
            prev = Some(x.clone());
        }
        all.extend(x);
        let x = pl_vec(&c.gen_binary_pt());
        ensure!(x.len() == n, "gen_binary_pt gives {} coefficients", x.len());
        bin.extend(x);
        let x = pl_vec(&c.gen_ternary_ptxt());
        ensure!(x.len() == n, "gen_ternary_ptxt gives {} coefficients", x.len());
        ter.extend(x);
        sb.push(c.gen_scalar_binary_pt().0);
    }
    let freq = |what: &str, hits: usize, total: usize, q: f64| -> Result<(), String> {
        let sd = (total as f64 * q * (1.0 - q)).sqrt();
        ensure!((hits as f64 - total as f64 * q).abs() <= 7.5 * sd + 1.0, "{what}: {hits} of {total}, expected a fraction of {q:.3}");
        Ok(())
    };
    if let Some(x) = all.iter().find(|x| **x >= t) {
        return Err(format!("gen_pt samples {x} with t={t}"));
    }
    for b in 0..p.logt {
        freq(&format!("gen_pt, bit {b} of {}", p.logt), all.iter().filter(|x| (**x >> b) & 1 == 1).count(), all.len(), 0.5)?;
    }
    if p.logt <= 3 {
        for v in 0..t {
            freq(&format!("gen_pt, value {v} of {t}"), all.iter().filter(|x| **x == v).count(), all.len(), 1.0 / t as f64)?;
        }
    }
    ensure!(bin.iter().all(|x| *x <= 1), "gen_binary_pt is not binary");
    freq("gen_binary_pt", bin.iter().filter(|x| **x == 1).count(), bin.len(), 0.5)?;
    ensure!(sb.iter().all(|x| *x <= 1), "gen_scalar_binary_pt is not binary");
    if sb.len() >= 64 {
        freq("gen_scalar_binary_pt", sb.iter().filter(|x| **x == 1).count(), sb.len(), 0.5)?;
    }
    for v in [0, 1, u64::MAX] {
        freq("gen_ternary_ptxt", ter.iter().filter(|x| **x == v).count(), ter.len(), 1.0 / 3.0)?;
    }
    ensure!(ter.iter().all(|x| [0, 1, u64::MAX].contains(x)), "gen_ternary_ptxt is not ternary");
    let mut unit = vec![0; n];
    ensure!(pl_vec(&c.gen_zero_pt()) == unit, "gen_zero_pt");
    unit[0] = 1;
    ensure!(pl_vec(&c.gen_unit_pt()) == unit, "gen_unit_pt");
    ensure!(c.gen_scalar_unit_pt().0 == 1 && c.gen_scalar_zero_pt().0 == 0, "scalar constants");
    let ids: Vec<usize> = if n <= 64 { (0..n).collect() } else { vec![0, n - 1, (k.i % n as u64) as usize] };
    for i in ids {
        let mut want = vec![0; n];
        want[i] = 1;
        ensure!(pl_vec(&c.gen_demuxed_pt(i)) == want, "gen_demuxed_pt({i})");
    }
    for bad in [n, n + 1, usize::MAX] {
        ensure!(panics(|| { c.gen_demuxed_pt(bad); }), "gen_demuxed_pt accepts {bad} with N={n}");
    }
    let distinct: HashSet<u64> = all.iter().copied().collect();
    Ok(Out::new(distinct.len() > 1).label_if(p.logt > 32, "modulus beyond 2^32"))
}

pub fn c29() -> Check {
    Check {
        id: "C29",
        assumptions: &["frequencies of the samplers are compared at 7.5 standard deviations", "CSV files have a header row and equally long records; files are written to a scratch directory and removed"],
        subs: vec![
            sub("transpose", "rectangular tables of distinct strings; non-trivial: not square, more than one row and column", 180000, 3600000,
                || (1usize..=20, 0usize..=20, any::<u64>()).prop_map(|(rows, cols, seed)| TableCase { rows, cols, seed }).boxed(), table_case),
            sub("large_transpose", "tables of up to 600 rows and columns", 120, 2400,
                || (prop_oneof![1usize..=600, Just(1usize)], prop_oneof![20usize..=600, Just(1usize)], any::<u64>()).prop_map(|(rows, cols, seed)| TableCase { rows, cols, seed }).boxed(), table_case),
            sub("large_csv", "files of up to 5000 records or 400 columns", 240, 4800,
                || (0u8..3, prop_oneof![(1usize..=3, 200usize..=5000), (100usize..=400, 1usize..=20)], any::<bool>(), any::<bool>(), any::<u32>(), any::<u64>())
                    .prop_map(|(header, (w, len), crlf, last, tag, seed)| {
                        let mut r = Sm(seed);
                        let rows = (0..len).map(|_| (0..w).map(|_| { let s = r.below(64); r.next() >> s }).collect()).collect();
                        CsvCase { header, rows, crlf, last, tag }
                    }).boxed(),
                csv_case),
            sub("log2", "positive integers around every power of two and anywhere; non-trivial: above 1", 800000, 16000000,
                || prop_oneof![1 => (0u32..64).prop_map(|k| 1u64 << k), 1 => (1u32..64).prop_map(|k| (1u64 << k) - 1), 1 => (0u32..64).prop_map(|k| (1u64 << k).wrapping_add(1).max(1)), 1 => Just(u64::MAX), 3 => (any::<u64>(), 0u32..64).prop_map(|(x, s)| (x >> s).max(1))].boxed(),
                log2_case),
            sub("packing", "plaintexts of 1 to 200 coefficients with and without a non-binary one; non-trivial: not zero", 800000, 16000000,
                || (prop_oneof![1usize..=200, 60usize..=70], prop_oneof![any::<u64>(), Just(u64::MAX), (0u32..64).prop_map(|k| 1u64 << k)], proptest::option::of((any::<u64>(), prop_oneof![Just(2u64), Just(3), Just(u64::MAX), any::<u64>()])))
                    .prop_map(|(len, bits, bad)| PackCase { len, bits, bad }).boxed(),
                pack_case),
            sub("csv", "numeric files with a header row, both line endings, with and without a final newline; non-trivial: two records and columns", 20000, 400000,
                || (0u8..3, vec(vec(prop_oneof![4 => 0u64..1000, 1 => any::<u64>()], 1..=6), 0..=12), any::<bool>(), any::<bool>(), any::<u32>())
                    .prop_map(|(header, rows, crlf, last, tag)| CsvCase { header, rows, crlf, last, tag }).boxed(),
                csv_case),
            sub("samplers", "every plaintext sampler and constant; non-trivial: more than one value drawn", 30000, 600000,
                || (crate::ring_checks::ring_params(0, 8, 11), 1usize..=62, any::<u64>(), any::<u32>())
                    .prop_map(|(mut p, t, i, seed)| { p.logt = t; SampleCase { p, i, seed: seed as u64 } }).boxed(),
                sample_case),
        ],
    }
}
