use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::noise::*;
use crate::oramh::*;
use crate::refm::*;
use panacea::naive_hash::NaiveHash;
use panacea::oram::{setup_random_oram, Client, ClientQuery, Server};
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::RLWECiphertext;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

pub fn log_cols(max_common: usize, max_rare: usize) -> BoxedStrategy<usize> {
    prop_oneof![12 => 1..=max_common, 1 => max_common..=max_rare].boxed()
}

pub fn small_pool() -> BoxedStrategy<usize> {
    prop_oneof![4 => 1usize..=3, 1 => Just(0usize)].boxed()
}

#[allow(clippy::too_many_arguments)]
fn case(
    p: P,
    shape: (usize, usize, usize),
    perm: u64,
    seed: u64,
    pool: usize,
    real: bool,
    groups: Vec<G>,
) -> Case {
    finish(Case {
        p,
        rows: shape.0,
        log_cols: shape.1,
        h: shape.2,
        perm,
        seed,
        pool,
        real,
        groups,
    })
}

/// move some of the accesses to the last items of the table
fn at_the_end(items: usize, groups: &mut [G]) {
    let f = |x: &mut u32| {
        if items > 8 && *x >= 4 && x.wrapping_mul(2654435761) >> 20 & 7 == 0 {
            *x = items as u32 - 1 - *x % 7;
        }
    };
    for g in groups {
        match g {
            G::One(i, _) => f(i),
            G::Multi(v) | G::Mixed(v) => v.iter_mut().for_each(|x| f(&mut x.0)),
            G::Batch(v, _) => v.iter_mut().for_each(f),
        }
    }
}

pub fn histories(
    params: BoxedStrategy<P>,
    shape: BoxedStrategy<(usize, usize, usize)>,
    groups: BoxedStrategy<Vec<G>>,
    pool: BoxedStrategy<usize>,
    real: BoxedStrategy<bool>,
) -> BoxedStrategy<Case> {
    let perm = prop_oneof![1 => Just(0u32), 4 => any::<u32>()];
    (params, shape, perm, any::<u32>(), pool, real, groups)
        .prop_map(|(p, s, perm, seed, pool, real, mut g)| {
            at_the_end((s.0 << s.1) / s.2, &mut g);
            case(p, s, perm as u64, seed as u64, pool, real, g)
        })
        .boxed()
}

pub fn flat(lc: BoxedStrategy<usize>) -> BoxedStrategy<(usize, usize, usize)> {
    lc.prop_map(|l| (1, l, 1)).boxed()
}

pub fn one() -> BoxedStrategy<G> {
    (idx(), wr(5)).prop_map(|(i, w)| G::One(i, w)).boxed()
}
/// indices over the whole of a large table, and at its ends
pub fn far() -> BoxedStrategy<G> {
    (prop_oneof![4 => 0u32..4096, 2 => 0u32..2, 1 => 4090u32..4096], wr(5)).prop_map(|(i, w)| G::One(i, w)).boxed()
}
pub fn multi(max: usize) -> BoxedStrategy<G> {
    vec((idx(), wr(4)), 1..=max).prop_map(G::Multi).boxed()
}
pub fn batch(max: usize) -> BoxedStrategy<G> {
    (vec(0u32..4096, 0..=max), wr(5))
        .prop_map(|(i, w)| G::Batch(i, w))
        .boxed()
}
pub fn mixed(max: usize) -> BoxedStrategy<G> {
    vec((0u32..4096, wr(4)), 1..=max).prop_map(G::Mixed).boxed()
}
pub fn no() -> BoxedStrategy<bool> {
    Just(false).boxed()
}
pub fn yes() -> BoxedStrategy<bool> {
    Just(true).boxed()
}

fn plain(c: &Case) -> R {
    let o = run_history(c, &mut NoObs)?;
    let nt = o.stats.writes > 0 && o.stats.accesses >= 2;
    Ok(labels(c, &o, Out::new(nt)))
}

/// two databases of different keys, used in turn by the same threads
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SideCase {
    pub a: Case,
    pub b: Case,
    /// which of the two the next group goes to
    pub turns: Vec<bool>,
}

fn side(c: &SideCase) -> R {
    let mut o = [Oram::setup(&c.a)?, Oram::setup(&c.b)?];
    let mut left = [c.a.groups.iter(), c.b.groups.iter()];
    let mut switched = 0;
    let mut last = 2;
    for k in 0.. {
        let mut w = c.turns[k % c.turns.len()] as usize;
        if left[w].len() == 0 {
            w = 1 - w;
        }
        let Some(g) = left[w].next() else { break };
        switched += (last != w) as usize;
        last = w;
        o[w].step(g, &mut NoObs).map_err(|e| format!("step {k}, database {w}: {e}"))?;
        for (j, x) in o.iter_mut().enumerate() {
            x.check_db().map_err(|e| format!("after step {k} on database {w}, database {j}: {e}"))?;
        }
    }
    let [x, y] = o;
    let mut out = labels(&c.a, &x, Out::new(switched > 1 && x.stats.writes + y.stats.writes > 0)).label(bucket("switches", switched));
    out = out.label_if(c.a.p == c.b.p, "same parameters").label_if(c.a.pool == c.b.pool, "same threads");
    Ok(out)
}

/// pairs of cases; half of them share parameters and shape, so that only keys and contents differ
fn sides(c: BoxedStrategy<Case>) -> BoxedStrategy<SideCase> {
    (c.clone(), c, any::<bool>(), any::<bool>(), vec(any::<bool>(), 8))
        .prop_map(|(a, mut b, twin, threads, turns)| {
            if threads {
                b.pool = a.pool;
            }
            if twin {
                let groups = b.groups.clone();
                b = Case { groups, seed: b.seed, perm: b.perm, pool: b.pool, ..a.clone() };
                let (lc, h, mut g) = (b.log_cols, b.h, a.groups.clone());
                g.extend(b.groups.clone());
                // one modulus that suits both histories
                b.p = fit(a.p, MARGIN, |p| final_noise(p, lc, h, &g));
                let p = b.p;
                return SideCase { a: Case { p, ..a }, b, turns };
            }
            SideCase { a, b, turns }
        })
        .boxed()
}

/// default parameters of the crate, real size
fn default_params() -> BoxedStrategy<P> {
    prop_oneof![3 => Just(8usize), 1 => 1usize..=30]
        .prop_map(|logt| P { logt, ..DEFAULT_P })
        .boxed()
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        assumptions: &[
            "parameters leave at least 6 bits between the predicted noise and the decoding threshold",
            "keys and noise come from seeded generators except in the sub-check that uses the crate's own setup",
        ],
        subs: vec![
            sub("history", "random database size, parameters and sequence of reads and writes against an array model, every cell decrypted after every access; non-trivial: at least two accesses, one of them a write", 1040, 80000,
                || histories(oram_params(6, 7, 9), flat(log_cols(5, 7)), vec(one(), 1..=14).boxed(), small_pool(), no()),
                plain),
            sub("wide", "databases of 64 to 1024 items, indices over the whole range, few accesses", 160, 6000,
                || histories(oram_params(6, 6, 7), flat(prop_oneof![3 => 6usize..=8, 2 => 9usize..=10].boxed()), vec(far(), 2..=4).boxed(), prop_oneof![Just(0usize), Just(1), Just(3)].boxed(), any::<bool>().boxed()),
                plain),
            sub("crate_setup", "as history, set up by setup_random_oram with its own hash and secure seeding", 360, 16000,
                || histories(oram_params(6, 7, 9), flat(log_cols(4, 8)), vec(one(), 1..=8).boxed(), small_pool(), yes()),
                plain),
            sub("default_params", "the crate's default parameters (N=2048) on small databases", 12, 1200,
                || histories(default_params(), flat((1usize..=3).boxed()), vec(one(), 2..=5).boxed(), small_pool(), any::<bool>().boxed()),
                plain),
            sub("long", "long histories (up to 60 accesses) on one database", 72, 6000,
                || histories(oram_params(6, 6, 7), flat((1usize..=3).boxed()), vec(one(), 30..=60).boxed(), small_pool(), no()),
                plain),
            sub("large_ring", "small databases at N=1024 to 8192", 10, 600,
                || histories(oram_params(10, 12, 13), flat((1usize..=2).boxed()), vec(one(), 2..=4).boxed(), small_pool(), any::<bool>().boxed()),
                plain),
            sub("very_wide", "databases of 2048 or 4096 items", 6, 300,
                || histories(oram_params(6, 6, 6), flat((11usize..=12).boxed()), vec(far(), 2..=2).boxed(), prop_oneof![Just(0usize), Just(3)].boxed(), any::<bool>().boxed()),
                plain),
            sub("side_by_side", "two databases under different keys, used in turn by the same threads, each against its own model; non-trivial: they alternate and something is written", 200, 12000,
                || sides(histories(oram_params(6, 6, 8), flat(log_cols(4, 6)), vec(one(), 1..=5).boxed(), small_pool(), prop_oneof![4 => Just(false), 1 => Just(true)].boxed())),
                side),
            sub("marathon", "very long histories (up to 600 accesses) on one small database", 16, 1200,
                || histories(oram_params(6, 6, 6), flat((1usize..=2).boxed()), vec(one(), 150..=600).boxed(), small_pool(), any::<bool>().boxed()),
                plain),
        ],
    }
}

pub fn c02() -> Check {
    let mixed_modes = |m: usize| prop_oneof![5 => multi(m), 1 => one()].boxed();
    Check {
        id: "C02",
        assumptions: &["at most one write per index in a group, as the property states"],
        subs: vec![
            sub("groups", "sequences of query groups against an array model with snapshot semantics; indices repeat within a group; non-trivial: a write and at least two accesses", 840, 64000,
                move || histories(oram_params(6, 7, 9), flat(log_cols(4, 6)), vec(mixed_modes(6), 1..=5).boxed(), small_pool(), no()),
                plain),
            sub("large_groups", "groups of up to 40 queries on 2 to 16 items (many repetitions)", 180, 10000,
                || histories(oram_params(6, 6, 7), flat(log_cols(4, 4)), vec(multi(40), 1..=2).boxed(), small_pool(), no()),
                plain),
            sub("huge_groups", "groups of 40 to 300 queries on 2 to 8 items", 24, 1600,
                || histories(oram_params(6, 6, 6), flat((1usize..=3).boxed()), vec((vec((idx(), wr(4)), 40..=300).prop_map(G::Multi)).boxed(), 1..=2).boxed(), small_pool(), no()),
                plain),
            sub("large_ring", "small databases at N=1024 to 8192", 6, 500,
                || histories(oram_params(10, 12, 13), flat((1usize..=2).boxed()), vec(multi(3), 2..=3).boxed(), small_pool(), any::<bool>().boxed()),
                plain),
            sub("modes", "single queries, groups and batches of one query in turn on one database", 240, 16000,
                || histories(oram_params(6, 6, 8), flat(log_cols(4, 6)), vec(prop_oneof![2 => one(), 2 => multi(4), 1 => batch(1), 1 => mixed(1)], 3..=8).boxed(), small_pool(), prop_oneof![4 => Just(false), 1 => Just(true)].boxed()),
                plain),
            sub("side_by_side", "two databases under different keys, used in turn by the same threads, each against its own model; non-trivial: they alternate and something is written", 160, 8000,
                || sides(histories(oram_params(6, 6, 8), flat(log_cols(4, 6)), vec(multi(5), 1..=3).boxed(), small_pool(), prop_oneof![4 => Just(false), 1 => Just(true)].boxed())),
                side),
            sub("many_groups", "long sequences of groups on one database", 32, 2400,
                move || histories(oram_params(6, 6, 6), flat((1usize..=3).boxed()), prop_oneof![5 => vec(mixed_modes(4), 40..=100), 1 => vec(multi(2), 260..=320)].boxed(), small_pool(), no()),
                plain),
            sub("wide", "groups of up to 6 queries on databases of 64 to 256 items", 96, 4000,
                || histories(oram_params(6, 6, 7), flat((6usize..=8).boxed()), vec(multi(6), 1..=2).boxed(), small_pool(), any::<bool>().boxed()),
                plain),
            sub("crate_setup", "as groups, set up by setup_random_oram", 180, 8000,
                || histories(oram_params(6, 7, 8), flat(log_cols(4, 6)), vec(multi(5), 1..=3).boxed(), small_pool(), yes()),
                plain),
            sub("default_params", "the crate's default parameters (N=2048)", 12, 800,
                || histories(default_params(), flat((1usize..=3).boxed()), vec(multi(3), 1..=2).boxed(), small_pool(), no()),
                plain),
        ],
    }
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        assumptions: &["requested indices are distinct and placeable by first fit, as the property states"],
        subs: vec![
            sub("batches", "random table shapes, permutations and sequences of read and write batches against an array model; every copy of every item decrypted after every batch; non-trivial: a write and at least two item accesses", 900, 48000,
                || histories(oram_params(6, 6, 8), batch_shape(8, 4), vec(batch(8), 1..=4).boxed(), small_pool(), no()),
                plain),
            sub("crate_setup", "as batches, set up by setup_random_oram with its own hash", 240, 10000,
                || histories(oram_params(6, 6, 8), batch_shape(8, 3), vec(batch(6), 1..=3).boxed(), small_pool(), yes()),
                plain),
            sub("very_wide", "rows with 64 to 512 columns", 80, 3000,
                || histories(oram_params(6, 6, 7),
                    (1usize..=2, 1usize..=2, 6usize..=9).prop_map(|(h, k, lc)| (h * k, lc, h)).boxed(),
                    vec(batch(4), 1..=2).boxed(), small_pool(), any::<bool>().boxed()),
                plain),
            sub("large_ring", "small databases at N=1024 to 8192", 6, 400,
                || histories(oram_params(10, 12, 13), batch_shape(3, 1), vec(batch(3), 2..=3).boxed(), small_pool(), any::<bool>().boxed()),
                plain),
            sub("many_rows", "tables of 200 to 800 rows", 12, 600,
                || histories(oram_params(6, 6, 6),
                    (1usize..=3, 200usize..=800, 1usize..=2).prop_map(|(h, rows, lc)| (rows.next_multiple_of(h), lc, h)).boxed(),
                    vec(batch(150), 2..=2).boxed(), prop_oneof![Just(0usize), Just(3)].boxed(), any::<bool>().boxed()),
                plain),
            sub("side_by_side", "two databases under different keys, used in turn by the same threads, each against its own model; non-trivial: they alternate and something is written", 160, 8000,
                || sides(histories(oram_params(6, 6, 8), batch_shape(6, 3), vec(prop_oneof![3 => batch(6), 1 => mixed(4)], 1..=3).boxed(), small_pool(), prop_oneof![4 => Just(false), 1 => Just(true)].boxed())),
                side),
            sub("many_batches", "long sequences of batches on one database", 32, 2400,
                || histories(oram_params(6, 6, 6), batch_shape(4, 2), prop_oneof![5 => vec(prop_oneof![3 => batch(4), 1 => mixed(4)], 30..=120), 1 => vec(batch(2), 257..=320)].boxed(), small_pool(), any::<bool>().boxed()),
                plain),
            sub("wide", "rows with up to 64 columns, or up to 24 rows", 160, 6000,
                || histories(oram_params(6, 6, 7),
                    prop_oneof![batch_shape(3, 6), batch_shape(24, 2)].boxed(),
                    vec(batch(24), 1..=3).boxed(), small_pool(), no()),
                plain),
            sub("default_params", "the crate's default parameters (N=2048)", 12, 640,
                || histories(default_params(), batch_shape(3, 2), vec(batch(3), 1..=2).boxed(), small_pool(), no()),
                plain),
        ],
    }
}

pub fn c04() -> Check {
    let f = |c: &Case| -> R {
        let o = run_history(c, &mut NoObs)?;
        let nt = o.stats.writes > 0 && c.h > 1;
        Ok(labels(c, &o, Out::new(nt)))
    };
    let shape = || {
        (2usize..=5, 1usize..=10, 1usize..=3)
            .prop_map(|(h, rows, lc)| {
                let mut rows = rows;
                while (rows << lc) % h != 0 {
                    rows += 1;
                }
                (rows, lc, h)
            })
            .boxed()
    };
    Check {
        id: "C04",
        assumptions: &[],
        subs: vec![
            sub("replicas", "batches in which each item is read or written with its own value, on tables with 2 to 5 copies; all copies of all items decrypted after every batch; non-trivial: a write happened", 750, 48000,
                move || histories(oram_params(6, 6, 8), shape(), vec(prop_oneof![3 => mixed(8), 1 => batch(8)], 1..=3).boxed(), small_pool(), no()),
                f),
            sub("large_ring", "small databases at N=1024 to 8192", 5, 400,
                || histories(oram_params(10, 12, 13), (2usize..=3, 1usize..=1).prop_map(|(h, lc)| (h, lc, h)).boxed(), vec(mixed(3), 1..=2).boxed(), small_pool(), any::<bool>().boxed()),
                f),
            sub("many_items", "tables of 65 to 800 items with 2 to 5 copies, numbers of items of every residue", 16, 1200,
                || histories(oram_params(6, 6, 6),
                    prop_oneof![
                        1 => (2usize..=3, 66usize..=150, 2usize..=4).prop_map(|(h, rows, lc)| (rows.next_multiple_of(h), lc, h)),
                        3 => (2usize..=5, 66usize..=150, 1usize..=2).prop_map(|(h, items, lc)| {
                            let mut items = items;
                            while items * h % (1 << lc) != 0 {
                                items += 1;
                            }
                            (items * h >> lc, lc, h)
                        }),
                    ].boxed(),
                    vec(prop_oneof![3 => mixed(60), 1 => batch(60)], 1..=2).boxed(), prop_oneof![Just(0usize), Just(3)].boxed(), any::<bool>().boxed()),
                f),
            sub("full_batches", "batches that write every row of the table", 180, 10000,
                move || histories(oram_params(6, 6, 7), shape(), vec(mixed(30), 1..=2).boxed(), small_pool(), no()),
                f),
            sub("default_params", "the crate's default parameters (N=2048)", 8, 640,
                || histories(default_params(), (2usize..=3, 1usize..=2).prop_map(|(h, lc)| (h, lc, h)).boxed(), vec(mixed(3), 1..=2).boxed(), small_pool(), no()),
                f),
        ],
    }
}

// ---- C05

fn within(st: &Stats, n: usize) -> Result<(), String> {
    for (what, r) in [("a response", st.resp), ("a database cell", st.db)] {
        ensure!(
            r.mean < mean_limit(n),
            "noise power of {what} is {:.2} times the prediction",
            r.mean
        );
        ensure!(
            r.max < MAX_LIMIT,
            "noise power of {what} at one frequency is {:.1} times the prediction",
            r.max
        );
    }
    Ok(())
}

fn noise_case(c: &Case) -> R {
    let o = run_history(c, &mut NoObs)?;
    let st = &o.stats;
    if std::env::var("PV_CAL").is_ok() {
        println!("CAL {:.3} {:.1} {:.3} {:.1} {:?}", st.resp.mean, st.resp.max, st.db.mean, st.db.max, c.p);
    }
    if std::env::var("PV_CAL").is_err() { within(st, c.p.n())?; }
    Ok(labels(c, &o, Out::new(st.accesses >= 2))
        .label(format!("power/pred<={:.1}", (st.resp.mean.max(st.db.mean) * 2.0).ceil() / 2.0)))
}

/// reported response noise grows at most linearly and keeps a large margin at the default parameters
fn default_margin(c: &Case) -> R {
    let o = run_history(c, &mut NoObs)?;
    ensure!(
        o.stats.margin > 4.0,
        "default parameters leave only {:.1} bits after {} accesses",
        o.stats.margin,
        o.stats.accesses
    );
    within(&o.stats, c.p.n())?;
    Ok(labels(c, &o, Out::new(true)).label(format!("margin>={:.0}", o.stats.margin.floor())))
}

pub fn c05() -> Check {
    let any_groups = |m: usize| {
        vec(prop_oneof![3 => one(), 2 => multi(4)], 1..=m).boxed()
    };
    Check {
        id: "C05",
        assumptions: &["bound: the noise power, averaged over the frequencies, is at most 3 + 120/N times, and at each frequency at most 150 times, that of the independence-heuristic analysis in harness/src/noise.rs"],
        subs: vec![
            sub("flat", "single and multi-query histories, gadgets chosen so that different terms dominate; rms and maximum of every error compared with the analysis; non-trivial: at least two accesses", 540, 56000,
                move || histories(oram_params(6, 8, 10), flat(log_cols(4, 6)), any_groups(8), small_pool(), no()),
                noise_case),
            sub("groups", "the same for groups of up to 40 queries", 120, 6000,
                || histories(oram_params(6, 6, 8), flat(log_cols(2, 5)), vec(multi(40), 1..=2).boxed(), small_pool(), no()),
                noise_case),
            sub("batched", "the same for batches", 320, 24000,
                || histories(oram_params(6, 7, 9), batch_shape(6, 3), vec(prop_oneof![batch(6), mixed(6)], 1..=3).boxed(), small_pool(), no()),
                noise_case),
            sub("large_ring", "small databases at N=1024 to 8192", 10, 500,
                || prop_oneof![
                    2 => histories(oram_params(10, 12, 13), flat((1usize..=2).boxed()), vec(prop_oneof![3 => one(), 2 => multi(2)], 1..=3).boxed(), small_pool(), no()),
                    1 => histories(oram_params(10, 12, 12), batch_shape(3, 1), vec(mixed(3), 1..=2).boxed(), small_pool(), no()),
                ].boxed(),
                noise_case),
            sub("many_accesses", "up to 80 accesses on one database", 72, 3200,
                || histories(oram_params(6, 6, 7), flat((1usize..=2).boxed()), vec(one(), 40..=80).boxed(), small_pool(), no()),
                noise_case),
            sub("default_params", "the crate's default parameters (N=2048, t=256): margin above 4 bits throughout", 8, 480,
                || histories(Just(DEFAULT_P).boxed(), prop_oneof![flat((1usize..=4).boxed()), Just((3usize, 2usize, 3usize)).boxed()].boxed(),
                    vec(one(), 3..=6).boxed(), small_pool(), any::<bool>().boxed())
                    .prop_map(|mut c| { if c.rows > 1 { for g in c.groups.iter_mut() { if let G::One(i, w) = g { *g = G::Batch(vec![*i], *w) } } } c.p.logt = 8; c }).boxed(),
                default_margin),
        ],
    }
}

// ---- C06

#[derive(Default)]
struct Fresh {
    masks: HashSet<Vec<u64>>,
    bodies: HashSet<Vec<u64>>,
    s: Poly,
    shape: Option<String>,
    p: Option<P>,
    cols: usize,
    sum: f64,
    sum2: f64,
    count: f64,
    coefs: Vec<u64>,
    bits: Vec<u32>,
    delta: u64,
}

fn rgsw_rows(c: &RGSWCiphertext) -> Vec<RLWECiphertext> {
    (0..c.ciphertext_count().0).map(|i| c.get_nth_row(i)).collect()
}

impl Fresh {
    /// `msg`: the encoded message, or None for an encoded plaintext that is not known
    fn rlwe(&mut self, c: &RLWECiphertext, msg: Option<Poly>, what: &str) -> Result<(), String> {
        let m = mask_of(c);
        ensure!(m.iter().any(|x| *x != 0), "a query contains a trivial ciphertext (zero mask)");
        for x in &m {
            self.coefs.push((*x).min(x.wrapping_neg()));
            for (b, n) in self.bits.iter_mut().enumerate() {
                *n += (*x >> b & 1) as u32;
            }
        }
        ensure!(self.masks.insert(m), "two ciphertexts in queries share a mask");
        let b = body_of(c);
        ensure!(self.bodies.insert(b), "two ciphertexts in queries share a body");
        let ph = phase(c, &self.s);
        let d = self.delta;
        let sigma = self.p.unwrap().sigma();
        if msg.is_none() && 12.0 * sigma > d as f64 / 2.0 {
            return Ok(());
        }
        let e = match msg {
            Some(msg) => psub(&ph, &msg),
            None => ph.iter().map(|x| x.wrapping_add(d / 2) % d).map(|x| x.wrapping_sub(d / 2)).collect(),
        };
        ensure!(e.iter().any(|x| *x != 0), "a ciphertext in a query carries no noise");
        let (mut s1, mut s2) = (0.0, 0.0);
        for x in &e {
            let x = *x as i64 as f64;
            s1 += x;
            s2 += x * x;
        }
        let z = chi_z(s2, e.len(), sigma);
        ensure!(
            z.abs() < 7.5,
            "{what} carries noise of deviation {:.1}, configured {sigma:.1} ({z:.1} standard deviations off)",
            (s2 / e.len() as f64).sqrt()
        );
        self.sum += s1;
        self.sum2 += s2;
        self.count += e.len() as f64;
        Ok(())
    }
    /// the mask coefficients of everything sent so far look like independent uniform values
    fn uniform(&mut self) -> Result<(), String> {
        self.coefs.sort_unstable();
        ensure!(
            self.coefs.windows(2).all(|w| w[0] != w[1]),
            "a mask coefficient occurs twice (up to sign) among {} in queries",
            self.coefs.len()
        );
        let n = self.coefs.len() as f64;
        for (b, ones) in self.bits.iter().enumerate() {
            ensure!(
                (*ones as f64 - n / 2.0).abs() <= 4.5 * n.sqrt() + 1.0,
                "bit {b} of the mask coefficients in queries is set {ones} times out of {n}"
            );
        }
        Ok(())
    }
    /// an RGSW encryption of 0 or 1: message of each row
    fn rgsw(&mut self, c: &RGSWCiphertext, what: &str) -> Result<(), String> {
        let rows = rgsw_rows(c);
        let b = c.decomposition_base_log().0;
        let n = self.s.len();
        // bit from the first body row
        let ph = phase(&rows[1], &self.s);
        let g = 64 - b;
        let one = ((ph[0] as i64).unsigned_abs() >> (g - 1)) != 0;
        for (i, r) in rows.iter().enumerate() {
            let sh = 64 - b * (i / 2 + 1);
            let msg = if !one {
                vec![0; n]
            } else if i % 2 == 1 {
                let mut m = vec![0; n];
                m[0] = 1 << sh;
                m
            } else {
                scale(&self.s, (1u64 << sh).wrapping_neg())
            };
            self.rlwe(r, Some(msg), what)?;
        }
        Ok(())
    }
}

impl Observer for Fresh {
    fn query(&mut self, q: &ClientQuery) -> Result<(), String> {
        let Some((a, op, d)) = crate::hooks::parts(q) else { return Ok(()) };
        let dim = |c: &RGSWCiphertext| {
            format!(
                "{}/{}/{}/{}",
                c.polynomial_size().0,
                c.decomposition_base_log().0,
                c.decomposition_level_count().0,
                c.ciphertext_count().0
            )
        };
        let shape = format!(
            "{:?} {} {}",
            a.iter().map(dim).collect::<Vec<_>>(),
            dim(op),
            d.polynomial_size().0
        );
        match &self.shape {
            None => {
                // the shape the public parameters give
                let p = self.p.unwrap();
                let one = format!("{}/{}/{}/{}", p.n(), p.b, p.l, 2 * p.l);
                let want = format!(
                    "{:?} {} {}",
                    vec![one.clone(); panacea_log2(self.cols)],
                    one,
                    p.n()
                );
                ensure!(shape == want, "query has shape {shape}, expected {want}");
                self.shape = Some(shape);
            }
            Some(s) => ensure!(*s == shape, "query shapes differ: {s} and {shape}"),
        }
        for x in a {
            self.rgsw(x, "an address bit in a query")?;
        }
        self.rgsw(op, "the operation flag in a query")?;
        self.rlwe(d, None, "the data in a query")?;
        Ok(())
    }
    fn db(&mut self, before: &[Vec<RLWECiphertext>], after: &[Vec<RLWECiphertext>]) -> Result<(), String> {
        for (r, (x, y)) in before.iter().zip(after).enumerate() {
            for (c, (x, y)) in x.iter().zip(y).enumerate() {
                ensure!(mask_of(x) != mask_of(y), "access left the mask of cell ({r},{c}) unchanged");
                ensure!(body_of(x) != body_of(y), "access left the body of cell ({r},{c}) unchanged");
            }
        }
        Ok(())
    }
}

fn panacea_log2(x: usize) -> usize {
    (usize::BITS - 1 - x.leading_zeros()) as usize
}

fn fresh_case(c: &Case) -> R {
    let mut o = Oram::setup(c)?;
    let mut obs = Fresh {
        s: o.s.clone(),
        p: Some(c.p),
        cols: c.cols(),
        bits: vec![0; 64],
        delta: c.p.delta(),
        ..Default::default()
    };
    for g in &c.groups {
        o.step(g, &mut obs)?;
    }
    obs.uniform()?;
    // configured noise: count is at least several thousand samples
    if obs.count > 2000.0 {
        let sd = (obs.sum2 / obs.count).sqrt();
        let want = c.p.sigma();
        ensure!(
            sd > want * 0.8 && sd < want * 1.2 + 1.0,
            "ciphertexts in queries carry noise of deviation {sd:.1}, configured {want:.1} ({} samples)",
            obs.count
        );
        let mean = obs.sum / obs.count;
        ensure!(
            mean.abs() < 9.0 * (want + 1.0) / obs.count.sqrt() + 0.6,
            "noise in queries has mean {mean:.2} with deviation {want:.1}"
        );
    }
    let kinds = c.groups.iter().any(|g| matches!(g, G::One(_, Some(_)) | G::Batch(_, Some(_)) | G::Mixed(_)));
    Ok(labels(c, &o, Out::new(obs.masks.len() > 1))
        .label_if(kinds, "with writes")
        .label(bucket("ciphertexts", obs.masks.len() / 10)))
}

/// batches of different sizes and kinds all have one query per row
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapeCase {
    pub p: P,
    pub shape: (usize, usize, usize),
    pub perm: u64,
    pub seed: u64,
    pub reqs: Vec<(Vec<u32>, Option<D>)>,
}

fn shape_case(c: &ShapeCase) -> R {
    let (rows, lc, h) = c.shape;
    let cols = 1 << lc;
    let items = rows * cols / h;
    let hash = crate::hooks::hash_of(perm_table(c.perm, items * h), h, items);
    let mut cl = mk_client(&c.p, c.seed, rows, cols);
    let mut obs = Fresh {
        s: key_bits(&cl.sk),
        p: Some(c.p),
        cols,
        bits: vec![0; 64],
        delta: c.p.delta(),
        ..Default::default()
    };
    for (i, w) in &c.reqs {
        let mut u: Vec<usize> = vec![];
        for x in i {
            let x = *x as usize % items;
            if !u.contains(&x) {
                u.push(x);
            }
        }
        let (_, missed) = first_fit(&u, h, cols, |k, x| hash.hash(k, x));
        u.retain(|x| !missed.contains(x));
        let qs = match w {
            None => cl.gen_read_query_batch(&u, &hash),
            Some(d) => cl.gen_write_query_batch(&u, &pl(&d.poly(c.p.n(), c.p.t())), &hash),
        };
        ensure!(
            qs.len() == rows,
            "a batch addressing {} items has {} queries for {} rows",
            u.len(),
            qs.len(),
            rows
        );
        for q in &qs {
            obs.query(q)?;
        }
    }
    obs.uniform()?;
    Ok(Out::new(c.reqs.len() > 1)
        .label(bucket("requests", c.reqs.len()))
        .label(bucket("rows", rows)))
}

pub fn c06() -> Check {
    Check {
        id: "C06",
        assumptions: &["ciphertext contents are read through the guarded accessor ClientQuery::verif_parts"],
        subs: vec![
            sub("history", "histories in all modes; all masks and bodies of all ciphertexts ever sent pairwise distinct, noise present and of the configured deviation, query shape constant and as the public parameters give, every database ciphertext replaced; non-trivial: more than one ciphertext sent", 880, 36000,
                || prop_oneof![
                    3 => histories(oram_params(6, 7, 9), flat(log_cols(4, 6)), vec(one(), 2..=8).boxed(), small_pool(), no()),
                    2 => histories(oram_params(6, 7, 8), flat(log_cols(4, 5)), vec(multi(5), 1..=3).boxed(), small_pool(), no()),
                    3 => histories(oram_params(6, 7, 8), batch_shape(6, 3), vec(prop_oneof![batch(6), mixed(5)], 1..=3).boxed(), small_pool(), no()),
                    1 => histories(oram_params(6, 7, 8), flat(log_cols(4, 5)), vec(one(), 2..=6).boxed(), small_pool(), yes()),
                ].boxed(),
                fresh_case),
            sub("batch_shape", "batches of any number of reads or writes on the same table: same number of queries, same shape, all fresh", 480, 24000,
                || (params(Cfg { logn: logn(5, 7, 9), max_l: 12, max_kl: 8, lo: 10 }), batch_shape(12, 4), any::<u32>(), any::<u32>(), vec((vec(0u32..4096, 0..8), wr(5)), 2..=4))
                    .prop_map(|(mut p, shape, perm, seed, reqs)| { p.logt = 1 + p.logt % 32; ShapeCase { p, shape, perm: perm as u64, seed: seed as u64, reqs } }).boxed(),
                shape_case),
            sub("wide", "single reads and writes for rows of 2^7 to 2^14 items, and up to 400 requests of one client for small ones: same shape, all fresh", 120, 4800,
                || prop_oneof![
                    2 => (params(Cfg { logn: logn(5, 6, 7), max_l: 8, max_kl: 4, lo: 10 }), 7usize..=14, vec((any::<u32>(), wr(5)), 1..=3)),
                    1 => (params(Cfg { logn: logn(5, 6, 7), max_l: 3, max_kl: 4, lo: 10 }), 0usize..=3, vec((any::<u32>(), wr(5)), 100..=400)),
                ].prop_flat_map(|(p, lc, reqs)| (Just((p, lc, reqs)), any::<u32>(), any::<u32>()))
                    .prop_map(|((mut p, lc, reqs), perm, seed)| {
                        p.logt = 1 + p.logt % 32;
                        ShapeCase { p, shape: (1, lc, 1), perm: perm as u64, seed: seed as u64, reqs: reqs.into_iter().map(|(i, w)| (vec![i], w)).collect() }
                    }).boxed(),
                shape_case),
        ],
    }
}

// ---- C07

struct Clients {
    p: P,
    secure: bool,
    every: u64,
    n: u64,
    seed: u64,
    pool: Vec<Client>,
}

impl Observer for Clients {
    fn fresh_client(&mut self, base: &Client) -> Option<Client> {
        self.n += 1;
        let mut ctx = panacea::context::Context::new(self.p.tfhe(self.secure));
        if !self.secure {
            reseed(&mut ctx, mix(self.seed ^ self.n));
        }
        if self.every == 0 {
            return Some(client_of(base, &self.p, ctx));
        }
        // interleave a few clients: keep them in a pool and rotate
        if self.pool.len() < self.every as usize {
            return Some(client_of(base, &self.p, ctx));
        }
        None
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClientCase {
    pub c: Case,
    pub secure: bool,
}

fn fresh_clients(c: &ClientCase) -> R {
    let mut obs = Clients {
        p: c.c.p,
        secure: c.secure,
        every: 0,
        n: 0,
        seed: c.c.seed,
        pool: vec![],
    };
    let mut o = run_history(&c.c, &mut obs)?;
    // a client that has seen nothing of the history reads every item (or a few)
    let cols = c.c.cols();
    for i in (0..o.model.len()).step_by(1 + o.model.len() / 4) {
        let g = if c.c.rows == 1 && c.c.h == 1 {
            G::One(i as u32, None)
        } else {
            G::Batch(vec![i as u32], None)
        };
        o.step(&g, &mut obs)?;
    }
    let _ = cols;
    Ok(labels(&c.c, &o, Out::new(obs.n >= 2))
        .label(bucket("clients", obs.n as usize))
        .label_if(c.secure, "securely seeded clients"))
}

/// several long-lived clients of one key take turns in the order the case gives
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TurnCase {
    pub c: Case,
    pub k: usize,
    pub turns: Vec<u8>,
}

fn turns(c: &TurnCase) -> R {
    let mut o = Oram::setup(&c.c)?;
    let mut others: Vec<Client> = (0..c.k)
        .map(|i| {
            let ctx = c.c.p.ctx(mix(c.c.seed ^ (i as u64 + 1)));
            client_of(&o.client, &c.c.p, ctx)
        })
        .collect();
    let mut switched = 0;
    let mut last = usize::MAX;
    for (j, g) in c.c.groups.iter().enumerate() {
        let t = c.turns[j % c.turns.len()] as usize % (c.k + 1);
        if t != last {
            switched += 1;
            last = t;
        }
        if t < c.k {
            std::mem::swap(&mut o.client, &mut others[t]);
        }
        let r = o.step(g, &mut NoObs);
        if t < c.k {
            std::mem::swap(&mut o.client, &mut others[t]);
        }
        r?;
        o.check_db()?;
    }
    Ok(labels(&c.c, &o, Out::new(switched > 1)).label(bucket("switches", switched)))
}

fn any_mode(real: BoxedStrategy<bool>) -> BoxedStrategy<Case> {
    let r2 = real.clone();
    prop_oneof![
        4 => histories(oram_params(6, 7, 9), flat(log_cols(4, 6)), vec(prop_oneof![3 => one(), 1 => multi(4)], 2..=8).boxed(), small_pool(), real),
        3 => histories(oram_params(6, 6, 8), batch_shape(6, 3), vec(batch(6), 1..=4).boxed(), small_pool(), r2),
    ]
    .boxed()
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        assumptions: &[],
        subs: vec![
            sub("fresh_clients", "every access is made by a client created for it from the key and the parameters alone; afterwards new clients read items back; non-trivial: at least two clients", 780, 40000,
                || (any_mode(prop_oneof![3 => Just(false), 1 => Just(true)].boxed()), any::<bool>()).prop_map(|(c, secure)| ClientCase { c, secure }).boxed(),
                fresh_clients),
            sub("interleaved", "up to four long-lived clients of one key take turns; non-trivial: the client changes at least twice", 780, 40000,
                || (any_mode(no()), 1usize..=3, vec(any::<u8>(), 2..=6)).prop_map(|(c, k, turns)| TurnCase { c, k, turns }).boxed(),
                turns),
            sub("long", "two to four clients over 257 to 400 accesses, each of which makes many queries; non-trivial: the client changes at least twice", 12, 900,
                || (histories(oram_params(6, 6, 6), flat((1usize..=2).boxed()), vec(one(), 257..=400).boxed(), small_pool(), no()), 1usize..=3, prop_oneof![vec(any::<u8>(), 2..=6), vec(any::<u8>(), 400)])
                    .prop_map(|(c, k, turns)| TurnCase { c, k, turns }).boxed(),
                turns),
            sub("contested", "two or three clients take turns in writing few different values to few items, so that clients repeat themselves while others write in between; non-trivial: the client changes at least twice", 520, 26000,
                || {
                    let w = || prop_oneof![3 => few().prop_map(Some), 1 => Just(None)];
                    let single = (0u32..3, w()).prop_map(|(i, w)| G::One(i, w));
                    let group = vec((0u32..3, w()), 1..=3).prop_map(G::Multi);
                    let in_batch = || (vec(0u32..3, 1..=2), w()).prop_map(|(i, w)| G::Batch(i, w));
                    prop_oneof![
                        3 => (histories(oram_params(6, 6, 6), flat((1usize..=2).boxed()), vec(prop_oneof![6 => single, 1 => group, 1 => in_batch()], 8..=16).boxed(), small_pool(), no()), 1usize..=2, vec(any::<u8>(), 16)),
                        2 => (histories(oram_params(6, 6, 6), batch_shape(4, 2), vec(in_batch(), 6..=10).boxed(), small_pool(), no()), 1usize..=2, vec(any::<u8>(), 16)),
                    ]
                    .prop_map(|(c, k, turns)| TurnCase { c, k, turns })
                    .boxed()
                },
                turns),
        ],
    }
}

// ---- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PoolCase {
    pub c: Case,
    pub pools: Vec<usize>,
    /// background threads that disturb the schedule
    pub noise: usize,
}

fn pools(c: &PoolCase) -> R {
    let stop = std::sync::atomic::AtomicBool::new(false);
    let res = std::thread::scope(|sc| {
        for i in 0..c.noise {
            let stop = &stop;
            sc.spawn(move || {
                let mut x = i as u64;
                while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    for _ in 0..2000 {
                        x = mix(x);
                    }
                    if x % 3 == 0 {
                        std::thread::yield_now();
                    }
                }
            });
        }
        // also after a panic the threads above have to stop
        let r = guarded(|| {
            let mut last = None;
            for k in &c.pools {
                let mut cc = c.c.clone();
                cc.pool = *k;
                let o = run_history(&cc, &mut NoObs).map_err(|e| format!("{k} threads: {e}"))?;
                last = Some(o);
            }
            Ok::<_, String>(last.unwrap())
        });
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        r
    })?;
    Ok(labels(&c.c, &res, Out::new(c.pools.len() > 1 && res.stats.accesses > 1))
        .label_if(c.pools.contains(&1), "one thread")
        .label_if(c.pools.iter().any(|x| *x > 8), "more threads than cores")
        .label_if(c.pools.iter().any(|x| *x > 64), "more than 64 threads")
        .label_if(c.noise > 0, "disturbed schedule"))
}

/// several databases at the same time, each driven by a thread of its own
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TogetherCase {
    pub cs: Vec<Case>,
    pub threads: usize,
    /// one pool for all of them, or one for each
    pub shared: bool,
}

fn together(t: &TogetherCase) -> R {
    let new = || std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(t.threads).build().unwrap());
    let shared = new();
    let res: Vec<Result<Oram, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = t
            .cs
            .iter()
            .map(|c| {
                let c = Case { pool: t.threads, ..c.clone() };
                let pool = if t.shared { shared.clone() } else { new() };
                sc.spawn(move || guarded(|| run_history_in(&c, &mut NoObs, Some(pool))))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let mut o = vec![];
    for (k, r) in res.into_iter().enumerate() {
        o.push(r.map_err(|e| format!("database {k} of {} used at the same time: {e}", t.cs.len()))?);
    }
    let accesses: usize = o.iter().map(|x| x.stats.accesses).sum();
    Ok(labels(&t.cs[0], &o[0], Out::new(t.cs.len() > 1 && accesses > 2))
        .label_if(t.shared, "one pool")
        .label_if(!t.shared, "a pool for each")
        .label_if(t.threads == 1, "one thread"))
}

pub fn c08() -> Check {
    let pool_list = || {
        vec(
            prop_oneof![Just(1usize), Just(2), Just(3), Just(4), Just(5), Just(7), Just(8), Just(13), Just(16), Just(33), Just(70), Just(130)],
            2..=3,
        )
        .boxed()
    };
    let mut subs = vec![
        sub_opt("pools", "one history (fixed key, noise and hash) run under several thread pool sizes with and without disturbing threads; responses, their order and the database equal the model each time; non-trivial: at least two pools and two accesses", 180, 8000,
            Opt { workers: 4, shrink: 150 },
            move || {
                let groups1 = vec(prop_oneof![2 => one(), 3 => multi(10)], 1..=4).boxed();
                let groups2 = vec(prop_oneof![batch(12), mixed(8)], 1..=3).boxed();
                let c = prop_oneof![
                    histories(oram_params(6, 7, 8), flat(log_cols(5, 7)), groups1, Just(1usize).boxed(), no()),
                    histories(oram_params(6, 6, 8), batch_shape(12, 3), groups2, Just(1usize).boxed(), no()),
                ];
                (c, pool_list(), prop_oneof![3 => Just(0usize), 1 => 1usize..=6]).prop_map(|(c, pools, noise)| PoolCase { c, pools, noise }).boxed()
            },
            pools),
        sub_opt("wide_pools", "the same on wide databases (64 to 512 columns) and large groups (up to 48 queries)", 80, 3000,
            Opt { workers: 4, shrink: 150 },
            move || {
                let wide = histories(oram_params(6, 6, 7), flat((6usize..=9).boxed()), vec(far(), 2..=3).boxed(), Just(1usize).boxed(), no());
                let many = histories(oram_params(6, 6, 7), flat((1usize..=3).boxed()), vec(multi(48), 1..=2).boxed(), Just(1usize).boxed(), no());
                (prop_oneof![wide, many], pool_list(), prop_oneof![3 => Just(0usize), 1 => 1usize..=6]).prop_map(|(c, pools, noise)| PoolCase { c, pools, noise }).boxed()
            },
            pools),
    ];
    subs.push(sub_opt("together", "two to four databases used at the same time, each by a thread of its own, in one thread pool or in several, each against its own model; non-trivial: two databases and more than two accesses", 300, 12000,
        Opt { workers: 3, shrink: 150 },
        move || {
            let groups1 = vec(prop_oneof![2 => one(), 3 => multi(8)], 1..=4).boxed();
            let groups2 = vec(prop_oneof![batch(8), mixed(8)], 1..=3).boxed();
            let c = prop_oneof![
                2 => histories(oram_params(6, 6, 8), flat(log_cols(4, 6)), groups1, Just(1usize).boxed(), no()),
                1 => histories(oram_params(6, 6, 7), batch_shape(8, 3), groups2, Just(1usize).boxed(), no()),
            ];
            (vec(c, 2..=4), prop_oneof![Just(1usize), Just(2), Just(3), Just(4), Just(8), Just(16)], prop_oneof![3 => Just(true), 1 => Just(false)])
                .prop_map(|(cs, threads, shared)| TogetherCase { cs, threads, shared }).boxed()
        },
        together));
    subs.push(crate::tree_checks::parallel_sub());
    Check {
        id: "C08",
        assumptions: &["rayon's scheduling is sampled (pool sizes 1..130, background load), not enumerated"],
        subs,
    }
}

// ---- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetupCase {
    pub p: P,
    pub shape: (usize, usize, usize),
    pub perm: u64,
    pub seed: u64,
    /// 0: gen_dummy_database of a seeded client, 1: setup_random_oram
    pub route: u8,
}

fn setup_case(c: &SetupCase) -> R {
    let (rows, lc, h) = c.shape;
    let cols = 1usize << lc;
    let items = rows * cols / h;
    let t = c.p.t();
    let hash = if c.perm % 4 == 3 {
        NaiveHash::new(h, items)
    } else {
        crate::hooks::hash_of(perm_table(c.perm, items * h), h, items)
    };
    let (client, server, pts) = if c.route == 0 {
        let mut cl = mk_client(&c.p, c.seed, rows, cols);
        let neg = cl.gen_neg_sk();
        let (pts, db) = cl.gen_dummy_database(&hash);
        ensure!(
            db.len() == rows && db.iter().all(|r| r.len() == cols),
            "database has the wrong shape"
        );
        (cl, Server::new(db, neg, c.p.tfhe(false)), pts)
    } else {
        setup_random_oram(rows, cols, &hash, c.p.tfhe(true))
    };
    ensure!(client.rows == rows && client.cols == cols, "client reports another shape");
    ensure!(pts.len() == items, "{} items returned, expected {items}", pts.len());
    let s = key_bits(&client.sk);
    let Some(db) = crate::hooks::data(&server) else { return Ok(Out::new(items > 1)) };
    ensure!(
        db.len() == rows && db.iter().all(|r| r.len() == cols),
        "server database has the wrong shape"
    );
    let mut seen = HashSet::new();
    for (i, pt) in pts.iter().enumerate() {
        let pt = pl_vec(pt);
        ensure!(pt.len() == c.p.n(), "item {i} has {} coefficients", pt.len());
        ensure!(pt.iter().all(|x| *x < t), "item {i} is outside the plaintext space");
        let want = scale(&pt, c.p.delta());
        for k in 0..h {
            let a = hash.hash(k, i);
            ensure!(seen.insert(a), "harness: hash is not a bijection");
            let e = psub(&phase(&db[a / cols][a % cols], &s), &want);
            ensure!(
                max_abs(&e) < c.p.delta() / 2,
                "cell ({},{}) does not decrypt to item {i} (copy {k})",
                a / cols,
                a % cols
            );
            ensure!(
                max_abs_f(&e) < 12.0 * (c.p.sigma() + 1.0),
                "cell ({},{}) is noisier than a fresh encryption: {}",
                a / cols,
                a % cols,
                max_abs_f(&e)
            );
        }
    }
    // the first items are sampled independently: with N >= 32 coefficients equal ones do not happen
    let first: HashSet<Poly> = pts.iter().take(128.min(items)).map(pl_vec).collect();
    if c.p.n() * c.p.logt >= 96 {
        ensure!(first.len() == 128.min(items), "sampled items repeat");
    }
    Ok(Out::new(items > 1)
        .label(bucket("items", items))
        .label(format!("h={h}"))
        .label_if(items > 128, "more items than distinct plaintexts")
        .label_if(items > 128 && h > 1, "replicated items with several copies")
        .label_if(c.route == 1, "setup_random_oram"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DecCase {
    pub c: Case,
    pub bits: u64,
}

/// decrypt_db of binary items, before and after accesses
fn dec_db(c: &DecCase) -> R {
    let cs = &c.c;
    let cols = cs.cols();
    let items = cs.items();
    let n = cs.p.n();
    let hash = crate::hooks::hash_of(perm_table(cs.perm, items * cs.h), cs.h, items);
    let mut cl = mk_client(&cs.p, cs.seed, cs.rows, cols);
    let neg = cl.gen_neg_sk();
    let mut db = vec![vec![RLWECiphertext::allocate(cl.ctx.poly_size); cols]; cs.rows];
    let mut model: Vec<Poly> = vec![];
    for i in 0..items {
        let m = match i % 6 {
            3 => vec![1; n],
            4 => vec![0; n],
            _ => random_bits(n, mix(c.bits ^ i as u64)),
        };
        for k in 0..cs.h {
            let a = hash.hash(k, i);
            cl.sk.encode_encrypt_rlwe(&mut db[a / cols][a % cols], &pl(&m), &mut cl.ctx);
        }
        model.push(m);
    }
    let mut server = Server::new(db, neg, cs.p.tfhe(false));
    let pack = |m: &Poly| m.iter().take(64).enumerate().fold(0u64, |a, (i, x)| a | (x << i));
    let check = |server: &Server, model: &[Poly], cl: &Client, when: &str| -> Result<(), String> {
        let d = server.decrypt_db(&cl.sk);
        ensure!(d.len() == cs.rows && d.iter().all(|r| r.len() == cols), "decrypt_db has the wrong shape");
        for (i, m) in model.iter().enumerate() {
            for k in 0..cs.h {
                let a = hash.hash(k, i);
                ensure!(
                    d[a / cols][a % cols] == pack(m),
                    "{when}: decrypt_db gives {:#x} for cell ({},{}), expected {:#x}",
                    d[a / cols][a % cols],
                    a / cols,
                    a % cols,
                    pack(m)
                );
            }
        }
        Ok(())
    };
    check(&server, &model, &cl, "before")?;
    for g in &cs.groups {
        if let G::Batch(i, w) = g {
            let i = i.first().copied().unwrap_or(0) as usize % items;
            let val = w.map(|d| random_bits(n, d.seed));
            let qs = match &val {
                None => cl.gen_read_query_batch(&[i], &hash),
                Some(v) => cl.gen_write_query_batch(&[i], &pl(v), &hash),
            };
            in_pool(2, || server.process_batch(qs, &hash));
            if let Some(v) = val {
                model[i] = v;
            }
            check(&server, &model, &cl, "after an access")?;
        }
    }
    Ok(Out::new(items > 1)
        .label(bucket("items", items))
        .label(bucket("accesses", cs.groups.len()))
        .label(format!("logt<={}", cs.p.logt.div_ceil(8) * 8)))
}

pub fn c09() -> Check {
    let shapes = || {
        prop_oneof![
            4 => batch_shape(10, 4),
            2 => (1usize..=8).prop_map(|lc| (1usize, lc, 1usize)),
            3 => (1usize..=4, 1usize..=6, 5usize..=7).prop_map(|(h, k, lc)| (h * k, lc, h)),
        ]
        .boxed()
    };
    Check {
        id: "C09",
        assumptions: &["the shape divides evenly by the number of hash functions, which setup_random_oram asserts"],
        subs: vec![
            sub("setup", "random shapes (up to 1500 cells, more than 128 items included), hashes and parameters; every cell decrypted and compared with the returned plaintext; non-trivial: more than one item", 6000, 120000,
                move || (params(Cfg { logn: logn(5, 7, 9), max_l: 8, max_kl: 8, lo: 10 }), shapes(), any::<u32>(), any::<u32>(), 0u8..2)
                    .prop_map(|(p, shape, perm, seed, route)| {
                        let p = fit(p, 5.0, |p| p.np().fresh().log_std());
                        SetupCase { p, shape, perm: perm as u64, seed: seed as u64, route }
                    }).boxed(),
                setup_case),
            sub("huge", "tables of up to 200000 cells at N=16 or 32", 24, 480,
                || (params(Cfg { logn: logn(4, 5, 5), max_l: 4, max_kl: 4, lo: 10 }), prop_oneof![(1usize..=3, 20usize..=60, 8usize..=10), (1usize..=2, 200usize..=400, 7usize..=8), (1usize..=1, 1usize..=1, 16usize..=17)], any::<u32>(), any::<u32>(), 0u8..2)
                    .prop_map(|(p, (h, k, lc), perm, seed, route)| {
                        let p = fit(p, 5.0, |p| p.np().fresh().log_std());
                        SetupCase { p, shape: (h * k, lc, h), perm: perm as u64, seed: seed as u64, route }
                    }).boxed(),
                setup_case),
            sub("decrypt_db", "databases of binary items under any plaintext modulus: decrypt_db before and after read and write batches against the model; non-trivial: more than one item", 1440, 28800,
                || (histories(oram_params(6, 6, 7), batch_shape(6, 3), vec((0u32..4096, wr(6)).prop_map(|(i, w)| G::Batch(vec![i], w)), 0..=3).boxed(), Just(2usize).boxed(), no()), any::<u32>())
                    .prop_map(|(c, bits)| DecCase { c, bits: bits as u64 }).boxed(),
                dec_db),
            sub("default_params", "the default parameters (N=2048)", 30, 600,
                || (default_params(), batch_shape(6, 3), any::<u32>(), any::<u32>(), 0u8..2)
                    .prop_map(|(p, shape, perm, seed, route)| SetupCase { p, shape, perm: perm as u64, seed: seed as u64, route }).boxed(),
                setup_case),
        ],
    }
}
