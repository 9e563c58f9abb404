//! C30: what does not fit is refused, and a refused request changes nothing.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oram_checks::*;
use crate::oramh::*;
use crate::refm::*;
use concrete_core::prelude::PolynomialSize;
use panacea::context::Context;
use panacea::decision_tree::encrypt_feature_vector;
use panacea::lwe::LWEtoRLWEKeyswitchKey;
use panacea::naive_hash::NaiveHash;
use panacea::oram::{setup_random_oram, ClientQuery};
use panacea::params::TFHEParameters;
use panacea::rlwe::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// an access to an item that does not exist
    Item(u32, Option<D>),
    /// a batch in which one of the items does not exist: others, position, distance from the end
    InBatch(Vec<u32>, u8, u32, Option<D>),
    /// a plaintext with a coefficient that the modulus does not allow: item, data, position, excess
    Data(u32, D, u16, u64),
    /// a batch that first-fit cannot place
    Crowded(u32, Option<D>),
    /// a group with too few or too many queries
    Count(i8),
    /// queries made for another row length: length, position in the group, length of the group
    Width(u8, u8, u8),
    /// a group without queries is no error and changes nothing
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RefuseCase {
    pub c: Case,
    /// requests that do not fit, before the group of that number
    pub bad: Vec<(u8, Bad)>,
}

fn bad(batch: bool) -> BoxedStrategy<Bad> {
    let far = || prop_oneof![4 => Just(0u32), 2 => 1u32..4, 1 => any::<u32>()];
    let excess = prop_oneof![3 => Just(0u64), 1 => 1u64..100, 1 => any::<u64>()];
    let common = prop_oneof![
        2 => (far(), wr(5)).prop_map(|(i, w)| Bad::Item(i, w)),
        2 => (0u32..4096, data(), any::<u16>(), excess).prop_map(|(i, d, k, x)| Bad::Data(i, d, k, x)),
        2 => (0u8..8, any::<u8>(), 1u8..5).prop_map(|(w, k, n)| Bad::Width(w, k, n)),
        1 => (vec(0u32..4096, 0..4), any::<u8>(), far(), wr(5)).prop_map(|(v, k, f, w)| Bad::InBatch(v, k, f, w)),
    ];
    if batch {
        prop_oneof![
            6 => common,
            2 => prop_oneof![4 => -3i8..=3, 1 => -100i8..100].prop_map(Bad::Count),
            2 => (any::<u32>(), wr(5)).prop_map(|(s, w)| Bad::Crowded(s, w)),
        ]
        .boxed()
    } else {
        prop_oneof![6 => common, 1 => Just(Bad::Empty)].boxed()
    }
}

/// the request is refused and the database is what it was, bit for bit
fn refused(o: &mut Oram, what: &str, f: impl FnOnce(&mut Oram)) -> Result<(), String> {
    let before = crate::hooks::data(&o.server).unwrap_or_default();
    ensure!(panics(|| f(o)), "{what} is not refused");
    let after = crate::hooks::data(&o.server).unwrap_or_default();
    let same = before.len() == after.len()
        && before.iter().flatten().zip(after.iter().flatten()).all(|(x, y)| {
            x.polynomial_size() == y.polynomial_size() && raw(x) == raw(y)
        });
    ensure!(same, "{what} is refused but has changed the database");
    Ok(())
}

fn raw(c: &RLWECiphertext) -> (Poly, Poly) {
    (mask_of(c), body_of(c))
}

impl Bad {
    fn run(&self, o: &mut Oram) -> Result<Option<&'static str>, String> {
        let (n, t) = (o.p.n(), o.p.t());
        let items = o.model.len();
        Ok(Some(match self {
            Bad::Item(d, w) => {
                let i = items + *d as usize;
                refused(o, &format!("an access to item {i} of {items}"), |o| {
                    match w {
                        None => o.client.gen_read_query_one(i, &o.hash),
                        Some(w) => o.client.gen_write_query_one(i, &pl(&w.poly(n, t)), &o.hash),
                    };
                })?;
                "no such item"
            }
            Bad::InBatch(v, k, d, w) => {
                let mut u = vec![];
                for i in v {
                    let i = *i as usize % items;
                    if !u.contains(&i) {
                        u.push(i);
                    }
                }
                u.insert(*k as usize % (u.len() + 1), items + *d as usize);
                refused(o, &format!("a batch of the items {u:?} of {items}"), |o| {
                    match w {
                        None => o.client.gen_read_query_batch(&u, &o.hash),
                        Some(w) => o.client.gen_write_query_batch(&u, &pl(&w.poly(n, t)), &o.hash),
                    };
                })?;
                "no such item in a batch"
            }
            Bad::Data(i, d, k, x) => {
                let mut p = d.poly(n, t);
                let k = *k as usize % n;
                p[k] = t.checked_add(*x).unwrap_or(u64::MAX);
                let i = *i as usize % items;
                refused(o, &format!("writing {} at coefficient {k} with modulus {t}", p[k]), |o| {
                    o.client.gen_write_query_one(i, &pl(&p), &o.hash);
                })?;
                "data too large"
            }
            Bad::Crowded(s, w) => {
                let mut u: Vec<usize> = (0..items).collect();
                Sm(*s as u64).shuffle(&mut u);
                u.truncate(o.rows + 1 + *s as usize % 3);
                let (_, missed) = first_fit(&u, o.h, o.cols, |h, x| o.at(h, x));
                if missed.is_empty() {
                    return Ok(None);
                }
                refused(o, &format!("the batch {u:?}, in which {missed:?} finds no row"), |o| {
                    match w {
                        None => o.client.gen_read_query_batch(&u, &o.hash),
                        Some(w) => o.client.gen_write_query_batch(&u, &pl(&w.poly(n, t)), &o.hash),
                    };
                })?;
                "crowded batch"
            }
            Bad::Count(d) => {
                let k = (o.rows as i64 + *d as i64).max(0) as usize;
                if k == o.rows {
                    return Ok(None);
                }
                let mut qs: Vec<ClientQuery> = vec![];
                while qs.len() < k.min(o.rows + 4) {
                    qs.extend(o.client.gen_read_query_batch(&[], &o.hash));
                }
                qs.truncate(k);
                let (pool, hash) = (o.pool, o.hash.clone());
                refused(o, &format!("a batch of {k} queries for {} rows", o.rows), |o| {
                    let srv = &mut o.server;
                    in_pool(pool, || srv.process_batch(qs, &hash));
                })?;
                "wrong number of queries"
            }
            Bad::Width(lc, k, len) => {
                let cols = 1usize << lc;
                if cols == o.cols {
                    return Ok(None);
                }
                let ctx = o.p.ctx(mix(*k as u64 + 77));
                let mut other = client_of(&o.client, &o.p, ctx);
                other.cols = cols;
                let mut wrong = || other.gen_read_query_batch(&[], &o.hash).remove(0);
                let what = format!("a query for rows of {cols} items at a row of {}", o.cols);
                let pool = o.pool;
                if o.rows > 1 {
                    let mut qs = o.client.gen_write_query_batch(&[], &pl(&vec![0; n]), &o.hash);
                    let w: Vec<usize> = (0..qs.len()).collect();
                    if !w.is_empty() {
                        // a write to item 0, so that the other rows have something to do
                        qs = o.client.gen_write_query_batch(&[0], &pl(&vec![t - 1; n]), &o.hash);
                    }
                    let at = *k as usize % qs.len();
                    qs[at] = wrong();
                    let hash = o.hash.clone();
                    refused(o, &what, |o| {
                        let srv = &mut o.server;
                        in_pool(pool, || srv.process_batch(qs, &hash));
                    })?;
                    "wrong row length in a batch"
                } else if *len == 1 {
                    let q = wrong();
                    refused(o, &what, |o| {
                        let srv = &mut o.server;
                        in_pool(pool, || srv.process_one(q));
                    })?;
                    "wrong row length"
                } else {
                    let mut qs: Vec<ClientQuery> = (0..*len as usize - 1)
                        .map(|i| {
                            let v = pl(&vec![t - 1; n]);
                            o.client.gen_write_query_one(i % items, &v, &o.hash)
                        })
                        .collect();
                    qs.insert(*k as usize % (qs.len() + 1), wrong());
                    refused(o, &what, |o| {
                        let srv = &mut o.server;
                        in_pool(pool, || srv.process_multi(qs));
                    })?;
                    "wrong row length in a group"
                }
            }
            Bad::Empty => {
                let (ys, _) = o.server.process_multi(vec![]);
                ensure!(ys.is_empty(), "{} responses for no query", ys.len());
                o.check_db().map_err(|e| format!("after a group without queries: {e}"))?;
                "empty group"
            }
        }))
    }
}

fn refusals(c: &RefuseCase) -> R {
    let mut o = Oram::setup(&c.c)?;
    let mut seen = vec![];
    let slots = c.c.groups.len() + 1;
    for k in 0..slots {
        for (at, b) in &c.bad {
            if *at as usize % slots == k {
                if let Some(l) = b.run(&mut o).map_err(|e| format!("before group {k}: {e}"))? {
                    seen.push(l);
                }
            }
        }
        if k < c.c.groups.len() {
            o.step(&c.c.groups[k], &mut NoObs).map_err(|e| format!("group {k}: {e}"))?;
            o.check_db().map_err(|e| format!("after group {k}: {e}"))?;
        }
    }
    let mut out = labels(&c.c, &o, Out::new(!seen.is_empty() && o.stats.accesses > 0));
    seen.sort_unstable();
    seen.dedup();
    for l in seen {
        out = out.label(l);
    }
    Ok(out)
}

/// a shape that the hash does not fit
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetupCase {
    pub rows: usize,
    pub log_cols: usize,
    pub h: usize,
    pub items: usize,
}

fn setup_refused(c: &SetupCase) -> R {
    let p = TFHEParameters { polynomial_size: 32, ..TFHEParameters::default() };
    let cols = 1usize << c.log_cols;
    let hash = NaiveHash::new(c.h, c.items);
    let fits = c.rows * cols == c.h * c.items;
    let r = panics(|| {
        setup_random_oram(c.rows, cols, &hash, p);
    });
    ensure!(
        r != fits,
        "a database of {}x{cols} cells for {} copies of {} items is {}",
        c.rows,
        c.h,
        c.items,
        if r { "refused" } else { "accepted" }
    );
    Ok(Out::new(!fits).label(if c.h * c.items < c.rows * cols { "too few items" } else { "too many items" }))
}

/// building blocks: what they are given does not fit
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PartCase {
    pub p: P,
    pub seed: u64,
    pub kind: u8,
    pub x: u64,
    pub ok: Vec<u16>,
    pub at: u8,
}

fn parts(c: &PartCase) -> R {
    let n = c.p.n();
    let mut ctx: Context = c.p.ctx(c.seed);
    let sk = ctx.gen_rlwe_sk();
    let l = c.p.l;
    let short = c.x as usize % l;
    let label = match c.kind {
        0 => {
            let mut f: Vec<usize> = c.ok.iter().map(|x| *x as usize % n).collect();
            ensure!(
                encrypt_feature_vector(&sk, &f, &mut ctx).len() == f.len(),
                "features {f:?} below {n} are not all encrypted"
            );
            let b = (n as u64).saturating_add(c.x) as usize;
            f.insert(c.at as usize % (f.len() + 1), b);
            ensure!(
                panics(|| {
                    encrypt_feature_vector(&sk, &f, &mut ctx);
                }),
                "feature {b} is not refused for N={n}"
            );
            "feature"
        }
        1 => {
            let bit = c.x.saturating_add(2);
            ensure!(
                panics(|| {
                    make_decomposed_rlwe_ct(&sk, bit, &mut ctx);
                }),
                "the digit preparation accepts {bit} as a bit"
            );
            ensure!(
                panics(|| {
                    make_decomposed_rlwe_ct2(&sk, bit, &mut ctx);
                }),
                "the digit preparation for the slow expansion accepts {bit} as a bit"
            );
            "bit"
        }
        2 => {
            let neg = sk.neg_gsw(&mut ctx);
            let map = gen_all_subs_ksk(&sk, &mut ctx);
            let mut cs = make_decomposed_rlwe_ct(&sk, c.x & 1, &mut ctx);
            cs.truncate(short);
            ensure!(
                panics(|| {
                    expand(&cs, &map, &neg, &ctx);
                }),
                "expansion accepts {short} of {l} digits"
            );
            "digits, expand"
        }
        3 => {
            let neg = sk.neg_gsw(&mut ctx);
            let map = gen_all_subs_ksk_fourier(&sk, &mut ctx);
            let mut cs = make_decomposed_rlwe_ct(&sk, c.x & 1, &mut ctx);
            cs.truncate(short);
            ensure!(
                panics(|| {
                    expand_fourier(&cs, &map, &neg, &ctx);
                }),
                "Fourier expansion accepts {short} of {l} digits"
            );
            "digits, expand_fourier"
        }
        4 => {
            let lwe = ctx.gen_lwe_sk();
            let sk = lwe.to_rlwe_sk();
            let neg = sk.neg_gsw(&mut ctx);
            let mut ksk = LWEtoRLWEKeyswitchKey::allocate(&ctx);
            ksk.fill_with_keyswitching_key(&lwe, &mut ctx);
            let mut cs = make_decomposed_rlwe_ct2(&sk, c.x & 1, &mut ctx);
            if c.at % 2 == 0 {
                cs.truncate(short);
            } else {
                cs.push(cs[0].clone());
            }
            ensure!(
                panics(|| {
                    expand_slow(&cs, &ksk, &neg, &ctx);
                }),
                "slow expansion accepts {} of {l} digits",
                cs.len()
            );
            "digits, expand_slow"
        }
        6 => {
            // two keys under each other's exponent
            let k = |i: usize| (1 << (1 + i)) + 1;
            let i = c.x as usize % c.p.logn;
            let j = (i + 1 + c.at as usize / 2 % (c.p.logn - 1)) % c.p.logn;
            let ct = RLWECiphertext::allocate(PolynomialSize(n));
            let r = if c.at % 2 == 0 {
                let mut map = gen_all_subs_ksk(&sk, &mut ctx);
                let (a, b) = (map.remove(&k(i)).unwrap(), map.remove(&k(j)).unwrap());
                map.insert(k(i), b);
                map.insert(k(j), a);
                panics(|| {
                    ct.trace1(&map);
                })
            } else {
                let mut map = gen_all_subs_ksk_fourier(&sk, &mut ctx);
                let (a, b) = (map.remove(&k(i)).unwrap(), map.remove(&k(j)).unwrap());
                map.insert(k(i), b);
                map.insert(k(j), a);
                let mut out = ct.clone();
                panics(|| {
                    ct.trace1_fourier(&mut out, &map);
                })
            };
            ensure!(r, "the trace works with the keys for X^{} and X^{} in each other's place", k(i), k(j));
            "exchanged substitution keys"
        }
        7 => {
            // the digits and the division by N take more than the 64 bits of the torus
            let mut p = c.p;
            let over = 1 + c.at as usize % 6;
            p.b = 1 + c.x as usize % 20;
            p.l = ((64 + over).saturating_sub(p.logn)).div_ceil(p.b);
            while p.b * p.l + p.logn <= 64 {
                p.l += 1;
            }
            if p.b * p.l >= 64 {
                return Ok(Out::new(false).label("no such gadget"));
            }
            let mut ctx: Context = p.ctx(c.seed);
            let sk = ctx.gen_rlwe_sk();
            ensure!(
                panics(|| {
                    make_decomposed_rlwe_ct(&sk, c.x & 1, &mut ctx);
                }),
                "digits are prepared for {} levels of {} bits and N={n}",
                p.l,
                p.b
            );
            "digits beyond the torus"
        }
        8 => {
            let lwe = ctx.gen_lwe_sk();
            let mut p = c.p;
            p.logn = if c.at % 2 == 0 { p.logn + 1 } else { p.logn - 1 };
            let mut other = p.ctx(c.seed ^ 1);
            let mut ksk = LWEtoRLWEKeyswitchKey::allocate(&other);
            ensure!(
                panics(|| ksk.fill_with_keyswitching_key(&lwe, &mut other)),
                "a conversion key for N={} is made from a key of dimension {n}",
                p.n()
            );
            "conversion key of another degree"
        }
        _ => {
            // a trace whose key set lacks one of the substitutions
            let k = (1 << (1 + c.x as usize % c.p.logn)) + 1;
            let ct = RLWECiphertext::allocate(PolynomialSize(n));
            if c.at % 2 == 0 {
                let mut map = gen_all_subs_ksk(&sk, &mut ctx);
                ensure!(map.remove(&k).is_some(), "no substitution key for X -> X^{k}");
                ensure!(
                    panics(|| {
                        ct.trace1(&map);
                    }),
                    "the trace works without the key for X -> X^{k}"
                );
            } else {
                let mut map = gen_all_subs_ksk_fourier(&sk, &mut ctx);
                ensure!(map.remove(&k).is_some(), "no Fourier substitution key for X -> X^{k}");
                let mut out = ct.clone();
                ensure!(
                    panics(|| {
                        ct.trace1_fourier(&mut out, &map);
                    }),
                    "the Fourier trace works without the key for X -> X^{k}"
                );
            }
            "missing substitution key"
        }
    };
    Ok(Out::new(true).label(label))
}

pub fn c30() -> Check {
    Check {
        id: "C30",
        assumptions: &["a refusal is a panic, the way the crate reports errors everywhere"],
        subs: vec![
            sub("single_row", "histories on a one-row database with requests in between that do not fit (items, data, row length, empty groups): each refused, the encrypted database unchanged bit for bit, the history goes on; non-trivial: a request was refused and an item accessed", 700, 40000,
                || (histories(oram_params(6, 6, 8), flat(log_cols(4, 6)), vec(prop_oneof![3 => one(), 1 => multi(4)], 1..=5).boxed(), small_pool(), prop_oneof![4 => Just(false), 1 => Just(true)].boxed()), vec((any::<u8>(), bad(false)), 1..=6))
                    .prop_map(|(c, bad)| RefuseCase { c, bad }).boxed(),
                refusals),
            sub("batches", "the same for databases of several rows, with wrong numbers of queries, unplaceable batches and one query for another row length among good ones", 700, 40000,
                || (histories(oram_params(6, 6, 8), batch_shape(6, 3), vec(batch(4), 1..=4).boxed(), small_pool(), prop_oneof![4 => Just(false), 1 => Just(true)].boxed()), vec((any::<u8>(), bad(true)), 1..=6))
                    .prop_map(|(c, bad)| RefuseCase { c, bad }).boxed(),
                refusals),
            sub("setup", "shapes that the hash fits or does not fit; non-trivial: it does not", 16000, 400000,
                || (1usize..=5, 0usize..=3, 1usize..=4, 1usize..=16, any::<bool>())
                    .prop_map(|(rows, log_cols, h, items, near)| {
                        let cells = rows << log_cols;
                        let items = if near { (cells / h + items % 3).saturating_sub(1).max(1) } else { items };
                        SetupCase { rows, log_cols, h, items }
                    }).boxed(),
                setup_refused),
            sub("parts", "features of N or more, bits above one, missing digits, missing and exchanged substitution keys, gadgets too fine for the digits, conversion keys of another degree; non-trivial: such a gadget exists", 2400, 60000,
                || (params(Cfg { logn: logn(6, 6, 8), max_l: 8, max_kl: 8, lo: 10 }), any::<u32>(), 0u8..9, prop_oneof![3 => 0u64..20, 1 => any::<u64>()], vec(any::<u16>(), 0..4), any::<u8>())
                    .prop_map(|(mut p, seed, kind, x, ok, at)| {
                        // room for the digits of an expansion
                        while p.b * p.l + p.logn > 63 {
                            if p.l > 1 {
                                p.l -= 1;
                            } else {
                                p.b -= 1;
                            }
                        }
                        let p = fit(p, 5.0, |p| p.np().fresh().log_std());
                        PartCase { p, seed: seed as u64, kind, x, ok, at }
                    }).boxed(),
                parts),
        ],
    }
}
