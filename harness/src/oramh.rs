//! Model-based executor for ORAM histories: the model is a plain array.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::noise::*;
use crate::refm::*;
use panacea::naive_hash::NaiveHash;
use panacea::oram::{Client, ClientQuery, Server};
use panacea::rlwe::RLWECiphertext;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum G {
    /// one access in single-query mode
    One(u32, Option<D>),
    /// a group in multi-query mode
    Multi(Vec<(u32, Option<D>)>),
    /// a batch over several rows: all reads or all writes of one value
    Batch(Vec<u32>, Option<D>),
    /// a batch whose rows come from different query batches: each item read or written on its own
    Mixed(Vec<(u32, Option<D>)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub p: P,
    pub log_cols: usize,
    pub rows: usize,
    pub h: usize,
    pub perm: u64,
    pub seed: u64,
    /// threads of the pool the server runs in; 0: the global pool
    pub pool: usize,
    /// set up with the crate's own setup function (secure seeding, own hash)
    pub real: bool,
    pub groups: Vec<G>,
}

impl Case {
    pub fn cols(&self) -> usize {
        1 << self.log_cols
    }
    pub fn items(&self) -> usize {
        self.rows * self.cols() / self.h
    }
}

pub fn perm_table(seed: u64, len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..len).collect();
    if seed != 0 {
        Sm(seed).shuffle(&mut v);
    }
    v
}

/// first-fit placement in request order: row -> (col, item); items that do not fit are left out
pub fn first_fit(
    items: &[usize],
    h: usize,
    cols: usize,
    loc: impl Fn(usize, usize) -> usize,
) -> (Vec<(usize, usize, usize)>, Vec<usize>) {
    let mut used = HashSet::new();
    let mut placed = vec![];
    let mut missed = vec![];
    'i: for &x in items {
        for k in 0..h {
            let a = loc(k, x);
            let (r, c) = (a / cols, a % cols);
            if used.insert(r) {
                placed.push((r, c, x));
                continue 'i;
            }
        }
        missed.push(x);
    }
    (placed, missed)
}

/// what the executor reports besides correctness
#[derive(Default, Clone, Debug)]
pub struct Stats {
    /// largest ratios between error and prediction
    pub resp: Ratio,
    pub db: Ratio,
    /// smallest distance to the threshold in bits
    pub margin: f64,
    pub accesses: usize,
    pub writes: usize,
    pub dup: bool,
    pub read_after_write: bool,
    pub resp_log: f64,
}

/// Extra observers over a run.
pub trait Observer {
    fn query(&mut self, _q: &ClientQuery) -> Result<(), String> {
        Ok(())
    }
    fn db(
        &mut self,
        _before: &[Vec<RLWECiphertext>],
        _after: &[Vec<RLWECiphertext>],
    ) -> Result<(), String> {
        Ok(())
    }
    /// choose the client for the next access (None: keep the long-lived one)
    fn fresh_client(&mut self, _base: &Client) -> Option<Client> {
        None
    }
    fn response(&mut self, _y: &RLWECiphertext) -> Result<(), String> {
        Ok(())
    }
}
pub struct NoObs;
impl Observer for NoObs {}

pub fn in_new_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    if threads == 0 {
        f()
    } else {
        rayon::ThreadPoolBuilder::new()
            .num_threads(threads)
            .build()
            .unwrap()
            .install(f)
    }
}

type Pools = (bool, std::collections::HashMap<usize, std::sync::Arc<rayon::ThreadPool>>);
thread_local! {
    /// the thread pools of the current case: kept between its accesses, or a new one for each access
    static POOLS: std::cell::RefCell<Pools> = Default::default();
}

pub fn new_pools(keep: bool) {
    POOLS.with(|p| *p.borrow_mut() = (keep, Default::default()));
}

/// use this thread pool for all accesses with that number of threads
pub fn share_pool(threads: usize, pool: std::sync::Arc<rayon::ThreadPool>) {
    POOLS.with(|p| {
        let mut p = p.borrow_mut();
        p.0 = true;
        p.1.insert(threads, pool);
    });
}

pub fn in_pool<T: Send>(threads: usize, f: impl FnOnce() -> T + Send) -> T {
    if threads == 0 || !POOLS.with(|p| p.borrow().0) {
        return in_new_pool(threads, f);
    }
    let pool = POOLS.with(|p| {
        p.borrow_mut()
            .1
            .entry(threads)
            .or_insert_with(|| std::sync::Arc::new(rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap()))
            .clone()
    });
    pool.install(f)
}

pub struct Oram {
    pub p: P,
    pub rows: usize,
    pub cols: usize,
    pub h: usize,
    pub hash: NaiveHash,
    pub loc: Vec<usize>,
    pub client: Client,
    pub server: Server,
    pub model: Vec<Poly>,
    pub s: Poly,
    pub noise: OramNoise,
    pub v_db: V,
    pub pool: usize,
    pub stats: Stats,
    pub fresh_items: Vec<bool>,
}

pub fn mk_client(p: &P, seed: u64, rows: usize, cols: usize) -> Client {
    let mut c = Client::new(rows, cols, p.tfhe(false));
    c.ctx = p.ctx(seed);
    c.sk = c.ctx.gen_rlwe_sk();
    c
}

/// another holder of the key of `base`
pub fn client_of(base: &Client, p: &P, ctx: panacea::context::Context) -> Client {
    let mut c = Client::new(base.rows, base.cols, p.tfhe(false));
    c.ctx = ctx;
    c.sk = base.sk.clone();
    c
}

impl Oram {
    pub fn setup(c: &Case) -> Result<Self, String> {
        let cols = c.cols();
        let items = c.items();
        ensure!(items * c.h == c.rows * cols, "harness: bad shape");
        new_pools(c.seed % 4 != 0);
        let (hash, client, server, model);
        if c.real {
            hash = NaiveHash::new(c.h, items);
            let (cl, sv, pts) =
                panacea::oram::setup_random_oram(c.rows, cols, &hash, c.p.tfhe(true));
            client = cl;
            server = sv;
            model = pts.iter().map(pl_vec).collect::<Vec<_>>();
            ensure!(model.len() == items, "setup returned {} items", model.len());
        } else {
            hash = crate::hooks::hash_of(perm_table(c.perm, items * c.h), c.h, items);
            let mut cl = mk_client(&c.p, c.seed, c.rows, cols);
            let neg = cl.gen_neg_sk();
            // own database, all items different
            let mut db =
                vec![
                    vec![RLWECiphertext::allocate(cl.ctx.poly_size); cols];
                    c.rows
                ];
            let mut m = vec![];
            for i in 0..items {
                let d = D {
                    kind: if i % 5 == 4 { 6 } else { 0 },
                    seed: mix(c.seed ^ (i as u64) << 32),
                };
                let pt = d.poly(c.p.n(), c.p.t());
                for h in 0..c.h {
                    let a = hash.hash(h, i);
                    cl.sk
                        .encode_encrypt_rlwe(&mut db[a / cols][a % cols], &pl(&pt), &mut cl.ctx);
                }
                m.push(pt);
            }
            model = m;
            server = Server::new(db, neg, c.p.tfhe(false));
            client = cl;
        }
        let loc = (0..items)
            .flat_map(|i| (0..c.h).map(move |h| (i, h)))
            .map(|(i, h)| hash.hash(h, i))
            .collect();
        let s = key_bits(&client.sk);
        let noise = c.p.np_key(&s).oram(c.log_cols, c.h);
        Ok(Self {
            p: c.p,
            rows: c.rows,
            cols,
            h: c.h,
            hash,
            loc,
            s,
            v_db: noise.fresh.clone(),
            noise,
            client,
            server,
            fresh_items: vec![false; model.len()],
            model,
            pool: c.pool,
            stats: Stats {
                margin: 64.0,
                ..Default::default()
            },
        })
    }

    pub fn at(&self, h: usize, item: usize) -> usize {
        self.loc[item * self.h + h]
    }

    fn err(&self, y: &RLWECiphertext, m: &[u64]) -> Poly {
        psub(&phase(y, &self.s), &scale(m, self.p.delta()))
    }

    fn check_response(
        &mut self,
        y: &RLWECiphertext,
        want: &[u64],
        what: impl Fn() -> String,
        v: &V,
    ) -> Result<(), String> {
        let e = self.err(y, want);
        let mx = max_abs(&e);
        ensure!(
            mx < self.p.delta() / 2,
            "{}: response does not decrypt to the expected value (distance 2^{:.1}, allowed 2^{:.1})",
            what(),
            (mx as f64).log2(),
            self.p.log_half_delta()
        );
        let mut pt = self.client.ctx.gen_zero_pt();
        self.client
            .sk
            .decrypt_decode_rlwe(&mut pt, y, &self.client.ctx);
        ensure!(
            pl_vec(&pt) == want,
            "{}: decrypt_decode_rlwe disagrees with the phase",
            what()
        );
        self.stats.resp.join(ratio(&e, v));
        self.stats.resp_log = self.stats.resp_log.max((mx.max(1) as f64).log2());
        self.stats.margin = self
            .stats
            .margin
            .min(self.p.log_half_delta() - (mx.max(1) as f64).log2());
        Ok(())
    }

    /// every cell decrypts to the model's value
    pub fn check_db(&mut self) -> Result<(), String> {
        let Some(db) = crate::hooks::data(&self.server) else { return Ok(()) };
        ensure!(
            db.len() == self.rows && db.iter().all(|r| r.len() == self.cols),
            "database changed its shape"
        );
        for i in 0..self.model.len() {
            for h in 0..self.h {
                let a = self.at(h, i);
                let (r, c) = (a / self.cols, a % self.cols);
                let e = self.err(&db[r][c], &self.model[i]);
                let mx = max_abs(&e);
                ensure!(
                    mx < self.p.delta() / 2,
                    "cell ({r},{c}) holding copy {h} of item {i} does not decrypt to the item's value (distance 2^{:.1}, allowed 2^{:.1})",
                    (mx as f64).log2(),
                    self.p.log_half_delta()
                );
                self.stats.db.join(ratio(&e, &self.v_db));
                self.stats.margin = self
                    .stats
                    .margin
                    .min(self.p.log_half_delta() - (mx.max(1) as f64).log2());
            }
        }
        Ok(())
    }

    /// every item read once more through the protocol
    fn read_back(&mut self) -> Result<(), String> {
        for i in 0..self.model.len() {
            let q = self.client.gen_read_query_batch(&[i], &self.hash);
            let srv = &mut self.server;
            let hash = &self.hash;
            let (r, y) = if self.rows == 1 && self.h == 1 {
                let q = q.into_iter().next().unwrap();
                (0, vec![in_pool(self.pool, || srv.process_one(q)).0])
            } else {
                let r = *hash.hash_to_mapping(&[i], self.cols).keys().next().unwrap();
                (r, in_pool(self.pool, || srv.process_batch(q, hash)).0)
            };
            let mx = max_abs(&self.err(&y[r], &self.model[i]));
            ensure!(mx < self.p.delta() / 2, "reading item {i} back at the end does not give its value");
        }
        Ok(())
    }

    fn query_one(
        &mut self,
        i: usize,
        w: &Option<Poly>,
        obs: &mut dyn Observer,
    ) -> Result<ClientQuery, String> {
        let mut fresh = obs.fresh_client(&self.client);
        let cl = fresh.as_mut().unwrap_or(&mut self.client);
        let q = match w {
            None => cl.gen_read_query_one(i, &self.hash),
            Some(x) => cl.gen_write_query_one(i, &pl(x), &self.hash),
        };
        obs.query(&q)?;
        Ok(q)
    }

    pub fn step(&mut self, g: &G, obs: &mut dyn Observer) -> Result<(), String> {
        let items = self.model.len();
        let (n, t) = (self.p.n(), self.p.t());
        let before = crate::hooks::data(&self.server);
        match g {
            G::One(i, w) => {
                let i = *i as usize % items;
                let w = w.map(|d| d.poly(n, t));
                let q = self.query_one(i, &w, obs)?;
                let pool = self.pool;
                let srv = &mut self.server;
                let (y, _) = in_pool(pool, || srv.process_one(q));
                obs.response(&y)?;
                let want = self.model[i].clone();
                let v = self.noise.response(&self.v_db);
                self.check_response(&y, &want, || format!("access to item {i}"), &v)?;
                self.v_db = self.noise.after_single(&self.v_db);
                self.note(i, &w);
                if let Some(x) = w {
                    self.model[i] = x;
                }
            }
            G::Multi(qs) => {
                let mut written = HashSet::new();
                let mut seen = HashSet::new();
                let mut list = vec![];
                for (i, w) in qs {
                    let i = *i as usize % items;
                    // at most one write per index in a group
                    let w = w.filter(|_| written.insert(i)).map(|d| d.poly(n, t));
                    if !seen.insert(i) {
                        self.stats.dup = true;
                    }
                    list.push((i, w));
                }
                let mut queries = vec![];
                for (i, w) in &list {
                    queries.push(self.query_one(*i, w, obs)?);
                }
                let pool = self.pool;
                let srv = &mut self.server;
                let (ys, _) = in_pool(pool, || srv.process_multi(queries));
                ensure!(
                    ys.len() == list.len(),
                    "{} responses for {} queries",
                    ys.len(),
                    list.len()
                );
                let v = self.noise.response(&self.v_db);
                for (k, ((i, _), y)) in list.iter().zip(&ys).enumerate() {
                    obs.response(y)?;
                    let want = self.model[*i].clone();
                    self.check_response(y, &want, || format!("query {k} of a group, item {i}"), &v)?;
                }
                self.v_db = self.noise.after_multi(&self.v_db, list.len());
                for (i, w) in list {
                    self.note(i, &w);
                    if let Some(x) = w {
                        self.model[i] = x;
                    }
                }
            }
            G::Batch(idx, w) => {
                let mut uniq = vec![];
                for i in idx {
                    let i = *i as usize % items;
                    if !uniq.contains(&i) {
                        uniq.push(i);
                    }
                }
                let (_, missed) =
                    first_fit(&uniq, self.h, self.cols, |h, x| self.loc[x * self.h + h]);
                let uniq: Vec<usize> = uniq.into_iter().filter(|x| !missed.contains(x)).collect();
                let placed = self.placement(&uniq)?;
                let w = w.map(|d| d.poly(n, t));
                let mut fresh = obs.fresh_client(&self.client);
                let cl = fresh.as_mut().unwrap_or(&mut self.client);
                let qs = match &w {
                    None => cl.gen_read_query_batch(&uniq, &self.hash),
                    Some(x) => cl.gen_write_query_batch(&uniq, &pl(x), &self.hash),
                };
                ensure!(qs.len() == self.rows, "{} queries for {} rows", qs.len(), self.rows);
                for q in &qs {
                    obs.query(q)?;
                }
                let (pool, hash) = (self.pool, self.hash.clone());
                let srv = &mut self.server;
                let (ys, _) = in_pool(pool, || srv.process_batch(qs, &hash));
                ensure!(ys.len() == self.rows, "{} responses for {} rows", ys.len(), self.rows);
                let v = self.noise.response(&self.v_db);
                for y in &ys {
                    obs.response(y)?;
                }
                for (r, _, x) in &placed {
                    let want = self.model[*x].clone();
                    self.check_response(&ys[*r], &want, || format!("batch row {r}, item {x}"), &v)?;
                }
                self.v_db = self.noise.after_batch(&self.v_db);
                for (_, _, x) in placed {
                    self.note(x, &w);
                    if let Some(y) = &w {
                        self.model[x] = y.clone();
                    }
                }
            }
            G::Mixed(ops) => {
                let mut uniq: Vec<(usize, Option<Poly>)> = vec![];
                for (i, w) in ops {
                    let i = *i as usize % items;
                    if !uniq.iter().any(|x| x.0 == i) {
                        uniq.push((i, w.map(|d| d.poly(n, t))));
                    }
                }
                let ids: Vec<usize> = uniq.iter().map(|x| x.0).collect();
                let (_, missed) =
                    first_fit(&ids, self.h, self.cols, |h, x| self.loc[x * self.h + h]);
                let ids: Vec<usize> = ids.into_iter().filter(|x| !missed.contains(x)).collect();
                let placed = self.placement(&ids)?;
                let cl = &mut self.client;
                let mut qs = cl.gen_read_query_batch(&ids, &self.hash);
                for (r, _, x) in &placed {
                    let w = &uniq.iter().find(|y| y.0 == *x).unwrap().1;
                    if let Some(val) = w {
                        let mut wq = cl.gen_write_query_batch(&ids, &pl(val), &self.hash);
                        qs[*r] = wq.swap_remove(*r);
                    }
                }
                for q in &qs {
                    obs.query(q)?;
                }
                let (pool, hash) = (self.pool, self.hash.clone());
                let srv = &mut self.server;
                let (ys, _) = in_pool(pool, || srv.process_batch(qs, &hash));
                ensure!(ys.len() == self.rows, "{} responses for {} rows", ys.len(), self.rows);
                let v = self.noise.response(&self.v_db);
                for (r, _, x) in &placed {
                    let want = self.model[*x].clone();
                    self.check_response(&ys[*r], &want, || format!("mixed batch row {r}, item {x}"), &v)?;
                }
                self.v_db = self.noise.after_batch(&self.v_db);
                for (_, _, x) in placed {
                    let w = uniq.iter().find(|y| y.0 == x).unwrap().1.clone();
                    self.note(x, &w);
                    if let Some(y) = w {
                        self.model[x] = y;
                    }
                }
            }
        }
        if let (Some(before), Some(after)) = (before, crate::hooks::data(&self.server)) {
            obs.db(&before, &after)?;
        }
        Ok(())
    }

    /// where the client puts each item: (row, column, item), checked to be one of the item's own cells
    fn placement(&self, ids: &[usize]) -> Result<Vec<(usize, usize, usize)>, String> {
        let m = self.hash.hash_to_mapping(ids, self.cols);
        let mut v: Vec<_> = m.into_iter().map(|(r, (c, x))| (r, c, x)).collect();
        v.sort_by_key(|p| ids.iter().position(|y| *y == p.2));
        ensure!(
            v.len() == ids.len() && v.iter().zip(ids).all(|(p, x)| p.2 == *x),
            "placing {ids:?} gives {v:?}"
        );
        for (r, c, x) in &v {
            ensure!(
                (0..self.h).any(|k| self.loc[x * self.h + k] == r * self.cols + c),
                "item {x} is placed at ({r},{c}), which is none of its cells"
            );
        }
        Ok(v)
    }

    fn note(&mut self, i: usize, w: &Option<Poly>) {
        self.stats.accesses += 1;
        if w.is_some() {
            self.stats.writes += 1;
            self.fresh_items[i] = true;
        } else if self.fresh_items[i] {
            self.stats.read_after_write = true;
        }
    }
}

pub fn run_history(c: &Case, obs: &mut dyn Observer) -> Result<Oram, String> {
    run_history_in(c, obs, None)
}

/// all accesses in the given pool, if there is one, which other threads may use as well
pub fn run_history_in(c: &Case, obs: &mut dyn Observer, pool: Option<std::sync::Arc<rayon::ThreadPool>>) -> Result<Oram, String> {
    let mut o = Oram::setup(c)?;
    if let Some(p) = pool {
        share_pool(c.pool, p);
    }
    let cost = c.rows as u64 * c.cols() as u64 * (c.p.n() as u64).pow(2);
    let every = cost < 60_000_000;
    for (k, g) in c.groups.iter().enumerate() {
        o.step(g, obs).map_err(|e| format!("group {k}: {e}"))?;
        if every || k + 1 == c.groups.len() {
            o.check_db().map_err(|e| format!("after group {k}: {e}"))?;
        }
    }
    if !crate::hooks::HOOKED && o.model.len() <= 64 {
        o.read_back()?;
    }
    Ok(o)
}

pub fn bucket(name: &str, x: usize) -> String {
    let b = match x {
        0 => "0",
        1 => "1",
        2 => "2",
        3..=4 => "3-4",
        5..=8 => "5-8",
        9..=16 => "9-16",
        17..=32 => "17-32",
        33..=64 => "33-64",
        65..=128 => "65-128",
        _ => ">128",
    };
    format!("{name}={b}")
}

pub fn labels(c: &Case, o: &Oram, mut out: Out) -> Out {
    out = out
        .label(format!("N={}", c.p.n()))
        .label(bucket("items", c.items()))
        .label(bucket("accesses", o.stats.accesses))
        .label(bucket("writes", o.stats.writes))
        .label_if(o.stats.dup, "duplicate index in group")
        .label_if(o.stats.read_after_write, "read after write")
        .label_if(c.real, "crate's own setup");
    if c.h > 1 {
        out = out.label(format!("h={}", c.h));
    }
    out
}

/// bound of the error that the remaining accesses of a case may reach
pub fn final_noise(p: &P, log_cols: usize, h: usize, groups: &[G]) -> f64 {
    let o = p.np().oram(log_cols, h);
    let mut v = o.fresh.clone();
    let mut worst = o.response(&v).log_std();
    for g in groups {
        worst = worst.max(o.response(&v).log_std());
        v = match g {
            G::One(..) => o.after_single(&v),
            G::Multi(q) => o.after_multi(&v, q.len()),
            _ => o.after_batch(&v),
        };
    }
    worst.max(v.log_std())
}

pub const MARGIN: f64 = 6.0;

pub fn finish(mut c: Case) -> Case {
    let (lc, h, g) = (c.log_cols, c.h, c.groups.clone());
    c.p = fit(c.p, MARGIN, |p| final_noise(p, lc, h, &g));
    c
}

pub fn wr(frac: u32) -> BoxedStrategy<Option<D>> {
    prop_oneof![frac => data().prop_map(Some), (10 - frac) => Just(None)].boxed()
}

pub fn oram_params(lo: usize, common: usize, rare: usize) -> BoxedStrategy<P> {
    params(Cfg {
        logn: logn(lo, common, rare),
        max_l: 12,
        max_kl: 16,
        lo: 24,
    })
}

/// skewed index: small ranges collide often, large ones cover the table
pub fn idx() -> BoxedStrategy<u32> {
    prop_oneof![3 => 0u32..4, 5 => 0u32..4096].boxed()
}

/// (rows, log_cols, h) with rows*cols divisible by h
pub fn batch_shape(max_rows: usize, max_lc: usize) -> BoxedStrategy<(usize, usize, usize)> {
    (1usize..=5, 1usize..=max_rows, 1usize..=max_lc)
        .prop_map(|(h, rows, lc)| {
            let mut rows = rows;
            while (rows << lc) % h != 0 {
                rows += 1;
            }
            (rows, lc, h)
        })
        .boxed()
}
