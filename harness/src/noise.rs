//! Noise analysis of the operations, frequency by frequency.
//!
//! An error polynomial e of degree N is evaluated at the N/2 pairs of roots of X^N+1. `V[k]` is the
//! expected |e(w_k)|^2 / N, so independent coefficients of variance x give a constant x. A product
//! with the secret multiplies V[k] by |s(w_k)|^2, which is far from constant: a binary key has mean
//! 1/2 and puts nearly all its weight on the lowest frequencies. Comparing per frequency keeps the
//! comparison sharp where a plain variance would be dominated by one or two frequencies.
use crate::refm::random_bits;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub struct Spec {
    pub n: usize,
    /// |s(w)|^2
    pub s: Vec<f64>,
    /// |1 + w + ... + w^(N-1)|^2
    pub u: Vec<f64>,
}

/// values at w^(2k+1), k < N/2, w = exp(i pi / N)
pub fn odd_spectrum(p: &[f64]) -> Vec<(f64, f64)> {
    let n = p.len();
    let mut a: Vec<(f64, f64)> = p
        .iter()
        .enumerate()
        .map(|(j, x)| {
            let t = std::f64::consts::PI * j as f64 / n as f64;
            (x * t.cos(), x * t.sin())
        })
        .collect();
    fft(&mut a);
    a.truncate(n / 2);
    a
}

fn fft(a: &mut [(f64, f64)]) {
    let n = a.len();
    if n == 1 {
        return;
    }
    let bits = n.trailing_zeros();
    for i in 0..n {
        let j = i.reverse_bits() >> (usize::BITS - bits);
        if i < j {
            a.swap(i, j);
        }
    }
    let mut len = 2;
    while len <= n {
        let h = len / 2;
        let w: Vec<(f64, f64)> = (0..h)
            .map(|k| {
                let t = 2.0 * std::f64::consts::PI * k as f64 / len as f64;
                (t.cos(), t.sin())
            })
            .collect();
        for c in a.chunks_mut(len) {
            for k in 0..h {
                let (x, y) = (c[k], c[k + h]);
                let z = (y.0 * w[k].0 - y.1 * w[k].1, y.0 * w[k].1 + y.1 * w[k].0);
                c[k] = (x.0 + z.0, x.1 + z.1);
                c[k + h] = (x.0 - z.0, x.1 - z.1);
            }
        }
        len *= 2;
    }
}

fn power(p: &[f64]) -> Vec<f64> {
    odd_spectrum(p).iter().map(|c| c.0 * c.0 + c.1 * c.1).collect()
}

impl Spec {
    /// the key's coefficients are small signed integers
    pub fn of_key(s: &[u64]) -> Arc<Self> {
        let n = s.len();
        Arc::new(Self {
            n,
            s: power(&s.iter().map(|x| *x as i64 as f64).collect::<Vec<_>>()),
            u: power(&vec![1.0; n]),
        })
    }
    /// mean over a few random keys: for choosing parameters
    pub fn typical(n: usize) -> Arc<Self> {
        static CACHE: Mutex<Option<HashMap<usize, Arc<Spec>>>> = Mutex::new(None);
        let mut g = CACHE.lock().unwrap();
        g.get_or_insert_with(HashMap::new)
            .entry(n)
            .or_insert_with(|| {
                let mut s = vec![0.0f64; n / 2];
                for i in 0..8 {
                    for (x, y) in s.iter_mut().zip(&Spec::of_key(&random_bits(n, 77 + i)).s) {
                        *x = x.max(*y);
                    }
                }
                Arc::new(Spec {
                    n,
                    s,
                    u: power(&vec![1.0; n]),
                })
            })
            .clone()
    }
}

#[derive(Clone, Debug)]
pub struct V(pub Vec<f64>);

impl V {
    /// the spectrum of a known error
    pub fn of(e: &[u64]) -> V {
        let n = e.len() as f64;
        V(power(&e.iter().map(|x| *x as i64 as f64).collect::<Vec<_>>())
            .iter()
            .map(|x| x / n)
            .collect())
    }
    pub fn plus(&self, o: &V) -> V {
        V(self.0.iter().zip(&o.0).map(|(x, y)| x + y).collect())
    }
    pub fn times(&self, c: f64) -> V {
        V(self.0.iter().map(|x| x * c).collect())
    }
    pub fn by(&self, o: &[f64]) -> V {
        V(self.0.iter().zip(o).map(|(x, y)| x * y).collect())
    }
    /// mean variance of a coefficient
    pub fn total(&self) -> f64 {
        self.0.iter().sum::<f64>() / self.0.len() as f64
    }
    pub fn log_std(&self) -> f64 {
        0.5 * self.total().log2()
    }
}

/// V after X -> X^k
pub fn permute(v: &V, k: usize) -> V {
    let h = v.0.len();
    let n = 2 * h;
    V((0..h)
        .map(|j| {
            // root exp(i pi (2j+1)/N) goes to its k-th power; conjugates share their value
            let e = ((2 * j + 1) as u128 * k as u128 % (2 * n) as u128) as usize;
            let e = if e > n { 2 * n - e } else { e };
            v.0[(e - 1) / 2]
        })
        .collect())
}

/// |e(w)|^2 relative to the prediction: mean over all frequencies, and largest
#[derive(Clone, Copy, Debug, Default)]
pub struct Ratio {
    pub mean: f64,
    pub max: f64,
}

impl Ratio {
    pub fn join(&mut self, o: Ratio) {
        self.mean = self.mean.max(o.mean);
        self.max = self.max.max(o.max);
    }
}

pub fn ratio(e: &[u64], v: &V) -> Ratio {
    let n = e.len() as f64;
    let p = power(&e.iter().map(|x| *x as i64 as f64).collect::<Vec<_>>());
    let mut r = Ratio::default();
    for (x, y) in p.iter().zip(&v.0) {
        let q = x / (n * y);
        r.mean += q;
        r.max = r.max.max(q);
    }
    r.mean /= p.len() as f64;
    r
}

thread_local! { static SKIPPED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// whether a comparison was left out on this thread since the last call
pub fn take_skipped() -> bool {
    SKIPPED.with(|s| s.replace(false))
}

/// Err unless the error is as small as predicted
pub fn near(what: &str, e: &[u64], v: &V) -> Result<(), String> {
    near_lim(what, e, v, mean_limit(e.len()), MAX_LIMIT)
}
pub fn near_lim(what: &str, e: &[u64], v: &V, mean: f64, max: f64) -> Result<(), String> {
    if v.log_std() > 57.0 {
        // the error may wrap around the torus
        SKIPPED.with(|s| s.set(true));
        return Ok(());
    }
    let r = ratio(e, v);
    if std::env::var("PV_CAL").is_ok() {
        println!("CAL {} {} {:.4} {:.2}", what.replace(' ', "_"), e.len(), r.mean, r.max);
    }
    if r.mean < mean && r.max < max {
        return Ok(());
    }
    let at = (0..e.len()).max_by_key(|i| (e[*i] as i64).unsigned_abs()).unwrap();
    Err(format!(
        "{what}: error power is {:.2} times the prediction (limit {mean:.2}), {:.1} times at one frequency (limit {max}); predicted deviation 2^{:.1}, largest error 2^{:.1} at coefficient {at}",
        r.mean, r.max, v.log_std(), ((e[at] as i64).unsigned_abs() as f64).log2()
    ))
}

/// Limits for `Ratio`, see DESIGN.md for the calibration. The mean over k frequencies of
/// exponential variables concentrates; few frequencies need more room.
pub fn mean_limit(n: usize) -> f64 {
    3.0 + 120.0 / n as f64
}
pub const MAX_LIMIT: f64 = 150.0;

/// error when a torus element becomes an f64: mean square about 2^15.6; the FFT's own rounding
/// exceeds it by this factor times log2 N
const F64_VAR: f64 = 49_000.0;
const FFT_FACTOR: f64 = 16.0;

/// The parameters the analysis needs.
#[derive(Clone)]
pub struct NP {
    pub spec: Arc<Spec>,
    pub sigma: f64,
    pub b: usize,
    pub l: usize,
    pub kb: usize,
    pub kl: usize,
    pub nb: usize,
    pub nl: usize,
}

impl NP {
    pub fn n(&self) -> usize {
        self.spec.n
    }
    pub fn iid(&self, x: f64) -> V {
        V(vec![x; self.n() / 2])
    }
    pub fn zero(&self) -> V {
        self.iid(0.0)
    }
    pub fn fresh(&self) -> V {
        self.iid(self.sigma * self.sigma + 0.1)
    }
    pub fn mul_s(&self, v: &V) -> V {
        v.by(&self.spec.s)
    }
    /// expected |d(w)|^2 summed over the l digit polynomials of a uniform polynomial: balanced digits,
    /// except that the top digit of exactly B/2 is never carried and gives it mean 1/2
    pub fn digits(&self, b: usize, l: usize) -> Vec<f64> {
        let bb = 2f64.powi(b as i32);
        let var = (bb * bb + 2.0) / 12.0;
        let k = l as f64 * self.n() as f64 * var;
        self.spec.u.iter().map(|u| k + 0.25 * u).collect()
    }
    /// digits times rows of error variance `row`, including the FFT's error
    pub fn gadget(&self, b: usize, l: usize, row: &V) -> V {
        let d = self.digits(b, l);
        row.by(&d).plus(&self.fft(b, l))
    }
    /// error of the products in f64, for one half (mask or body rows)
    pub fn fft(&self, b: usize, l: usize) -> V {
        let d = self.digits(b, l);
        let f = V(d.iter().map(|x| x * FFT_FACTOR * (self.n() as f64).log2() * F64_VAR).collect());
        f.plus(&self.mul_s(&f))
    }
    /// rounding of a ciphertext to b*l bits
    pub fn rounding(&self, b: usize, l: usize) -> V {
        let r = self.rounding1(b, l);
        r.plus(&self.mul_s(&r))
    }
    pub fn rounding1(&self, b: usize, l: usize) -> V {
        let u = 2f64.powi(64 - (b * l) as i32);
        self.iid(u * u / 12.0)
    }
    /// external product with an RGSW ciphertext of gadget (b, l) whose rows have error `row`,
    /// without the rounding term
    pub fn ep_with(&self, b: usize, l: usize, row: &V) -> V {
        self.gadget(b, l, row).times(2.0)
    }
    pub fn ep(&self) -> V {
        self.ep_with(self.b, self.l, &self.fresh())
    }
    pub fn rnd(&self) -> V {
        self.rounding(self.b, self.l)
    }
    /// external product with the negated key of something with error e
    pub fn mul_neg_s(&self, e: &V) -> V {
        self.mul_s(&e.plus(&self.rounding(self.nb, self.nl)))
            .plus(&self.ep_with(self.nb, self.nl, &self.fresh()))
    }
    pub fn demux(&self, depth: usize) -> V {
        self.ep().plus(&self.rnd()).times(depth as f64)
    }
    /// external product with an RGSW whose body rows have error `body` and whose mask rows come from -s
    pub fn ep_assembled(&self, body: &V) -> V {
        self.gadget(self.b, self.l, &self.mul_neg_s(body))
            .plus(&self.gadget(self.b, self.l, body))
    }
    /// key switching with gadget (kb, kl)
    pub fn ks(&self) -> V {
        self.gadget(self.kb, self.kl, &self.fresh())
            .plus(&self.mul_s(&self.rounding1(self.kb, self.kl)))
    }

    /// key switching from a key with the spectrum `from` to this analysis's key
    pub fn ks_from(&self, from: &Spec) -> V {
        self.gadget(self.kb, self.kl, &self.fresh())
            .plus(&self.rounding1(self.kb, self.kl).by(&from.s))
            .plus(&self.fft_once())
    }
    /// a ciphertext through the FFT and back
    pub fn fft_once(&self) -> V {
        let f = self.iid(FFT_FACTOR * (self.n() as f64).log2() * F64_VAR);
        f.plus(&self.mul_s(&f))
    }
    /// what the trace adds to N times the constant coefficient. Few frequencies stay independent.
    pub fn trace(&self, s: &[u64]) -> V {
        let n = self.n();
        let mut v = self.zero();
        for i in 0..n.trailing_zeros() {
            let k = (n >> i) + 1;
            let ks = self.ks_from(&Spec::of_key(&crate::refm::eval_xk(s, k)));
            v = v.plus(&permute(&v, k)).plus(&ks);
        }
        v
    }

    pub fn oram_l(&self, log_cols: usize) -> V {
        self.ep_assembled(&self.demux(log_cols))
    }
    pub fn oram(&self, log_cols: usize, h: usize) -> OramNoise {
        OramNoise {
            fresh: self.fresh(),
            rnd: self.rnd(),
            l: self.oram_l(log_cols),
            op: self.ep(),
            cols: (1usize << log_cols) as f64,
            h: h as f64,
        }
    }
}

#[derive(Clone)]
pub struct OramNoise {
    pub fresh: V,
    pub rnd: V,
    pub l: V,
    pub op: V,
    pub cols: f64,
    pub h: f64,
}

impl OramNoise {
    pub fn response(&self, data: &V) -> V {
        data.plus(&self.l.times(self.cols)).plus(&self.rnd)
    }
    pub fn after_single(&self, data: &V) -> V {
        data.plus(&self.l).plus(&self.op).plus(&self.rnd.times(2.0))
    }
    pub fn after_multi(&self, data: &V, q: usize) -> V {
        let q = q as f64;
        data.plus(&self.l.times(2.0 * q))
            .plus(&self.op.times(q))
            .plus(&self.rnd.times(2.0 * q * q + 1.0))
    }
    pub fn after_batch(&self, data: &V) -> V {
        self.after_single(data)
            .plus(&self.l.plus(&self.op).times(2.0 * self.h))
            .plus(&self.rnd.times(4.0))
    }
}
