//! Reference arithmetic, written without the crate under test, and small accessors.
use concrete_core::commons::crypto::encoding::PlaintextList;
use concrete_core::commons::math::tensor::{AsMutSlice, AsMutTensor, AsRefSlice, AsRefTensor};
use concrete_core::prelude::PolynomialSize;
use panacea::rlwe::{RLWECiphertext, RLWESecretKey};

pub type Poly = Vec<u64>;

pub fn mix(z: u64) -> u64 {
    let mut z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// deterministic generator: everything it yields is a function of the seed stored in the case
#[derive(Clone)]
pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn gauss(&mut self) -> f64 {
        let u1 = ((self.next() >> 11) as f64 + 0.5) / (1u64 << 53) as f64;
        let u2 = ((self.next() >> 11) as f64) / (1u64 << 53) as f64;
        (-2.0 * u1.ln()).sqrt() * (2.0 * std::f64::consts::PI * u2).cos()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// a*b in Z_{2^64}[X]/(X^N+1)
pub fn negmul(a: &[u64], b: &[u64]) -> Poly {
    let n = a.len();
    assert_eq!(n, b.len());
    let mut out = vec![0u64; n];
    for (i, &x) in a.iter().enumerate() {
        if x == 0 {
            continue;
        }
        for (j, &y) in b[..n - i].iter().enumerate() {
            out[i + j] = out[i + j].wrapping_add(x.wrapping_mul(y));
        }
        for (j, &y) in b[n - i..].iter().enumerate() {
            out[j] = out[j].wrapping_sub(x.wrapping_mul(y));
        }
    }
    out
}

pub fn padd(a: &[u64], b: &[u64]) -> Poly {
    a.iter().zip(b).map(|(x, y)| x.wrapping_add(*y)).collect()
}
pub fn psub(a: &[u64], b: &[u64]) -> Poly {
    a.iter().zip(b).map(|(x, y)| x.wrapping_sub(*y)).collect()
}
pub fn scale(a: &[u64], c: u64) -> Poly {
    a.iter().map(|x| x.wrapping_mul(c)).collect()
}
pub fn neg(a: &[u64]) -> Poly {
    a.iter().map(|x| x.wrapping_neg()).collect()
}

/// p * X^e for any integer e (negacyclic)
pub fn mul_x(p: &[u64], e: i64) -> Poly {
    let n = p.len() as i64;
    let mut out = vec![0u64; p.len()];
    for (i, x) in p.iter().enumerate() {
        let k = (i as i64 + e).rem_euclid(2 * n);
        if k < n {
            out[k as usize] = *x;
        } else {
            out[(k - n) as usize] = x.wrapping_neg();
        }
    }
    out
}

/// p(X^k) mod X^N+1
pub fn eval_xk(p: &[u64], k: usize) -> Poly {
    let n = p.len();
    let mut out = vec![0u64; n];
    for (i, x) in p.iter().enumerate() {
        let e = ((i as u128 * k as u128) % (2 * n as u128)) as usize;
        if e < n {
            out[e] = out[e].wrapping_add(*x);
        } else {
            out[e - n] = out[e - n].wrapping_sub(*x);
        }
    }
    out
}

/// largest |x| of the centred coefficients
pub fn max_abs(p: &[u64]) -> u64 {
    p.iter().map(|x| (*x as i64).unsigned_abs()).max().unwrap_or(0)
}
pub fn max_abs_f(p: &[u64]) -> f64 {
    max_abs(p) as f64
}
/// root mean square of the centred coefficients
pub fn rms(p: &[u64]) -> f64 {
    (p.iter().map(|x| (*x as i64) as f64 * (*x as i64) as f64).sum::<f64>() / p.len() as f64).sqrt()
}

pub fn mask_of(c: &RLWECiphertext) -> Poly {
    c.get_mask().as_tensor().as_slice().to_vec()
}
pub fn body_of(c: &RLWECiphertext) -> Poly {
    c.get_body().as_tensor().as_slice().to_vec()
}
pub fn ct_from(mask: &[u64], body: &[u64]) -> RLWECiphertext {
    let mut c = RLWECiphertext::allocate(PolynomialSize(mask.len()));
    c.get_mut_mask().as_mut_tensor().as_mut_slice().copy_from_slice(mask);
    c.get_mut_body().as_mut_tensor().as_mut_slice().copy_from_slice(body);
    c
}
pub fn trivial(body: &[u64]) -> RLWECiphertext {
    ct_from(&vec![0; body.len()], body)
}

/// body - mask * s
pub fn phase(c: &RLWECiphertext, s: &[u64]) -> Poly {
    psub(&body_of(c), &negmul(&mask_of(c), s))
}

pub fn pl(p: &[u64]) -> PlaintextList<Vec<u64>> {
    PlaintextList::from_container(p.to_vec())
}
pub fn pl_vec(p: &PlaintextList<Vec<u64>>) -> Poly {
    p.as_tensor().as_slice().to_vec()
}

/// a key with known binary coefficients
pub fn key_from_bits(s: &[u64]) -> RLWESecretKey {
    let mut k = RLWESecretKey::zero(PolynomialSize(s.len()));
    k.fill_with_tensor(pl(s).as_tensor());
    k
}

/// The coefficients of a key: the phase of the ciphertext with mask 1 and body 0 is the negated key.
pub fn key_bits(k: &RLWESecretKey) -> Poly {
    let n = k.polynomial_size().0;
    let mut m = vec![0u64; n];
    m[0] = 1;
    let c = ct_from(&m, &vec![0; n]);
    let mut p = pl(&vec![0; n]);
    k.decrypt_rlwe(&mut p, &c);
    neg(&pl_vec(&p))
}

pub fn random_bits(n: usize, seed: u64) -> Poly {
    let mut r = Sm(seed);
    (0..n).map(|_| r.next() >> 63).collect()
}

/// Wilson-Hilferty: how many standard deviations the sum of squares of n normal samples is away from what sigma gives;
/// 0 within what rounding to integers can explain.
pub fn chi_z(sum2: f64, n: usize, sigma: f64) -> f64 {
    let z = |v: f64| {
        let k = 2.0 / (9.0 * n as f64);
        ((sum2 / n as f64 / v).cbrt() - (1.0 - k)) / k.sqrt()
    };
    let hi = z(sigma * sigma + sigma.min(1.0) + 0.3);
    let lo = if sigma > 4.0 { z((sigma - 0.5) * (sigma - 0.5)) } else { 0.0 };
    if hi > 0.0 {
        hi
    } else if lo < 0.0 {
        lo
    } else {
        0.0
    }
}
