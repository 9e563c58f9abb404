//! C10 codec, C11 encryption round trip, C12 freshness and noise, C13 seeding.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oramh::bucket;
use crate::refm::*;
use concrete_core::commons::crypto::encoding::Plaintext;
use concrete_core::commons::math::polynomial::Polynomial;
use concrete_core::commons::math::tensor::{AsMutSlice, AsMutTensor, AsRefSlice, AsRefTensor, Tensor};
use concrete_core::prelude::{DecompositionBaseLog, DecompositionLevelCount, DispersionParameter, LweSize};
use panacea::codec::Codec;
use panacea::context::Context;
use panacea::decision_tree::{bit_decomposed_rgsw, encrypt_feature_vector};
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWESecretKey, LWEtoRLWEKeyswitchKey};
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::{gen_all_subs_ksk, gen_all_subs_ksk_fourier, FourierRLWECiphertext, RLWECiphertext, RLWEKeyswitchKey, RLWESecretKey};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CodecCase {
    logt: u32,
    v: u64,
    seed: u64,
}

/// distance on the circle Z/2^64
fn dist(a: u64, b: u64) -> u64 {
    (a.wrapping_sub(b) as i64).unsigned_abs()
}

fn dec(c: &Codec, x: u64) -> u64 {
    let mut y = x;
    c.decode(&mut y);
    y
}

fn codec_value(c: &Codec, logt: u32, v: u64, r: &mut Sm) -> Result<(), String> {
    let delta = 1u64 << (64 - logt);
    let half = delta / 2;
    let mut e = v;
    c.encode(&mut e);
    ensure!(e == v.wrapping_mul(delta), "t=2^{logt}: encode({v}) = {e:#x}, expected {:#x}", v.wrapping_mul(delta));
    let mut errs = vec![0u64, half - 1, half / 2, half / 3];
    for _ in 0..4 {
        errs.push(r.below(half));
        errs.push((half - 1) >> r.below(64));
    }
    for d in errs {
        for x in [e.wrapping_add(d), e.wrapping_sub(d)] {
            let y = dec(c, x);
            ensure!(y == v, "t=2^{logt}: value {v} with error ±{d} (limit {half}) decodes to {y}");
        }
    }
    Ok(())
}

fn codec_any(c: &Codec, logt: u32, x: u64) -> Result<(), String> {
    let delta = 1u64 << (64 - logt);
    let y = dec(c, x);
    ensure!(y < 1 << logt, "t=2^{logt}: {x:#x} decodes to {y}, outside the plaintext space");
    let d = dist(x, y.wrapping_mul(delta));
    ensure!(d <= delta / 2, "t=2^{logt}: {x:#x} decodes to {y}, which is {d} away (limit {})", delta / 2);
    Ok(())
}

fn codec_case(k: &CodecCase) -> R {
    let t = 1u64 << k.logt;
    let c = Codec::new(t);
    let mut r = Sm(k.seed);
    ensure!(c.pt_modulus() == t, "pt_modulus {} for t={t}", c.pt_modulus());
    ensure!(c.pt_modulus_bits() == k.logt as usize, "pt_modulus_bits {}", c.pt_modulus_bits());
    ensure!(c.largest_error() == 1 << (63 - k.logt), "largest_error {} for t={t}", c.largest_error());
    let v = k.v & (t - 1);
    for x in [v, 0, t - 1, t / 2, t / 2 - 1, (v + 1) & (t - 1)] {
        codec_value(&c, k.logt, x, &mut r)?;
    }
    let small = k.logt <= 8;
    if small {
        for x in 0..t {
            codec_value(&c, k.logt, x, &mut r)?;
        }
    }
    for i in 0..60u32 {
        codec_any(&c, k.logt, r.next())?;
        codec_any(&c, k.logt, u64::MAX << i)?;
        codec_any(&c, k.logt, u64::MAX >> i)?;
        codec_any(&c, k.logt, (1 << i) - 1)?;
    }
    for bad in [t, t + 1, t + r.below(u64::MAX - t), u64::MAX, u64::MAX - t / 2] {
        if bad >= t {
            ensure!(panics(|| c.encode(&mut bad.clone())), "t={t}: encoding {bad} is not rejected");
        }
    }
    // polynomials
    let n = 1usize << r.below(7);
    let m: Poly = (0..n).map(|_| r.next() & (t - 1)).collect();
    let mut p = Polynomial::from_container(m.clone());
    c.poly_encode(&mut p);
    let enc: Vec<u64> = p.as_tensor().as_slice().to_vec();
    ensure!(enc == scale(&m, 1 << (64 - k.logt)), "poly_encode of {m:?} with t={t} gives {enc:?}");
    let half = 1u64 << (63 - k.logt);
    let noisy: Poly = enc
        .iter()
        .map(|x| {
            let e = r.below(half);
            if r.next() & 1 == 0 { x.wrapping_add(e) } else { x.wrapping_sub(e) }
        })
        .collect();
    let mut p = Polynomial::from_container(noisy);
    c.poly_decode(&mut p);
    ensure!(p.as_tensor().as_slice() == &m, "poly_decode with t={t} gives {:?}, expected {m:?}", p.as_tensor().as_slice());
    let at = r.below(n as u64) as usize;
    let mut bad = m;
    bad[at] = t;
    ensure!(panics(|| c.poly_encode(&mut Polynomial::from_container(bad))), "poly_encode accepts {t} at {at}");
    Ok(Out::new(v != 0).label_if(small, "all values").label_if(k.logt >= 55, "error below 2^8"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TernCase {
    seed: u64,
}

/// The two thirds come from f64 arithmetic, which is exact to 2^11 here.
const TERN_MARGIN: u64 = 1 << 13;

fn tern_case(k: &TernCase) -> R {
    let mut r = Sm(k.seed);
    let sixth = (u64::MAX / 6) - TERN_MARGIN;
    let ideal = |x: u64| match x {
        0 => 0u64,
        1 => u64::MAX / 3,
        _ => (u64::MAX / 3) * 2,
    };
    let tern = [0u64, 1, u64::MAX];
    for x in tern {
        let mut e = x;
        Codec::ternary_encode(&mut e);
        ensure!(dist(e, ideal(x)) <= TERN_MARGIN, "ternary_encode({}) = {e}", x as i64);
        let mut ds = vec![0, 1, sixth, sixth - 1, sixth / 2];
        for _ in 0..12 {
            ds.push(r.below(sixth));
            ds.push(sixth - (sixth >> r.below(64)));
        }
        for d in ds {
            for y in [e.wrapping_add(d), e.wrapping_sub(d)] {
                let mut z = y;
                Codec::ternary_decode(&mut z);
                ensure!(z == x, "ternary {} with error ±{d} decodes to {}", x as i64, z as i64);
            }
        }
    }
    for _ in 0..50 {
        let y = r.next();
        let mut z = y;
        Codec::ternary_decode(&mut z);
        ensure!(tern.contains(&z), "ternary_decode({y}) = {z}");
        let best = tern.iter().map(|x| dist(y, ideal(*x))).min().unwrap();
        ensure!(dist(y, ideal(z)) <= best + TERN_MARGIN, "ternary_decode({y}) = {} is not nearest", z as i64);
    }
    for bad in [2, 3, u64::MAX - 1, 1 << 63, (r.next() >> 1).max(2)] {
        ensure!(panics(|| Codec::ternary_encode(&mut bad.clone())), "ternary_encode accepts {bad}");
    }
    for bad in [0, 3, 6, u64::MAX, (1 << 63) + 1, (r.next() | 1).max(3)] {
        ensure!(panics(|| { Codec::new(bad); }), "Codec::new accepts the modulus {bad}");
    }
    let n = 1usize << r.below(7);
    let m: Poly = (0..n).map(|_| tern[r.below(3) as usize]).collect();
    let mut p = Polynomial::from_container(m.clone());
    Codec::poly_ternary_encode(&mut p);
    let noisy: Poly = p
        .as_tensor()
        .as_slice()
        .iter()
        .zip(&m)
        .map(|(y, x)| {
            let e = r.below(sixth);
            assert!(dist(*y, ideal(*x)) <= TERN_MARGIN, "poly_ternary_encode gives {y} for {}", *x as i64);
            if r.next() & 1 == 0 { y.wrapping_add(e) } else { y.wrapping_sub(e) }
        })
        .collect();
    let mut p = Polynomial::from_container(noisy);
    Codec::poly_ternary_decode(&mut p);
    ensure!(p.as_tensor().as_slice() == &m, "ternary polynomial not restored");
    Ok(Out::new(true))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongPoly {
    logt: u32,
    len: usize,
    at: u64,
    seed: u64,
}

/// Polynomials of any length: every coefficient is treated like a single value.
fn long_poly(k: &LongPoly) -> R {
    let t = 1u64 << k.logt;
    let c = Codec::new(t);
    let mut r = Sm(k.seed);
    let half = 1u64 << (63 - k.logt);
    let noise = |r: &mut Sm, m: u64| {
        let e = r.below(m);
        if r.next() & 1 == 0 { e } else { e.wrapping_neg() }
    };
    let m: Poly = (0..k.len).map(|_| r.next() & (t - 1)).collect();
    let mut p = Polynomial::from_container(m.clone());
    c.poly_encode(&mut p);
    for (i, (x, y)) in p.as_tensor().as_slice().iter().zip(&m).enumerate() {
        ensure!(*x == y.wrapping_mul(2 * half), "t=2^{}, {} coefficients: coefficient {i} = {y} encodes to {x:#x}", k.logt, k.len);
    }
    let noisy: Poly = p.as_tensor().as_slice().iter().map(|x| x.wrapping_add(noise(&mut r, half))).collect();
    let mut p = Polynomial::from_container(noisy);
    c.poly_decode(&mut p);
    for (i, (x, y)) in p.as_tensor().as_slice().iter().zip(&m).enumerate() {
        ensure!(x == y, "t=2^{}, {} coefficients: coefficient {i} is {x} instead of {y}", k.logt, k.len);
    }
    let at = (k.at % k.len as u64) as usize;
    let mut bad = m;
    bad[at] = t + r.below(u64::MAX - t);
    ensure!(panics(|| c.poly_encode(&mut Polynomial::from_container(bad))), "poly_encode with t=2^{} takes {} coefficients with a value beyond t at {at}", k.logt, k.len);
    // ternary
    let tern = [0u64, 1, u64::MAX];
    let m: Poly = (0..k.len).map(|_| tern[r.below(3) as usize]).collect();
    let mut p = Polynomial::from_container(m.clone());
    Codec::poly_ternary_encode(&mut p);
    let sixth = (u64::MAX / 6) - TERN_MARGIN;
    let noisy: Poly = p.as_tensor().as_slice().iter().map(|x| x.wrapping_add(noise(&mut r, sixth))).collect();
    let mut p = Polynomial::from_container(noisy);
    Codec::poly_ternary_decode(&mut p);
    for (i, (x, y)) in p.as_tensor().as_slice().iter().zip(&m).enumerate() {
        ensure!(x == y, "{} ternary coefficients: coefficient {i} is {} instead of {}", k.len, *x as i64, *y as i64);
    }
    let mut bad = m;
    bad[at] = 2;
    ensure!(panics(|| Codec::poly_ternary_encode(&mut Polynomial::from_container(bad))), "poly_ternary_encode takes 2 at {at} of {}", k.len);
    Ok(Out::new(k.len > 64).label(bucket("coefficients", k.len)))
}

pub fn c10() -> Check {
    Check {
        id: "C10",
        assumptions: &["ternary margins allow 2^13 for the f64 rounding of q/3 and q/6"],
        subs: vec![
            sub("codec", "one modulus 2^1..2^63, several values (all values up to 2^8) with errors up to and at the limit, arbitrary torus elements, rejected values, polynomials; non-trivial: the drawn value is not 0", 1800000, 36000000,
                || (1u32..=63, any::<u64>(), any::<u64>()).prop_map(|(logt, v, seed)| CodecCase { logt, v, seed }).boxed(),
                codec_case),
            sub("ternary", "ternary encoding with errors up to a sixth, arbitrary torus elements, rejected values and moduli; all non-trivial", 600000, 12000000,
                || any::<u64>().prop_map(|seed| TernCase { seed }).boxed(),
                tern_case),
            sub("polynomials", "polynomials and ternary polynomials of 1 to 2^17 coefficients, one of them out of range at any place; non-trivial: more than 64 coefficients", 20000, 600000,
                || (1u32..=63, prop_oneof![(0u32..=17).prop_map(|l| 1usize << l), (0u32..=16, any::<u32>()).prop_map(|(l, x)| (1usize << l) + (x as usize & ((1 << l) - 1)))], any::<u64>(), any::<u64>())
                    .prop_map(|(logt, len, at, seed)| LongPoly { logt, len, at, seed }).boxed(),
                long_poly),
        ],
    }
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EncCase {
    p: P,
    d: D,
    key: u8,
    seed: u64,
}

fn key_of_kind(kind: u8, n: usize, seed: u64, ctx: &mut Context) -> (Poly, RLWESecretKey) {
    match kind {
        0 => {
            let k = ctx.gen_rlwe_sk();
            (key_bits(&k), k)
        }
        1 => {
            let b = random_bits(n, seed);
            let k = key_from_bits(&b);
            (b, k)
        }
        2 => (vec![1; n], key_from_bits(&vec![1; n])),
        3 => (vec![0; n], RLWESecretKey::zero(concrete_core::prelude::PolynomialSize(n))),
        _ => {
            let mut b = vec![0; n];
            b[n - 1] = 1;
            let k = key_from_bits(&b);
            (b, k)
        }
    }
}

pub fn random_poly(n: usize, r: &mut Sm) -> Poly {
    (0..n).map(|_| r.next()).collect()
}
/// a random polynomial with zeros at the beginning, at the end, nearly everywhere or everywhere
pub fn holed_poly(n: usize, r: &mut Sm) -> Poly {
    let mut p = random_poly(n, r);
    let cut = 1 + r.below(n as u64) as usize;
    match r.below(10) {
        0 => p[0] = 0,
        1 => p[n - 1] = 0,
        2 => p[..cut].fill(0),
        3 => p[n - cut..].fill(0),
        4 => p.iter_mut().for_each(|x| if r.below(8) != 0 { *x = 0 }),
        5 => {
            let k = r.below(n as u64) as usize;
            (0..n).for_each(|i| if i != k { p[i] = 0 });
        }
        6 => p.fill(0),
        _ => {}
    }
    p
}
/// also polynomials of extreme or small values
pub fn wild_poly(n: usize, r: &mut Sm) -> Poly {
    let v = [1, u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 62, r.next()][r.below(6) as usize];
    match r.below(8) {
        0 => vec![v; n],
        1 => (0..n).map(|_| [0, v][r.below(2) as usize]).collect(),
        2 => (0..n).map(|_| [1, u64::MAX, 1 << 63, (1 << 63) - 1, 0, 2][r.below(6) as usize]).collect(),
        3 => {
            let sh = r.below(64);
            (0..n).map(|_| r.next() >> sh).collect()
        }
        _ => holed_poly(n, r),
    }
}
/// an arbitrary ciphertext; half of them have zeros in special places
pub fn random_ct(n: usize, r: &mut Sm) -> RLWECiphertext {
    if r.below(2) == 0 {
        let (a, b) = (random_poly(n, r), random_poly(n, r));
        return ct_from(&a, &b);
    }
    let (a, b) = (holed_poly(n, r), holed_poly(n, r));
    ct_from(&a, &b)
}
pub fn wild_ct(n: usize, r: &mut Sm) -> RLWECiphertext {
    let (a, b) = (wild_poly(n, r), wild_poly(n, r));
    ct_from(&a, &b)
}

fn enc_params(lo: usize, hi: usize, rare: usize) -> BoxedStrategy<P> {
    (logn(lo, hi, rare), prop_oneof![2 => Just(220u32), 6 => 40u32..=245, 1 => 20u32..=60], 0usize..62)
        .prop_map(|(logn, std4, raw)| {
            let mut p = P { logn, std4, logt: 1, ..DEFAULT_P };
            // 12 standard deviations fit below half a step
            let room = (63.0 - (p.sigma() * 12.0 + 16.0).log2()).floor() as usize;
            p.logt = 1 + raw % room.clamp(1, 62);
            p
        })
        .boxed()
}

fn enc_case(k: &EncCase) -> R {
    let p = &k.p;
    let n = p.n();
    let mut ctx = p.ctx(k.seed);
    let mut r = Sm(k.seed ^ 0x11);
    let (s, sk) = key_of_kind(k.key, n, k.seed, &mut ctx);
    ensure!(s.iter().all(|x| *x <= 1), "key with a coefficient that is not binary");
    ensure!(key_bits(&sk) == s && sk.polynomial_size().0 == n, "the key does not have the coefficients it was filled with");
    let m = k.d.poly(n, p.t());

    // polynomial encryption, into a used ciphertext and a used plaintext
    let mut c = random_ct(n, &mut r);
    let pt = pl(&m);
    sk.encode_encrypt_rlwe(&mut c, &pt, &mut ctx);
    ensure!(pl_vec(&pt) == m, "encryption changed its input");
    let mut out = pl(&random_poly(n, &mut r));
    let before = (mask_of(&c), body_of(&c));
    sk.decrypt_rlwe(&mut out, &c);
    ensure!(pl_vec(&out) == phase(&c, &s), "decryption is not body - mask*key");
    sk.decrypt_decode_rlwe(&mut out, &c, &ctx);
    ensure!(pl_vec(&out) == m, "polynomial round trip failed at {:?}", first_diff(&pl_vec(&out), &m));
    ensure!(before == (mask_of(&c), body_of(&c)), "decryption changed the ciphertext");

    // raw encryption of an encoded plaintext
    let mut c2 = random_ct(n, &mut r);
    sk.encrypt_rlwe(&mut c2, &pl(&scale(&m, p.delta())), ctx.std, &mut ctx.encryption_generator);
    let mut out = pl(&vec![7; n]);
    sk.decrypt_decode_rlwe(&mut out, &c2, &ctx);
    ensure!(pl_vec(&out) == m, "raw encryption round trip failed");

    // constant
    let mut c3 = random_ct(n, &mut r);
    let v = m[0];
    sk.encrypt_constant_rlwe(&mut c3, &Plaintext(v.wrapping_mul(p.delta())), &mut ctx);
    let mut expect = vec![0; n];
    expect[0] = v;
    sk.decrypt_decode_rlwe(&mut out, &c3, &ctx);
    ensure!(pl_vec(&out) == expect, "constant {v} decrypts to {:?}", &pl_vec(&out)[..n.min(8)]);

    // ternary
    if p.sigma() * 12.0 < 2f64.powi(61) {
        let tern: Poly = (0..n).map(|_| [0, 1, u64::MAX][r.below(3) as usize]).collect();
        sk.ternary_encrypt_rlwe(&mut c3, &pl(&tern), &mut ctx);
        sk.ternary_decrypt_rlwe(&mut out, &c3);
        ensure!(pl_vec(&out) == tern, "ternary round trip failed at {:?}", first_diff(&pl_vec(&out), &tern));
    }

    // arbitrary ciphertexts
    let mut z = random_ct(n, &mut r);
    for _ in 0..4 {
        z = wild_ct(n, &mut r);
        sk.decrypt_rlwe(&mut out, &z);
        ensure!(pl_vec(&out) == phase(&z, &s), "decryption of an arbitrary ciphertext is not body - mask*key");
        sk.decrypt_decode_rlwe(&mut out, &z, &ctx);
        for (y, x) in pl_vec(&out).iter().zip(phase(&z, &s)) {
            ensure!(*y < p.t() && dist(y.wrapping_mul(p.delta()), x) <= p.delta() / 2, "phase {x:#x} is decoded to {y} with t=2^{}", p.logt);
        }
    }

    // copies
    let mut y = random_ct(n, &mut r);
    y.fill_with_copy(&z);
    ensure!(mask_of(&y) == mask_of(&z) && body_of(&y) == body_of(&z), "fill_with_copy differs");
    let flat = random_poly(2 * n, &mut r);
    y.fill_with_tensor(&Tensor::from_container(flat.clone()));
    ensure!(mask_of(&y) == flat[..n] && body_of(&y) == flat[n..], "fill_with_tensor differs");
    y.clear();
    ensure!(max_abs(&mask_of(&y)) == 0 && max_abs(&body_of(&y)) == 0, "clear leaves data");
    ensure!(y.polynomial_size().0 == n, "polynomial size");
    let y = RLWECiphertext::allocate(ctx.poly_size);
    ensure!(max_abs(&mask_of(&y)) == 0 && max_abs(&body_of(&y)) == 0, "a new ciphertext is not zero");
    Ok(Out::new(k.d.kind != 2 && k.key != 3)
        .label(format!("key kind {}", k.key))
        .label_if(p.logt > 20, "large modulus"))
}

fn first_diff(a: &[u64], b: &[u64]) -> Option<(usize, u64, u64)> {
    (0..a.len()).find(|i| a[*i] != b[*i]).map(|i| (i, a[i], b[i]))
}

pub fn lwe_from(mask: &[u64], body: u64) -> LWECiphertext {
    let mut c = LWECiphertext::allocate(LweSize(mask.len() + 1));
    let mut v = mask.to_vec();
    v.push(body);
    c.fill_with_tensor(&Tensor::from_container(v));
    c
}

pub fn lwe_mask(c: &LWECiphertext) -> Poly {
    let v: &[u64] = c.as_tensor().as_slice();
    v[..v.len() - 1].to_vec()
}

pub fn lwe_key_bits(k: &LWESecretKey) -> Poly {
    let n = k.key_size().0;
    (0..n)
        .map(|i| {
            let mut m = vec![0; n];
            m[i] = u64::MAX;
            let mut o = Plaintext(0u64);
            k.decrypt_lwe(&mut o, &lwe_from(&m, 0));
            o.0
        })
        .collect()
}

pub fn lwe_phase(c: &LWECiphertext, s: &[u64]) -> u64 {
    let m = lwe_mask(c);
    let mut x = c.get_body().0;
    for (a, b) in m.iter().zip(s) {
        x = x.wrapping_sub(a.wrapping_mul(*b));
    }
    x
}

fn lwe_case(k: &EncCase) -> R {
    let p = &k.p;
    let n = p.n();
    let mut ctx = p.ctx(k.seed);
    let mut r = Sm(k.seed ^ 0x12);
    let sk = ctx.gen_lwe_sk();
    ensure!(sk.key_size().0 == n, "LWE key has {} coefficients", sk.key_size().0);
    let s = lwe_key_bits(&sk);
    ensure!(s.iter().all(|x| *x <= 1), "LWE key is not binary");
    let rk = sk.to_rlwe_sk();
    ensure!(key_bits(&rk) == s, "to_rlwe_sk changes the coefficients");
    for v in [k.d.poly(n, p.t())[0], 0, p.t() - 1, r.next() & (p.t() - 1)] {
        let mut c = lwe_from(&random_poly(n, &mut r), r.next());
        let pt = Plaintext(v);
        sk.encode_encrypt_lwe(&mut c, &pt, &mut ctx);
        ensure!(c.lwe_size().0 == n + 1, "LWE size {}", c.lwe_size().0);
        let mut o = Plaintext(r.next());
        sk.decrypt_lwe(&mut o, &c);
        ensure!(o.0 == lwe_phase(&c, &s), "LWE decryption is not body - <mask, key>");
        sk.decode_decrypt_lwe(&mut o, &c, &ctx);
        ensure!(o.0 == v, "LWE round trip of {v} gives {}", o.0);
        sk.encrypt_lwe(&mut c, &Plaintext(v.wrapping_mul(p.delta())), ctx.std, &mut ctx.encryption_generator);
        sk.decode_decrypt_lwe(&mut o, &c, &ctx);
        ensure!(o.0 == v, "raw LWE round trip of {v} gives {}", o.0);
    }
    let mut z = lwe_from(&random_poly(n, &mut r), r.next());
    let mut o = Plaintext(0);
    for _ in 0..6 {
        let body = wild_poly(1, &mut r)[0];
        z = lwe_from(&wild_poly(n, &mut r), body);
        sk.decrypt_lwe(&mut o, &z);
        ensure!(o.0 == lwe_phase(&z, &s), "decryption of an arbitrary LWE ciphertext");
    }
    let mut y = LWECiphertext::allocate(ctx.lwe_size());
    ensure!(y.as_tensor().iter().all(|x| *x == 0), "a new LWE ciphertext is not zero");
    y.fill_with_tensor(z.as_tensor());
    ensure!(lwe_mask(&y) == lwe_mask(&z) && y.get_body().0 == z.get_body().0, "fill_with_tensor differs");
    ensure!(y.get_mask().as_tensor().as_slice() == &lwe_mask(&z)[..], "get_mask differs");
    y.get_mut_body().0 = 5;
    y.get_mut_mask().as_mut_tensor().iter_mut().for_each(|x| *x = x.wrapping_add(1));
    ensure!(y.get_body().0 == 5 && lwe_mask(&y)[n - 1] == lwe_mask(&z)[n - 1].wrapping_add(1), "mutable accessors");
    y.clear();
    ensure!(y.as_tensor().iter().all(|x| *x == 0), "clear leaves data");
    Ok(Out::new(p.logt >= 1 && k.d.kind != 2))
}

fn enc_strategy(lo: usize, hi: usize, rare: usize) -> BoxedStrategy<EncCase> {
    (enc_params(lo, hi, rare), data(), prop_oneof![3 => Just(0u8), 4 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)], any::<u32>())
        .prop_map(|(p, d, key, seed)| EncCase { p, d, key, seed: seed as u64 })
        .boxed()
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        assumptions: &["the plaintext modulus leaves 12 standard deviations below half a step"],
        subs: vec![
            sub("rlwe", "polynomial, raw, constant and ternary RLWE encryption against body - mask*key computed independently, arbitrary ciphertexts, copies; non-trivial: non-zero plaintext and key", 54000, 1080000,
                || enc_strategy(1, 8, 11), enc_case),
            sub("large_ring", "RLWE as above at N=4096 to 16384", 60, 1200, || enc_strategy(12, 13, 14), enc_case),
            sub("large_lwe", "LWE as below at dimensions 1024 to 16384", 200, 4000, || enc_strategy(10, 12, 14), lwe_case),
            sub("lwe", "LWE encryption, decryption, accessors and conversion of the key; non-trivial: non-zero plaintext polynomial kind", 90000, 1800000,
                || enc_strategy(1, 7, 9), lwe_case),
        ],
    }
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FreshCase {
    p: P,
    func: u8,
    d: D,
    seed: u64,
    /// use the context's own seeding (secure or not)
    own: u8,
    k: usize,
}

const FUNCS: [&str; 16] = [
    "encode_encrypt_rlwe",
    "encrypt_rlwe",
    "ternary_encrypt_rlwe",
    "encrypt_constant_rlwe",
    "lwe",
    "constant_rgsw",
    "poly_rgsw",
    "neg_gsw",
    "ksk",
    "subs_ksk",
    "all_subs_ksk",
    "all_subs_ksk_fourier",
    "lwe_to_rlwe_ksk",
    "constant_rgsw_vec",
    "feature_vector",
    "bit_decomposed_rgsw",
];

/// All masks and errors of one call of the encryption function.
fn encrypt_once(k: &FreshCase, sk: &RLWESecretKey, s: &[u64], lsk: &LWESecretKey, ls: &[u64], ctx: &mut Context) -> Result<(Vec<Poly>, Vec<Poly>), String> {
    let p = &k.p;
    let n = p.n();
    let m = k.d.poly(n, p.t());
    let mut masks = vec![];
    let mut errs = vec![];
    let one = |c: &RLWECiphertext, expect: &[u64], masks: &mut Vec<Poly>, errs: &mut Vec<Poly>| {
        masks.push(mask_of(c));
        errs.push(psub(&phase(c, s), expect));
    };
    let rgsw_rows = |c: &RGSWCiphertext, m: &[u64], masks: &mut Vec<Poly>, errs: &mut Vec<Poly>| {
        let b = c.decomposition_base_log().0;
        let ms = neg(&negmul(m, s));
        for i in 0..c.ciphertext_count().0 {
            let g = 1u64 << (64 - b * (i / 2 + 1));
            let row = c.get_nth_row(i);
            let expect = scale(if i % 2 == 0 { &ms } else { m }, g);
            masks.push(mask_of(&row));
            errs.push(psub(&phase(&row, s), &expect));
        }
    };
    match k.func {
        0 => {
            let mut c = RLWECiphertext::allocate(ctx.poly_size);
            sk.encode_encrypt_rlwe(&mut c, &pl(&m), ctx);
            one(&c, &scale(&m, p.delta()), &mut masks, &mut errs);
        }
        1 => {
            let mut c = RLWECiphertext::allocate(ctx.poly_size);
            sk.encrypt_rlwe(&mut c, &pl(&m), ctx.std, &mut ctx.encryption_generator);
            one(&c, &m, &mut masks, &mut errs);
        }
        2 => {
            let t: Poly = m.iter().map(|x| [0, 1, u64::MAX][(*x % 3) as usize]).collect();
            let mut c = RLWECiphertext::allocate(ctx.poly_size);
            sk.ternary_encrypt_rlwe(&mut c, &pl(&t), ctx);
            let mut e = Polynomial::from_container(t);
            Codec::poly_ternary_encode(&mut e);
            one(&c, e.as_tensor().as_slice(), &mut masks, &mut errs);
        }
        3 => {
            let mut c = RLWECiphertext::allocate(ctx.poly_size);
            sk.encrypt_constant_rlwe(&mut c, &Plaintext(m[0].wrapping_mul(p.delta())), ctx);
            let mut e = vec![0; n];
            e[0] = m[0].wrapping_mul(p.delta());
            one(&c, &e, &mut masks, &mut errs);
        }
        4 => {
            let mut e = vec![];
            for x in m.iter().take(64) {
                let mut c = LWECiphertext::allocate(ctx.lwe_size());
                lsk.encode_encrypt_lwe(&mut c, &Plaintext(*x), ctx);
                masks.push(lwe_mask(&c));
                e.push(lwe_phase(&c, ls).wrapping_sub(x.wrapping_mul(p.delta())));
            }
            errs.push(e);
        }
        5 => {
            let mut c = RGSWCiphertext::allocate(ctx.poly_size, DecompositionBaseLog(p.b), DecompositionLevelCount(p.l));
            sk.encrypt_constant_rgsw(&mut c, &Plaintext(m[0] & 1), ctx);
            let mut e = vec![0; n];
            e[0] = m[0] & 1;
            rgsw_rows(&c, &e, &mut masks, &mut errs);
        }
        6 => {
            let mut c = RGSWCiphertext::allocate(ctx.poly_size, DecompositionBaseLog(p.b), DecompositionLevelCount(p.l));
            let e: Poly = m.iter().map(|x| x & 1).collect();
            sk.encrypt_rgsw(&mut c, &pl(&e), ctx);
            rgsw_rows(&c, &e, &mut masks, &mut errs);
        }
        7 => {
            let c = sk.neg_gsw(ctx);
            rgsw_rows(&c, &neg(s), &mut masks, &mut errs);
        }
        8 | 9 => {
            let mut ksk = RLWEKeyswitchKey::allocate(ctx.ks_base_log, ctx.ks_level_count, ctx.poly_size);
            let from = if k.func == 8 {
                let f = random_bits(n, k.seed ^ 99);
                ksk.fill_with_keyswitch_key(&key_from_bits(&f), sk, ctx.std, &mut ctx.encryption_generator);
                f
            } else {
                let mut dummy = RLWESecretKey::zero(ctx.poly_size);
                let kk = (2 * k.k + 1) % (2 * n);
                ksk.fill_with_subs_keyswitch_key(&mut dummy, sk, kk, ctx.std, &mut ctx.encryption_generator);
                eval_xk(s, kk)
            };
            for (i, row) in ksk.get_keyswitch_key().iter().enumerate() {
                one(row, &scale(&from, 1 << (64 - p.kb * (i + 1))), &mut masks, &mut errs);
            }
        }
        10 => {
            let map = gen_all_subs_ksk(sk, ctx);
            let mut ks: Vec<_> = map.keys().copied().collect();
            ks.sort();
            for kk in ks {
                for (i, row) in map[&kk].get_keyswitch_key().iter().enumerate() {
                    one(row, &scale(&eval_xk(s, kk), 1 << (64 - p.kb * (i + 1))), &mut masks, &mut errs);
                }
            }
        }
        // The rows of the other two cannot be read, but switching a ciphertext whose mask is a
        // single gadget power yields the negated row.
        11 => {
            let map = gen_all_subs_ksk_fourier(sk, ctx);
            let mut ks: Vec<_> = map.keys().copied().collect();
            ks.sort();
            for kk in ks {
                for i in 0..p.kl {
                    let g = 1u64 << (64 - p.kb * (i + 1));
                    let mut mask = vec![0; n];
                    mask[0] = g;
                    let mut f = FourierRLWECiphertext::new(n);
                    map[&kk].subs(&mut f, &ct_from(&mask, &vec![0; n]));
                    one(&f.backward_as_torus(), &scale(&neg(&eval_xk(s, kk)), g), &mut masks, &mut errs);
                }
            }
        }
        12 => {
            let mut key = LWEtoRLWEKeyswitchKey::allocate(ctx);
            key.fill_with_keyswitching_key(lsk, ctx);
            let rs = key_bits(&lsk.to_rlwe_sk());
            for j in [0, k.k % n, n - 1].iter().collect::<std::collections::BTreeSet<_>>() {
                for i in 0..p.kl {
                    let g = 1u64 << (64 - p.kb * (i + 1));
                    let mut lwe = LWECiphertext::allocate(ctx.lwe_size());
                    let mut m = vec![0; n];
                    m[*j] = g;
                    lwe.get_mut_mask().as_mut_tensor().as_mut_slice().copy_from_slice(&m);
                    let c = conv_lwe_to_rlwe(&key, &lwe, ctx);
                    let mut expect = vec![0; n];
                    expect[0] = (ls[*j] * g).wrapping_neg();
                    masks.push(mask_of(&c));
                    errs.push(psub(&phase(&c, &rs), &expect));
                }
            }
        }
        13 => {
            // few different plaintexts, most of them several times
            let bits: Vec<u64> = (0..2 + k.k % 4).map(|i| k.seed >> i & 1).collect();
            let cts = sk.encrypt_constant_rgsw_vec(&bits.iter().map(|x| Plaintext(*x)).collect::<Vec<_>>(), ctx);
            ensure!(cts.len() == bits.len(), "{} ciphertexts for {} plaintexts", cts.len(), bits.len());
            for (c, b) in cts.iter().zip(bits) {
                let mut e = vec![0; n];
                e[0] = b;
                rgsw_rows(c, &e, &mut masks, &mut errs);
            }
        }
        14 => {
            let f: Vec<usize> = (0..1 + k.k % 4).map(|i| [0, n - 1, k.k % n][(k.seed as usize >> i) % 3]).collect();
            let cts = encrypt_feature_vector(sk, &f, ctx);
            ensure!(cts.len() == f.len(), "{} features encrypted out of {}", cts.len(), f.len());
            for (c, x) in cts.iter().zip(f) {
                ensure!(c.len() == p.l, "{} ciphertexts for {} levels", c.len(), p.l);
                for (i, c) in c.iter().enumerate() {
                    let mut e = vec![0; n];
                    e[x] = 1u64 << (64 - p.b * (i + 1) - p.logn);
                    one(c, &e, &mut masks, &mut errs);
                }
            }
        }
        15 => {
            let bits = 1 + k.k % 3;
            let i = k.seed as usize % (1 << bits);
            let cts = bit_decomposed_rgsw(i, 1 << bits, sk, ctx);
            ensure!(cts.len() == bits, "{} ciphertexts for {bits} bits", cts.len());
            for (j, c) in cts.iter().enumerate() {
                let mut e = vec![0; n];
                e[0] = 1 - (i as u64 >> (bits - 1 - j) & 1);
                rgsw_rows(c, &e, &mut masks, &mut errs);
            }
        }
        _ => unreachable!(),
    }
    Ok((masks, errs))
}

fn fresh_ctx(k: &FreshCase) -> Context {
    match k.own {
        0 => k.p.ctx(k.seed),
        1 => Context::new(k.p.tfhe(false)),
        _ => Context::new(k.p.tfhe(true)),
    }
}

fn fresh_case(k: &FreshCase) -> R {
    let p = &k.p;
    let n = p.n();
    let mut ctx = fresh_ctx(k);
    let sk = ctx.gen_rlwe_sk();
    let s = key_bits(&sk);
    let uses_lwe = k.func == 4 || k.func == 12;
    let lsk = if uses_lwe { ctx.gen_lwe_sk() } else { LWESecretKey::generate_binary(concrete_core::prelude::LweDimension(1), &mut ctx.secret_generator) };
    let ls = if uses_lwe { lwe_key_bits(&lsk) } else { vec![] };
    let name = FUNCS[k.func as usize];
    let (mut masks, mut errs) = (vec![], vec![]);
    let mut calls = 0;
    // at least two calls and enough error samples for the variance
    while calls < 2 || (errs.iter().map(|e: &Poly| e.len()).sum::<usize>() < 2048 && calls < 40) {
        let (m, e) = encrypt_once(k, &sk, &s, &lsk, &ls, &mut ctx)?;
        masks.extend(m);
        errs.extend(e);
        calls += 1;
    }
    // masks: no two equal at any position, no value twice, every bit about half
    let mut seen = HashSet::new();
    let flat: Vec<u64> = masks.iter().flatten().copied().take(20000).collect();
    for x in &flat {
        ensure!(seen.insert(*x), "{name}: a mask coefficient repeats in {} coefficients of {calls} calls", flat.len());
    }
    for i in 0..masks.len() {
        for j in 0..i {
            ensure!((0..masks[i].len()).all(|x| masks[i][x] != masks[j][x]), "{name}: two masks share a coefficient (rows {j} and {i})");
        }
    }
    let cnt = flat.len() as f64;
    // what comes out of a Fourier transform has 53 significant bits
    for b in if k.func == 11 { 16 } else { 0 }..64 {
        let ones = flat.iter().filter(|x| *x >> b & 1 == 1).count() as f64;
        ensure!((ones - cnt / 2.0).abs() <= 4.5 * cnt.sqrt() + 1.0, "{name}: bit {b} of the mask is set {ones} times out of {cnt}");
    }
    // errors
    let sigma = p.sigma();
    let e: Vec<f64> = errs.iter().flatten().map(|x| *x as i64 as f64).collect();
    let c = e.len() as f64;
    let mean = e.iter().sum::<f64>() / c;
    let var = e.iter().map(|x| x * x).sum::<f64>() / c;
    let expect = sigma * sigma;
    ensure!(e.iter().any(|x| *x != 0.0), "{name}: no noise at all");
    ensure!(mean.abs() <= 8.0 * sigma / c.sqrt() + 1.0, "{name}: mean error {mean:.3e} with deviation {sigma:.3e}, {c} samples");
    let tol = 8.0 * (2.0 / c).sqrt();
    ensure!(
        var <= expect * (1.0 + tol) + 1.0 && var + 1.0 >= expect * (1.0 - tol.min(0.9)),
        "{name}: deviation of the errors 2^{:.3}, configured 2^{:.3}, {c} samples", var.sqrt().log2(), sigma.log2()
    );
    let maxe = e.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    ensure!(maxe <= 9.5 * sigma + 2.0, "{name}: error {maxe:.3e} with deviation {sigma:.3e}");
    // normal shape: about 31.7 % beyond one deviation
    if sigma > 64.0 {
        let beyond = e.iter().filter(|x| x.abs() > sigma).count() as f64 / c;
        ensure!((beyond - 0.3173).abs() <= 8.0 * (0.3173f64 * 0.6827 / c).sqrt(), "{name}: {beyond:.3} of the errors exceed one deviation");
    }
    // rows are independent
    for i in 0..errs.len() {
        for j in 0..i {
            let l = errs[i].len().min(errs[j].len());
            if l >= 64 {
                let dot: f64 = (0..l).map(|x| errs[i][x] as i64 as f64 * (errs[j][x] as i64 as f64)).sum();
                ensure!(dot.abs() <= 9.0 * (l as f64).sqrt() * (expect + 1.0), "{name}: errors of rows {j} and {i} are correlated");
            }
        }
    }
    // every single row has the configured deviation
    for (i, row) in errs.iter().enumerate() {
        if row.len() >= 32 {
            let z = chi_z(row.iter().map(|x| *x as i64 as f64).map(|x| x * x).sum(), row.len(), sigma);
            ensure!(z.abs() < 7.5, "{name}: the errors of row {i} are {z:.1} standard deviations away from the configured deviation 2^{:.2}", sigma.log2());
        }
    }
    // every single row carries noise
    if sigma > 64.0 {
        for (i, row) in errs.iter().enumerate() {
            let z = row.iter().filter(|x| **x == 0).count();
            // N >= 64 samples, each zero with probability below 1/160
            ensure!(z * 2 <= row.len(), "{name}: row {i} has {z} zero errors out of {}", row.len());
        }
    }
    Ok(Out::new(k.d.kind != 2).label(name).label(["seeded", "insecure context", "secure context"][k.own as usize]))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyCase {
    logn: usize,
    own: u8,
    seed: u64,
}

fn key_case(k: &KeyCase) -> R {
    let p = P { logn: k.logn, ..DEFAULT_P };
    let f = FreshCase { p, func: 0, d: D { kind: 0, seed: 0 }, seed: k.seed, own: k.own, k: 1 };
    let mut ctx = fresh_ctx(&f);
    let n = p.n();
    let mut keys: Vec<Poly> = vec![];
    let mut ones = 0u64;
    let mut total = 0u64;
    while total < 4096 || keys.len() < 3 {
        let b = match keys.len() % 3 {
            0 => key_bits(&ctx.gen_rlwe_sk()),
            1 => key_bits(&RLWESecretKey::generate_binary(ctx.poly_size, &mut ctx.secret_generator)),
            // reading the LWE key takes n^2 steps
            _ if n <= 256 => lwe_key_bits(&ctx.gen_lwe_sk()),
            _ => key_bits(&ctx.gen_lwe_sk().to_rlwe_sk()),
        };
        ensure!(b.len() == n, "key of {} coefficients", b.len());
        ensure!(b.iter().all(|x| *x <= 1), "a key coefficient is not binary");
        ones += b.iter().sum::<u64>();
        total += n as u64;
        keys.push(b);
    }
    let dev = (ones as f64 - total as f64 / 2.0).abs();
    ensure!(dev <= 4.5 * (total as f64).sqrt(), "{ones} ones in {total} key coefficients");
    for i in 0..keys.len() {
        for j in 0..i {
            if n >= 128 {
                let agree = keys[i].iter().zip(&keys[j]).filter(|(a, b)| a == b).count() as f64;
                ensure!((agree - n as f64 / 2.0).abs() < 4.0 * (n as f64).sqrt() + 1.0, "keys {j} and {i} agree in {agree} of {n} positions");
            }
        }
    }
    // neighbouring coefficients are independent
    let pairs: u64 = keys.iter().map(|k| k.windows(2).filter(|w| w[0] == w[1]).count() as u64).sum();
    let np = keys.iter().map(|k| k.len() as u64 - 1).sum::<u64>() as f64;
    ensure!((pairs as f64 - np / 2.0).abs() <= 4.5 * np.sqrt() + 1.0, "{pairs} of {np} neighbouring key coefficients agree");
    Ok(Out::new(true))
}

pub fn c12() -> Check {
    let strat = || {
        (
            params(Cfg { logn: logn(6, 8, 10), max_l: 12, max_kl: 12, lo: 20 }),
            prop_oneof![3 => Just(220u32), 8 => 60u32..=240, 1 => 240u32..=256],
            0..FUNCS.len() as u8,
            data(),
            any::<u32>(),
            prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
            0usize..4096,
            1usize..=30,
        )
            .prop_map(|(mut p, std4, func, d, seed, own, k, logt)| {
                p.std4 = std4;
                p.logt = logt;
                if func == 11 {
                    // the errors have to stand out from those of the transform
                    p.std4 = p.std4.min(80 + std4 % 80);
                }
                if func >= 11 && p.kb == 1 {
                    (p.kb, p.kl) = (2, p.kl.min(31));
                }
                // the number of rows of these grows with the ring
                p.logn = p.logn.min([9, 8, 7][(func as usize).clamp(10, 12) - 10].max(if func < 10 { p.logn } else { 0 }));
                if func == 14 {
                    p.l = p.l.min((64 - p.logn) / p.b);
                }
                FreshCase { p, func, d, seed: seed as u64, own, k }
            })
            .boxed()
    };
    Check {
        id: "C12",
        assumptions: &["statistical limits have a failure probability below 1e-12 per case"],
        subs: vec![
            sub("fresh", "two or more calls of one encryption function (single, vector, features, bits, keys) on the same plaintext: masks of all rows and calls, errors recovered exactly with the key; non-trivial: non-zero plaintext", 4600, 240000, strat, fresh_case),
            sub("keys", "at least 4096 coefficients of freshly generated RLWE and LWE keys; all non-trivial", 5000, 100000,
                || (logn(5, 9, 11), 0u8..3, any::<u32>()).prop_map(|(logn, own, seed)| KeyCase { logn, own, seed: seed as u64 }).boxed(),
                key_case),
        ],
    }
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SeedCase {
    p: P,
    contexts: usize,
    ops: Vec<u8>,
    threads: bool,
}

/// What one call yields, as numbers.
fn seed_op(op: u8, ctx: &mut Context, fixed: &RLWESecretKey) -> Vec<u64> {
    let n = ctx.poly_size.0;
    match op % 10 {
        0 => key_bits(&ctx.gen_rlwe_sk()),
        1 => pl_vec(&ctx.gen_pt()),
        2 => pl_vec(&ctx.gen_binary_pt()),
        3 => pl_vec(&ctx.gen_ternary_ptxt()),
        4 => {
            let mut c = RLWECiphertext::allocate(ctx.poly_size);
            fixed.encode_encrypt_rlwe(&mut c, &pl(&vec![0; n]), ctx);
            let mut v = mask_of(&c);
            v.extend(body_of(&c));
            v
        }
        5 => vec![ctx.gen_scalar_binary_pt().0],
        6 => {
            let sk = ctx.gen_lwe_sk();
            let mut c = LWECiphertext::allocate(ctx.lwe_size());
            sk.encode_encrypt_lwe(&mut c, &Plaintext(1), ctx);
            c.as_tensor().as_slice().to_vec()
        }
        7 => {
            let mut c = RGSWCiphertext::allocate(ctx.poly_size, ctx.base_log, ctx.level_count);
            fixed.encrypt_constant_rgsw(&mut c, &Plaintext(1), ctx);
            (0..c.ciphertext_count().0).flat_map(|i| {
                let r = c.get_nth_row(i);
                let mut v = mask_of(&r);
                v.extend(body_of(&r));
                v
            }).collect()
        }
        8 => {
            let m = gen_all_subs_ksk(fixed, ctx);
            let mut ks: Vec<_> = m.keys().copied().collect();
            ks.sort();
            ks.iter().flat_map(|k| m[k].get_keyswitch_key().iter().flat_map(|c| {
                let mut v = mask_of(c);
                v.extend(body_of(c));
                v
            }).collect::<Vec<_>>()).collect()
        }
        _ => {
            let g = fixed.neg_gsw(ctx);
            let r = g.get_last_row();
            let mut v = mask_of(&r);
            v.extend(body_of(&r));
            v
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ProcessCase {
    c: SeedCase,
    processes: usize,
    secure: bool,
}

fn insecure_draw(k: &SeedCase) -> Vec<Vec<u64>> {
    let fixed = key_from_bits(&random_bits(k.p.n(), 5));
    let mut ctx = Context::new(k.p.tfhe(false));
    k.ops.iter().map(|o| seed_op(*o, &mut ctx, &fixed)).collect()
}

fn insecure_case(k: &SeedCase) -> R {
    let fixed = key_from_bits(&random_bits(k.p.n(), 5));
    let run = || insecure_draw(k);
    let a = run();
    // something else happens in between
    let mut other = Context::new(k.p.tfhe(k.contexts % 2 == 0));
    seed_op(k.contexts as u8, &mut other, &fixed);
    for i in 0..k.contexts {
        let b = if k.threads && i % 2 == 1 {
            std::thread::scope(|s| s.spawn(run).join().unwrap())
        } else {
            run()
        };
        for (j, (x, y)) in a.iter().zip(&b).enumerate() {
            ensure!(x == y, "context {i} differs from the first at call {j} (operation {})", k.ops[j] % 10);
        }
    }
    // interleaved use of two contexts
    let (mut c1, mut c2) = (Context::new(k.p.tfhe(false)), Context::new(k.p.tfhe(false)));
    for (j, o) in k.ops.iter().enumerate() {
        let x = seed_op(*o, &mut c1, &fixed);
        let y = seed_op(*o, &mut c2, &fixed);
        ensure!(x == a[j] && y == a[j], "interleaved contexts differ at call {j}");
    }
    Ok(Out::new(k.ops.len() >= 2 && k.contexts >= 1))
}

/// What a securely seeded context yields: key, binary plaintext, LWE key, plaintext, ternary plaintext, RLWE and LWE encryption.
fn secure_draw(p: &P) -> Vec<Vec<u64>> {
    let fixed = RLWESecretKey::zero(concrete_core::prelude::PolynomialSize(p.n()));
    let mut ctx = Context::new(p.tfhe(true));
    let mut out: Vec<Vec<u64>> = [0, 2].iter().map(|o| seed_op(*o, &mut ctx, &fixed)).collect();
    out.push(lwe_key_bits(&ctx.gen_lwe_sk()));
    out.extend([1, 3, 4, 6].iter().map(|o| seed_op(*o, &mut ctx, &fixed)));
    out
}

/// everything that has been drawn so far
#[derive(Default)]
struct Drawn {
    bits: HashSet<Vec<u64>>,
    masks: HashSet<u64>,
    noises: HashSet<Vec<u64>>,
    terns: HashSet<Vec<u64>>,
}

impl Drawn {
    fn add(&mut self, i: impl std::fmt::Display, n: usize, d: &[Vec<u64>]) -> Result<(), String> {
        let [key, bin, lkey, pt, tern, ct, lct] = d else { return Err(format!("context {i}: {} values", d.len())) };
        ensure!(self.bits.insert(key.clone()), "context {i}: secret key equal to an earlier key or plaintext");
        ensure!(self.bits.insert(bin.clone()), "context {i}: binary plaintext equal to an earlier key or plaintext");
        ensure!(self.bits.insert(lkey.clone()), "context {i}: LWE key equal to an earlier key or plaintext");
        // the plaintext's low bits
        ensure!(self.bits.insert(pt.iter().map(|x| x & 1).collect()), "context {i}: plaintext equal to an earlier key or plaintext");
        ensure!(self.terns.insert(tern.clone()), "context {i}: ternary plaintext repeats");
        for (j, x) in ct[..n].iter().chain(&lct[..n]).enumerate() {
            ensure!(self.masks.insert(*x), "context {i}: mask coefficient {j} repeats one of an earlier context");
        }
        ensure!(self.noises.insert(ct[n..].to_vec()), "context {i}: noise repeats");
        Ok(())
    }
}

fn secure_case(k: &SeedCase) -> R {
    let mut drawn = Drawn::default();
    let mut i = 0;
    while i < k.contexts {
        // one after another, or four threads at the same time
        let group = if k.threads && i % 5 == 1 { 4.min(k.contexts - i) } else { 1 };
        let ds: Vec<Vec<Vec<u64>>> = if group == 1 {
            vec![secure_draw(&k.p)]
        } else {
            let gate = std::sync::Barrier::new(group);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..group).map(|_| s.spawn(|| { gate.wait(); guarded(|| Ok(secure_draw(&k.p))) })).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect::<Result<_, _>>()
            })?
        };
        for d in &ds {
            drawn.add(i, k.p.n(), d)?;
            i += 1;
        }
    }
    Ok(Out::new(k.contexts >= 2).label(if k.contexts > 100 { ">100 contexts" } else { "few contexts" }))
}

/// `pv seeds CASE SECURE`: what the contexts of this process yield, as JSON
pub fn print_seeds(case: &str, secure: bool) -> i32 {
    let Ok(k) = serde_json::from_str::<SeedCase>(case) else { return 2 };
    let r = guarded(|| Ok((0..k.contexts).map(|_| if secure { secure_draw(&k.p) } else { insecure_draw(&k) }).collect::<Vec<_>>()));
    match r {
        Ok(v) => {
            println!("{}", serde_json::to_string(&v).unwrap());
            0
        }
        Err(e) => {
            println!("{e}");
            1
        }
    }
}

/// contexts in several processes
fn process_case(k: &ProcessCase) -> R {
    let n = k.c.p.n();
    let case = serde_json::to_string(&k.c).unwrap();
    let mut drawn = Drawn::default();
    let want = if k.secure { vec![] } else { insecure_draw(&k.c) };
    let exe = std::env::current_exe().map_err(|e| format!("no path: {e}"))?;
    // all of them at the same time, so that not even their starting time sets them apart
    let children: Vec<std::process::Child> = (0..k.processes)
        .map(|_| {
            std::process::Command::new(&exe)
                .args(["seeds", &case, if k.secure { "1" } else { "0" }])
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::piped())
                .spawn()
        })
        .filter_map(|c| c.ok())
        .collect();
    let outs: Vec<_> = children.into_iter().map(|c| c.wait_with_output()).collect();
    let mut told = 0;
    for (i, o) in outs.into_iter().enumerate() {
        let Ok(o) = o else { continue };
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        ensure!(o.status.code() != Some(1), "process {i} fails: {text}");
        // a process that could not be started or was ended from outside shows nothing
        if !o.status.success() {
            continue;
        }
        let v: Vec<Vec<Vec<u64>>> = serde_json::from_str(&text).map_err(|e| format!("process {i} prints {text}: {e}"))?;
        ensure!(v.len() == k.c.contexts, "process {i} made {} contexts", v.len());
        told += 1;
        for (j, d) in v.iter().enumerate() {
            if k.secure {
                drawn.add(format!("{j} of process {i}"), n, d)?;
            } else {
                for (a, (x, y)) in want.iter().zip(d).enumerate() {
                    ensure!(x == y, "context {j} of process {i} differs from one in another process at call {a} (operation {})", k.c.ops[a] % 10);
                }
            }
        }
    }
    Ok(Out::new(told >= 2 && (k.secure || k.c.ops.len() >= 2)).label(if k.secure { "secure" } else { "insecure" }))
}

fn fields_case(p: &P) -> R {
    for secure in [false, true] {
        let t = p.tfhe(secure);
        let c = Context::new(t.clone());
        ensure!(c.poly_size.0 == t.polynomial_size, "poly_size {}", c.poly_size.0);
        ensure!((c.base_log.0, c.level_count.0) == (t.base_log, t.level_count), "gadget {:?}", (c.base_log.0, c.level_count.0));
        ensure!((c.ks_base_log.0, c.ks_level_count.0) == (t.key_switch_base_log, t.key_switch_level_count), "key-switching gadget");
        ensure!((c.negs_base_log.0, c.negs_level_count.0) == (t.negs_base_log, t.negs_level_count), "negated-secret gadget");
        ensure!(c.std.get_log_standard_dev() == t.standard_deviation, "deviation {}", c.std.get_log_standard_dev());
        ensure!((c.std.get_standard_dev() - 2f64.powf(t.standard_deviation)).abs() <= 1e-9 * 2f64.powf(t.standard_deviation), "deviation {}", c.std.get_standard_dev());
        ensure!(c.codec.pt_modulus() == t.plaintext_modulus, "modulus {}", c.codec.pt_modulus());
        ensure!(c.lwe_dim().0 == t.polynomial_size && c.lwe_size().0 == t.polynomial_size + 1 && c.plaintext_count().0 == t.polynomial_size, "dimensions");
        let want = format!(
            "q=64, poly_size={}, log_std={:?}, default_decomp=({},{}), ks_decomp=({},{}), negs_decomp=({},{}), pt_modulus=({})",
            t.polynomial_size, t.standard_deviation, t.base_log, t.level_count, t.key_switch_base_log, t.key_switch_level_count, t.negs_base_log, t.negs_level_count, t.plaintext_modulus
        );
        ensure!(format!("{c}") == want, "printed as {c}, expected {want}");
        let k = RLWECiphertext::allocate(c.poly_size);
        ensure!(k.polynomial_size().0 == t.polynomial_size, "size");
    }
    Ok(Out::new(*p != DEFAULT_P))
}

pub fn c13() -> Check {
    let small = || params(Cfg { logn: logn(6, 7, 8), max_l: 6, max_kl: 6, lo: 20 });
    Check {
        id: "C13",
        assumptions: &["random bit vectors compared for inequality have at least 64 bits; masks have 64 bits per coefficient"],
        subs: vec![
            sub("secure", "2 to 12 securely seeded contexts, one after another or on several threads at the same time: keys, plaintexts, masks and noise all distinct; non-trivial: at least two contexts", 6000, 240000,
                move || (small(), prop_oneof![2 => 1usize..=20, 1 => 21usize..=63], 2usize..=12, any::<bool>()).prop_map(|(mut p, logt, contexts, threads)| { p.logt = logt; p.logn = p.logn.max(7); SeedCase { p, contexts, ops: vec![], threads } }).boxed(),
                secure_case),
            sub_opt("secure_many", "several hundred securely seeded contexts in one process, as secure; all non-trivial", 64, 1280, Opt { workers: 8, shrink: 20 },
                || (300usize..=600, any::<bool>()).prop_map(|(contexts, threads)| SeedCase { p: P { logn: 7, l: 2, kl: 2, nl: 2, ..DEFAULT_P }, contexts, ops: vec![], threads }).boxed(),
                secure_case),
            sub("insecure", "the same random sequence of calls on several insecurely seeded contexts, in turn, on other threads and interleaved; non-trivial: at least two calls", 3200, 120000,
                move || (small(), prop_oneof![2 => 1usize..=20, 1 => 21usize..=63], 1usize..=3, proptest::collection::vec(0u8..10, 1..=12), any::<bool>()).prop_map(|(mut p, logt, contexts, ops, threads)| { p.logt = logt; SeedCase { p, contexts, ops, threads } }).boxed(),
                insecure_case),
            sub("processes", "2 to 5 processes that run at the same time with 1 to 3 contexts each: secure ones all distinct, insecure ones all alike; non-trivial: two processes answered", 400, 16000,
                move || (small(), prop_oneof![2 => 1usize..=20, 1 => 21usize..=63], 1usize..=3, proptest::collection::vec(0u8..10, 2..=8), 2usize..=5, any::<bool>())
                    .prop_map(|(mut p, logt, contexts, ops, processes, secure)| { p.logt = logt; p.logn = p.logn.max(7); ProcessCase { c: SeedCase { p, contexts, ops, threads: false }, processes, secure } }).boxed(),
                process_case),
            sub("fields", "every field of the context and its printed form against the parameters; non-trivial: not the default parameters", 40000, 800000,
                || (params(Cfg { logn: logn(1, 12, 14), max_l: 30, max_kl: 30, lo: 1 }), 1usize..=63).prop_map(|(mut p, t)| { p.logt = t; p }).boxed(),
                fields_case),
        ],
    }
}
