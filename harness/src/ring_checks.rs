//! C14..C22: ring, gadget, key-switching and comparison operations against plain polynomial arithmetic.
use crate::codec_checks::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::noise::*;
use crate::refm::*;
use concrete_core::commons::crypto::encoding::Plaintext;
use concrete_core::commons::crypto::glwe::GlweCiphertext;
use concrete_core::commons::math::polynomial::Polynomial;
use concrete_core::commons::math::tensor::{AsRefSlice, AsRefTensor};
use concrete_core::prelude::{DecompositionBaseLog, DecompositionLevelCount, MonomialDegree, PolynomialSize};
use panacea::context::Context;
use panacea::decision_tree::{bit_decomposed_rgsw, demux, demux_with};
use panacea::lwe::{conv_lwe_to_rlwe, LWECiphertext, LWEtoRLWEKeyswitchKey};
use panacea::rgsw::RGSWCiphertext;
use panacea::rlwe::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

pub struct Env {
    pub n: usize,
    pub s: Poly,
    pub sk: RLWESecretKey,
    pub ctx: Context,
    pub np: NP,
    pub r: Sm,
}

pub fn env(p: &P, seed: u64) -> Env {
    let n = p.n();
    let mut ctx = p.ctx(seed);
    let sk = ctx.gen_rlwe_sk();
    let s = key_bits(&sk);
    let np = p.np_key(&s);
    Env { n, s, sk, ctx, np, r: Sm(seed ^ 0xe0) }
}

fn same(a: &RLWECiphertext, mask: &[u64], body: &[u64], what: &str) -> Result<(), String> {
    let (m, b) = (mask_of(a), body_of(a));
    for (part, x, y) in [("mask", &m[..], mask), ("body", &b[..], body)] {
        if let Some(i) = (0..x.len()).find(|i| x[*i] != y[*i]) {
            return Err(format!("{what}: {part} coefficient {i} is {:#x}, expected {:#x}", x[i], y[i]));
        }
    }
    Ok(())
}

fn rgsw(e: &Env, b: usize, l: usize) -> RGSWCiphertext {
    RGSWCiphertext::allocate(e.ctx.poly_size, DecompositionBaseLog(b), DecompositionLevelCount(l))
}

/// a small polynomial to multiply with, as signed coefficients mod 2^64
fn small_poly(kind: u8, n: usize, r: &mut Sm) -> Poly {
    let mut p = vec![0u64; n];
    match kind {
        0 => p[0] = 1,
        1 => {}
        2 => p[0] = 2 + r.below(8),
        3 => p[r.below(n as u64) as usize] = 1,
        4 => p[r.below(n as u64) as usize] = u64::MAX,
        5 => p.iter_mut().for_each(|x| *x = r.next() & 1),
        6 => p.iter_mut().for_each(|x| *x = r.below(3).wrapping_sub(1)),
        7 => {
            for _ in 0..3 {
                p[r.below(n as u64) as usize] = r.below(17).wrapping_sub(8);
            }
        }
        _ => p[n - 1] = 1,
    }
    p
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinCase {
    logn: usize,
    seed: u64,
    deg: u64,
    kind: u8,
}

fn lin_case(k: &LinCase) -> R {
    let n = 1usize << k.logn;
    let mut r = Sm(k.seed);
    let (am, ab) = (wild_poly(n, &mut r), wild_poly(n, &mut r));
    let (bm, bb) = (wild_poly(n, &mut r), wild_poly(n, &mut r));
    let q = match k.kind {
        0 => wild_poly(n, &mut r),
        x => small_poly(x, n, &mut r),
    };
    let a = ct_from(&am, &ab);
    let b = ct_from(&bm, &bb);
    let poly = Polynomial::from_container(q.clone());

    let mut x = a.clone();
    x.update_with_add(&b);
    same(&x, &padd(&am, &bm), &padd(&ab, &bb), "sum")?;
    x.update_with_sub(&b);
    same(&x, &am, &ab, "sum minus second operand")?;
    x.update_with_sub(&b);
    same(&x, &psub(&am, &bm), &psub(&ab, &bb), "difference")?;
    same(&b, &bm, &bb, "second operand after use")?;

    let mut x = a.clone();
    x.update_mask_with_add(&poly);
    same(&x, &padd(&am, &q), &ab, "update_mask_with_add")?;
    let mut x = a.clone();
    x.update_body_with_add(&poly);
    same(&x, &am, &padd(&ab, &q), "update_body_with_add")?;
    let mut x = a.clone();
    x.update_mask_with_sub(&poly.as_view());
    same(&x, &psub(&am, &q), &ab, "update_mask_with_sub")?;
    let mut x = a.clone();
    x.update_body_with_sub(&poly.as_view());
    same(&x, &am, &psub(&ab, &q), "update_body_with_sub")?;

    let mut q2 = poly.clone();
    let mut x = a.clone();
    x.update_mask_with_mul(&q2.as_mut_view());
    same(&x, &negmul(&am, &q), &ab, "update_mask_with_mul")?;
    let mut x = a.clone();
    x.update_body_with_mul(&q2.as_mut_view());
    same(&x, &am, &negmul(&ab, &q), "update_body_with_mul")?;
    ensure!(q2.as_tensor().as_slice() == &q, "multiplication changed its operand");

    // the free functions
    let pa = Polynomial::from_container(ab.clone());
    let mut out = Polynomial::from_container(bb.clone());
    naive_update_with_mul_acc(&mut out, &pa, &poly);
    ensure!(out.as_tensor().as_slice() == &padd(&bb, &negmul(&ab, &q)), "naive_update_with_mul_acc");
    let mut out = Polynomial::from_container(bb.clone());
    naive_update_with_mul(&mut out, &poly);
    ensure!(out.as_tensor().as_slice() == &negmul(&bb, &q), "naive_update_with_mul");

    // division by a monomial
    let deg = (k.deg % (2 * n as u64)) as usize;
    let mut x = a.clone();
    x.update_with_monomial_div(MonomialDegree(deg));
    same(&x, &mul_x(&am, -(deg as i64)), &mul_x(&ab, -(deg as i64)), &format!("division by X^{deg}"))?;

    // NOT
    let mut nb = neg(&ab);
    nb[0] = nb[0].wrapping_add(1 << 63);
    let y = a.not();
    same(&y, &neg(&am), &nb, "not")?;
    let mut z = a.clone();
    z.not_in_place();
    same(&z, &neg(&am), &nb, "not_in_place")?;
    z.not_in_place();
    same(&z, &am, &ab, "not_in_place twice")?;
    same(&y.not(), &am, &ab, "not twice")?;
    same(&a, &am, &ab, "operand after use")?;
    Ok(Out::new(k.kind != 1).label_if(deg > n, "degree above N"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HomCase {
    p: P,
    a: D,
    b: D,
    kind: u8,
    deg: u64,
    seed: u64,
}

/// the same operations seen through encryption and decryption
fn hom_case(k: &HomCase) -> R {
    let p = &k.p;
    let mut e = env(p, k.seed);
    let n = e.n;
    let t = p.t();
    let red = |x: Poly| x.iter().map(|y| y & (t - 1)).collect::<Poly>();
    let (ma, mb) = (k.a.poly(n, t), k.b.poly(n, t));
    let enc = |m: &Poly, e: &mut Env| {
        let mut c = RLWECiphertext::allocate(e.ctx.poly_size);
        e.sk.encode_encrypt_rlwe(&mut c, &pl(m), &mut e.ctx);
        c
    };
    let (a, b) = (enc(&ma, &mut e), enc(&mb, &mut e));
    let dec = |c: &RLWECiphertext| {
        let mut o = pl(&vec![0; n]);
        e.sk.decrypt_decode_rlwe(&mut o, c, &e.ctx);
        pl_vec(&o)
    };
    let mut x = a.clone();
    x.update_with_add(&b);
    ensure!(dec(&x) == red(padd(&ma, &mb)), "sum decrypts wrongly");
    let mut x = a.clone();
    x.update_with_sub(&b);
    ensure!(dec(&x) == red(psub(&ma, &mb)), "difference decrypts wrongly");
    let deg = (k.deg % (2 * n as u64)) as usize;
    let mut x = a.clone();
    x.update_with_monomial_div(MonomialDegree(deg));
    ensure!(dec(&x) == red(mul_x(&ma, -(deg as i64))), "division by X^{deg} decrypts wrongly");
    let q = small_poly(k.kind, n, &mut Sm(k.seed));
    let mut poly = Polynomial::from_container(q.clone());
    let mut x = a.clone();
    x.update_mask_with_mul(&mut poly.as_mut_view());
    x.update_body_with_mul(&mut poly.as_mut_view());
    ensure!(dec(&x) == red(negmul(&ma, &q)), "product with a plaintext polynomial decrypts wrongly");
    let mut x = a.clone();
    x.update_mask_with_mul_with_buf(&poly.as_view());
    x.update_body_with_mul_with_buf(&poly.as_view());
    ensure!(dec(&x) == red(negmul(&ma, &q)), "Fourier product with a plaintext polynomial decrypts wrongly");
    // NOT on binary plaintexts
    let mbin: Poly = ma.iter().map(|x| x & 1).collect();
    let mut c = RLWECiphertext::allocate(e.ctx.poly_size);
    e.sk.encrypt_rlwe(&mut c, &pl(&scale(&mbin, 1 << 63)), e.ctx.std, &mut e.ctx.encryption_generator);
    let mut want = mbin.clone();
    want[0] ^= 1;
    let bits = |c: &RLWECiphertext| phase(c, &e.s).iter().map(|x| x.wrapping_add(1 << 62) >> 63).collect::<Poly>();
    ensure!(bits(&c.not()) == want, "NOT decrypts wrongly");
    let mut x = c.clone();
    x.not_in_place();
    ensure!(bits(&x) == want, "in-place NOT decrypts wrongly");
    x.not_in_place();
    ensure!(bits(&x) == mbin, "NOT twice decrypts wrongly");
    Ok(Out::new(k.a.kind != 2 && k.b.kind != 2))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FmulCase {
    logn: usize,
    kind: u8,
    mag: u32,
    seed: u64,
}

fn fmul_case(k: &FmulCase) -> R {
    let n = 1usize << k.logn;
    let mut r = Sm(k.seed);
    let (m, b) = (wild_poly(n, &mut r), wild_poly(n, &mut r));
    let c0 = if k.seed % 5 == 0 { scale(&small_poly(5, n, &mut r), 1 << 60) } else { m };
    let q = match k.kind {
        9 => (0..n).map(|_| (r.next() >> (63 - k.mag)).wrapping_sub(1 << k.mag)).collect(),
        x => small_poly(x, n, &mut r),
    };
    let l1: f64 = q.iter().map(|x| (*x as i64).unsigned_abs() as f64).sum();
    // f64 keeps 53 bits of a torus element
    let limit = 4096.0 * l1 * (k.logn as f64 + 1.0) / 2.0 + 1.0;
    let poly = Polynomial::from_container(q.clone());
    let a = ct_from(&c0, &b);
    let mut x = a.clone();
    x.update_mask_with_mul_with_buf(&poly.as_view());
    ensure!(body_of(&x) == b, "update_mask_with_mul_with_buf changes the body");
    let d = max_abs_f(&psub(&mask_of(&x), &negmul(&c0, &q)));
    ensure!(d <= limit, "Fourier product of the mask is {d:.3e} off, limit {limit:.3e} (|q|_1 = {l1})");
    let mut x = a.clone();
    x.update_body_with_mul_with_buf(&poly.as_view());
    ensure!(mask_of(&x) == c0, "update_body_with_mul_with_buf changes the mask");
    let d = max_abs_f(&psub(&body_of(&x), &negmul(&b, &q)));
    ensure!(d <= limit, "Fourier product of the body is {d:.3e} off, limit {limit:.3e} (|q|_1 = {l1})");
    Ok(Out::new(l1 > 0.0).label_if(k.kind == 9 && k.mag > 12, "large coefficients"))
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        assumptions: &["the Fourier product is exact up to 2^11 (log2 N + 1) |q|_1, the precision of f64"],
        subs: vec![
            sub("exact", "two random ciphertexts and a polynomial, every linear operation coefficient by coefficient against plain negacyclic arithmetic; non-trivial: non-zero polynomial", 240000, 4800000,
                || (logn(1, 7, 10), any::<u64>(), any::<u64>(), 0u8..=8).prop_map(|(logn, seed, deg, kind)| LinCase { logn, seed, deg, kind }).boxed(), lin_case),
            sub("large_ring", "the exact operations at N=2048 to 8192", 160, 3200,
                || (11usize..=13, any::<u64>(), any::<u64>(), 0u8..=8).prop_map(|(logn, seed, deg, kind)| LinCase { logn, seed, deg, kind }).boxed(), lin_case),
            sub("decrypted", "the operations on encryptions, decrypted and compared with the same operation on plaintexts; non-trivial: both plaintexts non-zero", 24000, 480000,
                || (logn(6, 8, 11), std4(), 1usize..=30, data(), data(), 0u8..=8, any::<u64>(), any::<u32>())
                    .prop_map(|(logn, std4, raw, a, b, kind, deg, seed)| {
                        let mut p = P { logn, std4, logt: 1, ..DEFAULT_P };
                        let l1 = 9.0 * p.n() as f64;
                        let err = (12.0 * p.sigma() * l1.sqrt() * 3.0 + 4096.0 * l1 * 12.0).log2();
                        p.logt = 1 + raw % ((62.0 - err) as usize).clamp(1, 40);
                        HomCase { p, a, b, kind, deg, seed: seed as u64 }
                    }).boxed(), hom_case),
            sub("fourier", "Fourier-based products against the exact ones; non-trivial: non-zero polynomial", 135000, 2700000,
                || (logn(6, 8, 12), 0u8..=9, 0u32..24, any::<u64>()).prop_map(|(logn, kind, mag, seed)| FmulCase { logn, kind, mag, seed }).boxed(), fmul_case),
        ],
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EpOp {
    b: usize,
    l: usize,
    /// which entry point
    form: u8,
    /// kind of the multiplier
    m: u8,
    d: D,
    /// output starts non-zero
    acc: bool,
    own: bool,
    /// take a matrix used before (0: no, 1..=3: as it is, from 4: with another one added)
    #[serde(default)]
    reuse: u8,
    /// encrypted with the masks and the noise of the other twins: such matrices differ in few words
    #[serde(default)]
    twin: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EpCase {
    p: P,
    ops: Vec<EpOp>,
    seed: u64,
}

fn ep_case(k: &EpCase) -> R {
    let p = &k.p;
    let mut e = env(p, k.seed);
    let n = e.n;
    let mut buf = e.ctx.gen_fft_ctx();
    let mut acc_ct = random_ct(n, &mut e.r);
    let mut nt = false;
    // matrices used so far, with what they multiply by and how many encryptions they sum up
    let mut pool: Vec<(RGSWCiphertext, Poly, f64, (usize, usize))> = vec![];
    for (i, o) in k.ops.iter().enumerate() {
        let (mut b, mut l) = if o.own { (o.b, o.l) } else { (p.b, p.l) };
        let cmux = o.form >= 5;
        let mk = if cmux { o.m & 1 } else { o.m };
        let m = small_poly(mk, n, &mut e.r);
        let encrypt = |m: &Poly, e: &mut Env, twin: bool| {
            let mut g = rgsw(e, b, l);
            let other = if twin { Some(std::mem::replace(&mut e.ctx.encryption_generator, enc_gen(k.seed ^ 0x7717))) } else { None };
            if m[1..].iter().all(|x| *x == 0) {
                e.sk.encrypt_constant_rgsw(&mut g, &Plaintext(m[0]), &mut e.ctx);
            } else {
                e.sk.encrypt_rgsw(&mut g, &pl(m), &mut e.ctx);
            }
            if let Some(x) = other {
                e.ctx.encryption_generator = x;
            }
            g
        };
        let mut g = encrypt(&m, &mut e, o.twin);
        let mut total = m.clone();
        let mut parts = 1.0;
        // an earlier matrix again, as it was or changed in place
        let reuse = o.reuse > 0 && !cmux && !pool.is_empty();
        if reuse {
            let (g2, t2, parts2, bl) = pool.swap_remove(o.reuse as usize % pool.len());
            (g, total, parts, b, l) = (g2, t2, parts2, bl.0, bl.1);
            if o.reuse >= 4 {
                let m2 = small_poly(o.reuse, n, &mut e.r);
                let mut g2 = RGSWCiphertext::allocate(e.ctx.poly_size, DecompositionBaseLog(b), DecompositionLevelCount(l));
                e.sk.encrypt_rgsw(&mut g2, &pl(&m2), &mut e.ctx);
                g.update_with_add(&g2);
                total = padd(&total, &m2);
                parts += 1.0;
            }
        } else if o.form == 4 {
            for _ in 0..1 + e.r.below(3) {
                let m2 = small_poly(e.r.below(9) as u8, n, &mut e.r.clone());
                let g2 = encrypt(&m2, &mut e, false);
                g.update_with_add(&g2);
                total = padd(&total, &m2);
                parts += 1.0;
            }
        }
        // operands: an encryption or an arbitrary ciphertext
        let operand = |e: &mut Env, d: &D| {
            if d.kind == 1 {
                return random_ct(n, &mut e.r);
            }
            let mut c = RLWECiphertext::allocate(e.ctx.poly_size);
            e.sk.encode_encrypt_rlwe(&mut c, &pl(&d.poly(n, p.t())), &mut e.ctx);
            c
        };
        let d = operand(&mut e, &o.d);
        let d0 = if cmux {
            let x = operand(&mut e, &D { kind: o.d.kind ^ 1, seed: o.d.seed ^ 77 });
            let (mut a, mut c) = (mask_of(&x), body_of(&x));
            let (da, dc) = (mask_of(&d), body_of(&d));
            // the two inputs may agree in part or altogether
            match o.m / 2 {
                0 => {}
                1 => {
                    let cut = [0, 1, n / 2, n - 1, n][e.r.below(5) as usize];
                    if e.r.below(2) == 0 { c[..cut].copy_from_slice(&dc[..cut]) } else { c[cut..].copy_from_slice(&dc[cut..]) }
                }
                2 => {
                    let cut = [0, 1, n / 2, n - 1, n][e.r.below(5) as usize];
                    if e.r.below(2) == 0 { a[..cut].copy_from_slice(&da[..cut]) } else { a[cut..].copy_from_slice(&da[cut..]) }
                }
                3 => {
                    (a, c) = (da, dc);
                    for _ in 0..e.r.below(4) {
                        let j = [0, n - 1, e.r.below(n as u64) as usize][e.r.below(3) as usize];
                        if e.r.below(2) == 0 { a[j] = e.r.next() } else { c[j] = e.r.next() }
                    }
                }
                _ => (a, c) = (vec![0; n], dc),
            }
            Some(ct_from(&a, &c))
        } else { None };
        let d_copy = (mask_of(&d), body_of(&d));
        let mut out = if o.acc { acc_ct.clone() } else { RLWECiphertext::allocate(e.ctx.poly_size) };
        let start = phase(&out, &e.s);
        match o.form {
            0 | 1 | 4 => g.external_product_with_buf(&mut out, &d, &mut buf),
            2 => g.external_product(&mut out, &d),
            3 => {
                let mut flat = mask_of(&out);
                flat.extend(body_of(&out));
                let mut view = GlweCiphertext::from_container(&mut flat[..], e.ctx.poly_size);
                g.external_product_with_buf_glwe(&mut view, &d, &mut buf);
                out = ct_from(&flat[..n], &flat[n..]);
            }
            5 => g.cmux_with_buf(&mut out, d0.as_ref().unwrap(), &d, &mut buf),
            _ => g.cmux(&mut out, d0.as_ref().unwrap(), &d),
        }
        let expect = match &d0 {
            None => padd(&start, &negmul(&total, &phase(&d, &e.s))),
            Some(d0) => if m[0] == 1 { phase(&d, &e.s) } else { phase(d0, &e.s) },
        };
        let mut v = e.np.ep_with(b, l, &e.np.fresh()).times(parts);
        v = v.plus(&e.np.rounding(b, l).by(&Spec::of_key(&total).s));
        let what = format!("operation {i} ({} with gadget {b}x{l}, multiplier kind {mk})", ["product", "product", "product without buffer", "product into a view", "product with a sum", "cmux", "cmux without buffer"][o.form.min(6) as usize]);
        near(&what, &psub(&phase(&out, &e.s), &expect), &v)?;
        ensure!(d_copy == (mask_of(&d), body_of(&d)), "{what}: the operand changed");
        nt |= mk != 1;
        acc_ct = out;
        pool.push((g, total, parts, (b, l)));
        if pool.len() > 3 {
            pool.remove(0);
        }
    }
    Ok(Out::new(nt).label_if(k.ops.iter().skip(1).any(|o| o.reuse > 0 && o.form < 5), "matrix used again").label_if(k.ops.iter().any(|o| o.own), "gadget other than the context's").label_if(k.ops.iter().filter(|o| o.twin).count() > 1, "twin matrices").label_if(k.ops.iter().any(|o| o.form >= 5), "cmux"))
}

pub fn ring_params(lo: usize, common: usize, rare: usize) -> BoxedStrategy<P> {
    (params(Cfg { logn: logn(lo, common, rare), max_l: 20, max_kl: 20, lo: 18 }), prop_oneof![3 => 1usize..=20, 1 => 21usize..=63])
        .prop_map(|(mut p, t)| {
            p.logt = t;
            p
        })
        .boxed()
}

/// Ring degrees above the default; few levels, which is where the time goes.
fn big_params(levels: usize) -> BoxedStrategy<P> {
    ring_params(12, 12, 14)
        .prop_map(move |mut p| {
            (p.l, p.kl, p.nl) = (p.l.min(levels), p.kl.min(levels), p.nl.min(levels));
            p
        })
        .boxed()
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        assumptions: &["noise compared with the analysis in noise.rs per frequency"],
        subs: vec![
            sub("product", "a sequence of external products and CMUXes sharing one FFT buffer, with different gadgets, multipliers and accumulators, some matrices sharing masks and noise: phase of the result against the product of the plaintexts; non-trivial: some multiplier is not zero", 7200, 320000,
                || (ring_params(6, 8, 11), vec((gadget(20, 18, 24), 0u8..=6, 0u8..=8, data(), any::<bool>(), any::<bool>(), prop_oneof![2 => Just(0u8), 1 => 1u8..=8], prop_oneof![2 => Just(false), 1 => Just(true)]), 1..=5), any::<u32>())
                    .prop_map(|(p, o, seed)| EpCase { p, seed: seed as u64, ops: o.into_iter().map(|((b, l), form, m, d, acc, own, reuse, twin)| EpOp { b, l, form, m, d, acc, own, reuse, twin }).collect() }).boxed(),
                ep_case),
            sub("default_params", "the default parameters (N=2048)", 60, 4000,
                || (vec((gadget(20, 20, 12), 0u8..=6, 0u8..=8, data(), any::<bool>(), Just(false), 0u8..=5, any::<bool>()), 1..=2), any::<u32>())
                    .prop_map(|(o, seed)| EpCase { p: DEFAULT_P, seed: seed as u64, ops: o.into_iter().map(|((b, l), form, m, d, acc, own, reuse, twin)| EpOp { b, l, form, m, d, acc, own, reuse, twin }).collect() }).boxed(),
                ep_case),
            sub("large_ring", "one product or CMUX at N=4096 to 16384", 30, 1200,
                || (ring_params(12, 12, 14), vec((gadget(20, 12, 24), 0u8..=6, 0u8..=8, data(), any::<bool>(), any::<bool>(), Just(0u8), Just(false)), 1..=1), any::<u32>())
                    .prop_map(|(p, o, seed)| EpCase { p, seed: seed as u64, ops: o.into_iter().map(|((b, l), form, m, d, acc, own, reuse, twin)| EpOp { b, l, form, m, d, acc, own, reuse, twin }).collect() }).boxed(),
                ep_case),
        ],
    }
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RowCase {
    p: P,
    b: usize,
    l: usize,
    form: u8,
    m: u8,
    big: bool,
    seed: u64,
}

fn check_rows(e: &Env, g: &RGSWCiphertext, b: usize, l: usize, m: &[u64]) -> Result<(), String> {
    ensure!(g.decomposition_base_log().0 == b && g.decomposition_level_count().0 == l, "gadget {:?} instead of {b}x{l}", (g.decomposition_base_log().0, g.decomposition_level_count().0));
    ensure!(g.ciphertext_count().0 == 2 * l && g.polynomial_size().0 == e.n, "{} rows of size {}", g.ciphertext_count().0, g.polynomial_size().0);
    let ms = neg(&negmul(m, &e.s));
    for i in 0..2 * l {
        let row = g.get_nth_row(i);
        let f = scale(if i % 2 == 0 { &ms } else { m }, 1 << (64 - b * (i / 2 + 1)));
        let d = psub(&phase(&row, &e.s), &f);
        let what = format!("{} row at level {}", if i % 2 == 0 { "mask" } else { "body" }, i / 2 + 1);
        near(&what, &d, &e.np.fresh())?;
        ensure!(max_abs_f(&d) <= 9.5 * e.np.sigma + 2.0, "{what}: error 2^{:.1}, deviation 2^{:.1}", max_abs_f(&d).log2(), e.np.sigma.log2());
    }
    let last = g.get_last_row();
    let row = g.get_nth_row(2 * l - 1);
    same(&last, &mask_of(&row), &body_of(&row), "get_last_row")
}

fn row_case(k: &RowCase) -> R {
    let p = &k.p;
    let mut e = env(p, k.seed);
    let n = e.n;
    let mut m = small_poly(k.m, n, &mut e.r);
    if k.big {
        m = scale(&m, 0x0123456789abcdef);
    }
    match k.form {
        0 => {
            let mut g = rgsw(&e, k.b, k.l);
            e.sk.encrypt_rgsw(&mut g, &pl(&m), &mut e.ctx);
            check_rows(&e, &g, k.b, k.l, &m)?;
        }
        1 => {
            m[1..].iter_mut().for_each(|x| *x = 0);
            let mut g = rgsw(&e, k.b, k.l);
            e.sk.encrypt_constant_rgsw(&mut g, &Plaintext(m[0]), &mut e.ctx);
            check_rows(&e, &g, k.b, k.l, &m)?;
        }
        2 => {
            // a used ciphertext is overwritten
            let mut g = rgsw(&e, k.b, k.l);
            e.sk.encrypt_rgsw(&mut g, &pl(&random_bits(n, 3)), &mut e.ctx);
            e.sk.encrypt_rgsw(&mut g, &pl(&m), &mut e.ctx);
            check_rows(&e, &g, k.b, k.l, &m)?;
        }
        _ => {
            let v: Vec<u64> = (0..1 + e.r.below(5)).map(|_| e.r.below(4)).collect();
            let g = e.sk.encrypt_constant_rgsw_vec(&v.iter().map(|x| Plaintext(*x)).collect::<Vec<_>>(), &mut e.ctx);
            ensure!(g.len() == v.len(), "{} ciphertexts for {} plaintexts", g.len(), v.len());
            for (g, x) in g.iter().zip(&v) {
                let mut m = vec![0; n];
                m[0] = *x;
                check_rows(&e, g, p.b, p.l, &m)?;
            }
        }
    }
    Ok(Out::new(k.m != 1).label(["polynomial", "constant", "polynomial into a used ciphertext", "vector of constants"][k.form as usize])
        .label_if(k.b != p.b, "base other than the context's"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NegCase {
    p: P,
    d: D,
    seed: u64,
}

fn neg_case(k: &NegCase) -> R {
    let p = &k.p;
    let mut e = env(p, k.seed);
    let n = e.n;
    let g = e.sk.neg_gsw(&mut e.ctx);
    check_rows(&e, &g, p.nb, p.nl, &neg(&e.s))?;
    ensure!(key_bits(&e.sk) == e.s, "neg_gsw changed the key");
    let mut c = RLWECiphertext::allocate(e.ctx.poly_size);
    if k.d.kind == 1 {
        c = random_ct(n, &mut e.r);
    } else {
        e.sk.encode_encrypt_rlwe(&mut c, &pl(&k.d.poly(n, p.t())), &mut e.ctx);
    }
    let mut out = RLWECiphertext::allocate(e.ctx.poly_size);
    g.external_product(&mut out, &c);
    let expect = neg(&negmul(&e.s, &phase(&c, &e.s)));
    let v = e.np.ep_with(p.nb, p.nl, &e.np.fresh()).plus(&e.np.mul_s(&e.np.rounding(p.nb, p.nl)));
    near("product with the negated key", &psub(&phase(&out, &e.s), &expect), &v)?;
    Ok(Out::new(k.d.kind != 2).label_if((p.nb, p.nl) != (p.b, p.l), "gadget other than the context's default"))
}

pub fn c16() -> Check {
    Check {
        id: "C16",
        assumptions: &["noise compared with the analysis in noise.rs per frequency"],
        subs: vec![
            sub("rows", "RGSW encryptions with a gadget of their own, every row decrypted; non-trivial: non-zero plaintext", 12000, 400000,
                || (ring_params(6, 8, 11), gadget(31, 1, 30), 0u8..4, 0u8..=8, any::<bool>(), any::<u32>())
                    .prop_map(|(p, (b, l), form, m, big, seed)| RowCase { p, b, l, form, m, big, seed: seed as u64 }).boxed(),
                row_case),
            sub("negated_key", "the negated-secret key: rows, and its product with a ciphertext; non-trivial: non-zero plaintext", 12000, 400000,
                || (ring_params(6, 8, 11), data(), any::<u32>()).prop_map(|(p, d, seed)| NegCase { p, d, seed: seed as u64 }).boxed(),
                neg_case),
            sub("large_ring", "the negated-secret key at N=4096 to 16384", 30, 1000,
                || (big_params(4), data(), any::<u32>()).prop_map(|(p, d, seed)| NegCase { p, d, seed: seed as u64 }).boxed(),
                neg_case),
        ],
    }
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KsCase {
    p: P,
    d: D,
    same_key: bool,
    seed: u64,
    rounds: usize,
}

fn check_ksk(e: &Env, ksk: &RLWEKeyswitchKey, p: &P, from: &[u64]) -> Result<(), String> {
    ensure!(ksk.decomposition_base_log().0 == p.kb && ksk.decomposition_level_count().0 == p.kl && ksk.polynomial_size().0 == e.n, "gadget of the key-switching key");
    let rows = ksk.get_keyswitch_key();
    ensure!(rows.len() == p.kl, "{} rows, {} levels", rows.len(), p.kl);
    for (i, row) in rows.iter().enumerate() {
        let d = psub(&phase(row, &e.s), &scale(from, 1 << (64 - p.kb * (i + 1))));
        near(&format!("key-switching key level {}", i + 1), &d, &e.np.fresh())?;
    }
    Ok(())
}

fn ks_case(k: &KsCase) -> R {
    let p = &k.p;
    let mut e = env(p, k.seed);
    let n = e.n;
    // one or two keys, used in turn
    let froms: Vec<Poly> = (0..if k.rounds > 1 { 2 } else { 1 })
        .map(|i| if k.same_key && i == 0 { e.s.clone() } else { random_bits(n, k.seed ^ (0xf0 + i)) })
        .collect();
    let mut keys = vec![];
    for from in &froms {
        let sk0 = key_from_bits(from);
        let mut ksk = RLWEKeyswitchKey::allocate(e.ctx.ks_base_log, e.ctx.ks_level_count, e.ctx.poly_size);
        ensure!(ksk.get_subs_k() == 0, "subs_k of a new key");
        ksk.fill_with_keyswitch_key(&sk0, &e.sk, e.ctx.std, &mut e.ctx.encryption_generator);
        check_ksk(&e, &ksk, p, from)?;
        let packed = RGSWCiphertext::from_keyswitch_key(&ksk);
        let fourier = ksk.clone().into_fourier();
        let v = e.np.ks_from(&Spec::of_key(from));
        keys.push((sk0, ksk, packed, fourier, v));
    }
    let mut buf = e.ctx.gen_fft_ctx();
    let mut fout = FourierRLWECiphertext::new(n);
    for round in 0..k.rounds {
        let from = &froms[round % froms.len()];
        let (sk0, ksk, packed, fourier, v) = &keys[round % froms.len()];
        let vp = v.plus(&e.np.fft(p.kb, p.kl)).plus(&e.np.rounding1(p.kb, p.kl));
        let mut c = RLWECiphertext::allocate(e.ctx.poly_size);
        match (k.d.kind + round as u8) % 7 {
            1 => c = random_ct(n, &mut e.r),
            2 => c = trivial(&random_poly(n, &mut e.r)),
            _ => sk0.encode_encrypt_rlwe(&mut c, &pl(&k.d.poly(n, p.t())), &mut e.ctx),
        }
        let trivial_mask = max_abs(&mask_of(&c)) == 0;
        let expect = phase(&c, from);
        let mut out = random_ct(n, &mut e.r);
        ksk.keyswitch_ciphertext(&mut out, &c);
        near("standard form", &psub(&phase(&out, &e.s), &expect), v)?;
        fourier.keyswitch_ciphertext(&mut fout, &c);
        let b = fout.backward_as_torus();
        near("Fourier form", &psub(&phase(&b, &e.s), &expect), v)?;
        if trivial_mask {
            // nothing is switched: the ciphertext goes to the Fourier domain and back
            near("Fourier domain and back", &psub(&body_of(&b), &body_of(&c)), &e.np.fft_once())?;
            ensure!(max_abs(&mask_of(&b)) == 0, "mask appears");
            let b2 = fout.backward_as_torus();
            near("Fourier domain and back again", &psub(&body_of(&b2), &body_of(&c)), &e.np.fft_once())?;
        }
        let mut out = RLWECiphertext::allocate(e.ctx.poly_size);
        if k.rounds == 1 && k.seed % 2 == 0 {
            packed.keyswitch_ciphertext(&mut out, &c);
        } else {
            packed.keyswitch_ciphertext_with_buf(&mut out, &c, &mut buf);
        }
        near("RGSW-packed form", &psub(&phase(&out, &e.s), &expect), &vp)?;
    }
    Ok(Out::new(!k.same_key).label(if p.kl % 2 == 0 { "even level count" } else { "odd level count" }))
}

pub fn c17() -> Check {
    Check {
        id: "C17",
        assumptions: &["noise compared with the analysis in noise.rs per frequency", "the output of the packed form starts at zero, as in the crate's tests"],
        subs: vec![
            sub("switch", "key-switching key and one to three ciphertexts through the standard, Fourier and RGSW-packed form; non-trivial: the keys differ", 20000, 400000,
                || (ring_params(6, 8, 11), data(), prop_oneof![6 => Just(false), 1 => Just(true)], any::<u32>(), 1usize..=3)
                    .prop_map(|(p, d, same_key, seed, rounds)| KsCase { p, d, same_key, seed: seed as u64, rounds }).boxed(),
                ks_case),
            sub("default_params", "the default parameters (N=2048)", 150, 4000,
                || (data(), any::<u32>()).prop_map(|(d, seed)| KsCase { p: DEFAULT_P, d, same_key: false, seed: seed as u64, rounds: 2 }).boxed(),
                ks_case),
            sub("large_ring", "one key and one ciphertext at N=4096 to 16384", 60, 2000,
                || (big_params(5), data(), any::<u32>()).prop_map(|(p, d, seed)| KsCase { p, d, same_key: false, seed: seed as u64, rounds: 1 }).boxed(),
                ks_case),
        ],
    }
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SubsCase {
    p: P,
    ks: Vec<u32>,
    d: D,
    seed: u64,
}

fn subs_case(c: &SubsCase) -> R {
    let p = &c.p;
    let mut e = env(p, c.seed);
    let n = e.n;
    let mut dummy = RLWESecretKey::zero(e.ctx.poly_size);
    let mut ksk = RLWEKeyswitchKey::allocate(e.ctx.ks_base_log, e.ctx.ks_level_count, e.ctx.poly_size);
    let mut fout = FourierRLWECiphertext::new(n);
    for x in &c.ks {
        let k = (2 * *x as usize + 1) % (2 * n);
        let sx = eval_xk(&e.s, k);
        ksk.fill_with_subs_keyswitch_key(&mut dummy, &e.sk, k, e.ctx.std, &mut e.ctx.encryption_generator);
        ensure!(ksk.get_subs_k() == k, "subs_k is {}", ksk.get_subs_k());
        ensure!(key_bits(&dummy) == sx, "the key before the switch is not s(X^{k})");
        check_ksk(&e, &ksk, p, &sx)?;
        let ct = if c.d.kind == 1 { random_ct(n, &mut e.r) } else {
            let mut ct = RLWECiphertext::allocate(e.ctx.poly_size);
            e.sk.encode_encrypt_rlwe(&mut ct, &pl(&c.d.poly(n, p.t())), &mut e.ctx);
            ct
        };
        let expect = eval_xk(&phase(&ct, &e.s), k);
        let v = e.np.ks_from(&Spec::of_key(&sx));
        let mut out = random_ct(n, &mut e.r);
        ksk.subs(&mut out, &ct);
        near(&format!("substitution X^{k}"), &psub(&phase(&out, &e.s), &expect), &v)?;
        let f = ksk.clone().into_fourier();
        ensure!(f.get_subs_k() == k, "subs_k of the Fourier key is {}", f.get_subs_k());
        f.subs(&mut fout, &ct);
        near(&format!("Fourier substitution X^{k}"), &psub(&phase(&fout.backward_as_torus(), &e.s), &expect), &v)?;
    }
    // an ordinary key-switching key afterwards
    ksk.fill_with_keyswitch_key(&e.sk.clone(), &e.sk, e.ctx.std, &mut e.ctx.encryption_generator);
    ensure!(ksk.get_subs_k() == 0, "subs_k stays set");
    Ok(Out::new(c.ks.iter().any(|x| *x % n as u32 != 0) && c.d.kind != 2))
}

/// Few frequencies of the traced noise are independent, see DESIGN.md.
const TRACE_LIMIT: f64 = 100.0;

fn trace_case(c: &SubsCase) -> R {
    let p = &c.p;
    let mut e = env(p, c.seed);
    let n = e.n;
    let map = gen_all_subs_ksk(&e.sk, &mut e.ctx);
    let fmap = gen_all_subs_ksk_fourier(&e.sk, &mut e.ctx);
    let want: HashSet<usize> = (0..p.logn).map(|i| (n >> i) + 1).collect();
    ensure!(map.keys().copied().collect::<HashSet<_>>() == want, "keys for {:?}", map.keys());
    ensure!(fmap.keys().copied().collect::<HashSet<_>>() == want, "Fourier keys for {:?}", fmap.keys());
    for (k, v) in &map {
        ensure!(v.get_subs_k() == *k && fmap[k].get_subs_k() == *k, "key {k} is for {}", v.get_subs_k());
        check_ksk(&e, v, p, &eval_xk(&e.s, *k))?;
    }
    let v = e.np.trace(&e.s);
    let mut out = random_ct(n, &mut e.r);
    for i in 0..2 {
        let ct = if c.d.kind == 1 || i == 1 { random_ct(n, &mut e.r) } else {
            let mut ct = RLWECiphertext::allocate(e.ctx.poly_size);
            e.sk.encode_encrypt_rlwe(&mut ct, &pl(&c.d.poly(n, p.t())), &mut e.ctx);
            ct
        };
        let mut expect = vec![0; n];
        expect[0] = phase(&ct, &e.s)[0].wrapping_mul(n as u64);
        let x = ct.trace1(&map);
        near_lim("trace", &psub(&phase(&x, &e.s), &expect), &v, TRACE_LIMIT, 2.0 * TRACE_LIMIT)?;
        ct.trace1_fourier(&mut out, &fmap);
        near_lim("Fourier trace", &psub(&phase(&out, &e.s), &expect), &v, TRACE_LIMIT, 2.0 * TRACE_LIMIT)?;
    }
    Ok(Out::new(c.d.kind != 2))
}

pub fn c18() -> Check {
    let strat = |hi: usize, rare: usize| {
        (ring_params(6, hi, rare), vec(any::<u32>().prop_map(|x| x >> 8), 1..=3), data(), any::<u32>())
            .prop_map(|(p, ks, d, seed)| SubsCase { p, ks, d, seed: seed as u64 })
            .boxed()
    };
    Check {
        id: "C18",
        assumptions: &["noise compared with the analysis in noise.rs per frequency"],
        subs: vec![
            sub("substitution", "one to three odd exponents, standard and Fourier substitution against p(X^k) computed directly; non-trivial: an exponent other than 1 and a non-zero plaintext", 6000, 320000, move || strat(8, 11), subs_case),
            sub("all_exponents", "every odd exponent at N=64 or 128 with one key; non-trivial: non-zero plaintext", 80, 3200,
                || (ring_params(6, 7, 7), data(), any::<u32>()).prop_map(|(p, d, seed)| { let ks = (0..p.n() as u32).collect(); SubsCase { p, ks, d, seed: seed as u64 } }).boxed(), subs_case),
            sub("trace", "the generated key set and both traces; non-trivial: non-zero plaintext", 2700, 160000, move || strat(8, 10), trace_case),
            sub("default_params", "the default parameters (N=2048)", 16, 1200,
                || (vec(any::<u32>(), 1..=1), data(), any::<u32>()).prop_map(|(ks, d, seed)| SubsCase { p: DEFAULT_P, ks, d, seed: seed as u64 }).boxed(), trace_case),
            sub("large_ring", "one odd exponent at N=4096 to 16384", 30, 1000,
                || (big_params(3), vec(any::<u32>().prop_map(|x| x >> 8), 1..=1), data(), any::<u32>()).prop_map(|(p, ks, d, seed)| SubsCase { p, ks, d, seed: seed as u64 }).boxed(), subs_case),
            sub("large_trace", "the generated key set and both traces at N=4096 to 16384", 8, 320,
                || (big_params(2), data(), any::<u32>()).prop_map(|(p, d, seed)| SubsCase { p, ks: vec![], d, seed: seed as u64 }).boxed(), trace_case),
        ],
    }
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExpCase {
    p: P,
    bit: u64,
    route: u8,
    d: D,
    seed: u64,
}

fn expand_case(k: &ExpCase) -> R {
    let p = &k.p;
    let mut e = env(p, k.seed);
    let n = e.n;
    let lsk = e.ctx.gen_lwe_sk();
    if k.route == 2 {
        // the LWE route uses the LWE key's coefficients
        e.sk = lsk.to_rlwe_sk();
        e.s = key_bits(&e.sk);
        e.np = p.np_key(&e.s);
    }
    let neg = e.sk.neg_gsw(&mut e.ctx);
    let cs = match k.route {
        0 | 1 => make_decomposed_rlwe_ct(&e.sk, k.bit, &mut e.ctx),
        2 => make_decomposed_rlwe_ct2(&e.sk, k.bit, &mut e.ctx),
        _ => (1..=p.l).map(|i| {
            let mut c = RLWECiphertext::allocate(e.ctx.poly_size);
            e.sk.encrypt_constant_rlwe(&mut c, &Plaintext(k.bit << (64 - p.b * i)), &mut e.ctx);
            c
        }).collect(),
    };
    ensure!(cs.len() == p.l, "{} ciphertexts for {} levels", cs.len(), p.l);
    for bad in [2, 3, u64::MAX] {
        ensure!(panics(|| { make_decomposed_rlwe_ct(&e.sk, bad, &mut p.ctx(1)); }), "make_decomposed_rlwe_ct accepts {bad}");
        ensure!(panics(|| { make_decomposed_rlwe_ct2(&e.sk, bad, &mut p.ctx(1)); }), "make_decomposed_rlwe_ct2 accepts {bad}");
    }
    let logn = if k.route <= 1 { p.logn } else { 0 };
    for (i, c) in cs.iter().enumerate() {
        let d = phase(c, &e.s)[0].wrapping_sub(k.bit << (64 - p.b * (i + 1) - logn));
        ensure!(((d as i64).unsigned_abs() as f64) <= 9.5 * e.np.sigma + 2.0, "prepared ciphertext {i}: constant coefficient is 2^{:.1} off", ((d as i64).unsigned_abs() as f64).log2());
    }
    let out = match k.route {
        0 => {
            let map = gen_all_subs_ksk(&e.sk, &mut e.ctx);
            expand(&cs, &map, &neg, &e.ctx)
        }
        1 => {
            let map = gen_all_subs_ksk_fourier(&e.sk, &mut e.ctx);
            expand_fourier(&cs, &map, &neg, &e.ctx)
        }
        2 => {
            let mut ksks = LWEtoRLWEKeyswitchKey::allocate(&e.ctx);
            ksks.fill_with_keyswitching_key(&lsk, &mut e.ctx);
            expand_slow(&cs, &ksks, &neg, &e.ctx)
        }
        _ => {
            let mut buf = e.ctx.gen_fft_ctx();
            decomposed_rlwe_to_rgsw(&cs, &neg, &e.ctx, &mut buf)
        }
    };
    ensure!(out.decomposition_base_log().0 == p.b && out.decomposition_level_count().0 == p.l && out.ciphertext_count().0 == 2 * p.l, "gadget of the result");
    let vt = e.np.trace(&e.s);
    let vs = e.np.mul_s(&e.np.rounding(p.nb, p.nl)).plus(&e.np.ep_with(p.nb, p.nl, &e.np.fresh()));
    let mut rows_err = e.np.zero();
    let dig = e.np.digits(p.b, 1);
    for i in 0..p.l {
        let body = out.get_nth_row(2 * i + 1);
        let mask = out.get_nth_row(2 * i);
        let (pb, pm) = (phase(&body, &e.s), phase(&mask, &e.s));
        let c0 = phase(&cs[i], &e.s)[0];
        let mut expect = vec![0; n];
        match k.route {
            0 | 1 => {
                expect[0] = c0.wrapping_mul(n as u64);
                near_lim(&format!("body row at level {}", i + 1), &psub(&pb, &expect), &vt, TRACE_LIMIT, 2.0 * TRACE_LIMIT)?;
            }
            2 => {
                expect[0] = c0;
                conv_near(&e, p, &format!("body row at level {}", i + 1), &psub(&pb, &expect))?;
            }
            _ => same(&body, &mask_of(&cs[i]), &body_of(&cs[i]), &format!("body row at level {}", i + 1))?,
        }
        near(&format!("mask row at level {}", i + 1), &padd(&pm, &negmul(&e.s, &pb)), &vs)?;
        let mut m = vec![0; n];
        m[0] = k.bit << (64 - p.b * (i + 1));
        rows_err = rows_err.plus(&V::of(&psub(&pb, &m)).by(&dig)).plus(&V::of(&padd(&pm, &negmul(&e.s, &m))).by(&dig));
    }
    // it multiplies by the bit
    let c = if k.d.kind == 1 { random_ct(n, &mut e.r) } else {
        let mut c = RLWECiphertext::allocate(e.ctx.poly_size);
        e.sk.encode_encrypt_rlwe(&mut c, &pl(&k.d.poly(n, p.t())), &mut e.ctx);
        c
    };
    let mut y = RLWECiphertext::allocate(e.ctx.poly_size);
    out.external_product(&mut y, &c);
    let v = rows_err.plus(&e.np.fft(p.b, p.l).times(2.0)).plus(&e.np.rounding(p.b, p.l).times(k.bit as f64));
    near("product with the result", &psub(&phase(&y, &e.s), &scale(&phase(&c, &e.s), k.bit)), &v)?;
    Ok(Out::new(k.bit == 1).label(["trace", "Fourier trace", "LWE conversion", "level ciphertexts"][k.route as usize]))
}

pub fn c19() -> Check {
    let strat = |lo: usize, hi: usize, rare: usize, routes: Vec<u8>| {
        // mostly parameters that leave something of the result
        let fine = (params(Cfg { logn: logn(lo, hi, rare), max_l: 20, max_kl: 20, lo: 34 }), prop_oneof![3 => 1usize..=20, 1 => 21usize..=63]).prop_map(|(mut p, t)| {
            p.logt = t;
            while p.b > 12 {
                p.b /= 2;
                p.l = (p.l * 2).min(50 / p.b);
            }
            p
        });
        (prop_oneof![4 => fine, 1 => ring_params(lo, hi, rare)], prop_oneof![1 => Just(0u64), 3 => Just(1u64)], proptest::sample::select(routes), data(), any::<u32>())
            .prop_map(|(mut p, bit, route, d, seed)| {
                // the prepared ciphertexts need log2 N bits below the last level
                while p.b * p.l + p.logn > 64 {
                    p.l -= 1;
                    if p.l == 0 {
                        (p.b, p.l) = (5, 9);
                    }
                }
                ExpCase { p, bit, route, d, seed: seed as u64 }
            })
            .boxed()
    };
    Check {
        id: "C19",
        assumptions: &["noise compared with the analysis in noise.rs per frequency; the fresh noise of the prepared ciphertexts is read off with the key", "base_log*level_count + log2 N <= 64, which the crate asserts"],
        subs: vec![
            sub("trace_routes", "both trace routes and direct assembly: every row and the product with a ciphertext; non-trivial: the bit is 1", 4200, 120000, move || strat(6, 8, 9, vec![0, 1, 1, 3, 3]), expand_case),
            sub("large_ring", "the trace routes and direct assembly at N=4096 or 8192", 6, 300, move || strat(12, 12, 13, vec![0, 1, 3]), expand_case),
            sub("lwe_route", "the route through LWE ciphertexts; non-trivial: the bit is 1", 300, 16000, move || strat(6, 7, 7, vec![2]), expand_case),
        ],
    }
}

// ---------------------------------------------------------------- C20

/// Error of an LWE to RLWE conversion: integer arithmetic, independent coefficients, the rounding
/// falls on the constant one.
fn conv_near(e: &Env, p: &P, what: &str, d: &[u64]) -> Result<(), String> {
    let n = e.n as f64;
    let bb = 2f64.powi(p.kb as i32);
    let var = n * (p.kl as f64 * (bb * bb + 2.0) / 12.0 + 0.25) * (p.sigma() * p.sigma() + 0.1);
    let u = 2f64.powi(64 - (p.kb * p.kl) as i32);
    let weight = e.s.iter().sum::<u64>() as f64;
    let rnd = weight * u * u / 12.0;
    let f: Vec<f64> = d.iter().map(|x| *x as i64 as f64).collect();
    let mean = f[1..].iter().map(|x| x * x).sum::<f64>() / (n - 1.0) / var;
    ensure!(mean <= 2.0 + 60.0 / n, "{what}: noise power is {mean:.2} times the prediction, deviation 2^{:.1}", 0.5 * var.log2());
    for (i, x) in f.iter().enumerate() {
        let lim = 11.0 * (var + if i == 0 { rnd } else { 0.0 }).sqrt() + 2.0;
        ensure!(x.abs() <= lim, "{what}: coefficient {i} is {:.3e} off, limit {lim:.3e}", x);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExtCase {
    p: P,
    d: D,
    seed: u64,
}

fn extract_case(k: &ExtCase) -> R {
    let p = &k.p;
    let mut ctx = p.ctx(k.seed);
    let n = p.n();
    let mut r = Sm(k.seed);
    let lsk = ctx.gen_lwe_sk();
    let s = lwe_key_bits(&lsk);
    let sk = lsk.to_rlwe_sk();
    let m = k.d.poly(n, p.t());
    let mut c = RLWECiphertext::allocate(ctx.poly_size);
    if k.d.kind == 1 {
        c = wild_ct(n, &mut r);
    } else {
        sk.encode_encrypt_rlwe(&mut c, &pl(&m), &mut ctx);
    }
    let ph = phase(&c, &s);
    let mut at: Vec<usize> = if n <= 64 { (0..n).collect() } else { (0..24).map(|_| r.below(n as u64) as usize).collect() };
    at.extend([0, n - 1, n / 2]);
    for i in at {
        let mut l = lwe_from(&random_poly(n, &mut r), r.next());
        l.fill_with_sample_extract(&c, MonomialDegree(i));
        ensure!(lwe_phase(&l, &s) == ph[i], "sample {i} has phase {:#x}, the coefficient is {:#x}", lwe_phase(&l, &s), ph[i]);
        if k.d.kind != 1 && p.sigma() * 12.0 < (p.delta() / 2) as f64 {
            let mut o = Plaintext(0);
            lsk.decode_decrypt_lwe(&mut o, &l, &ctx);
            ensure!(o.0 == m[i], "sample {i} decrypts to {}, the coefficient is {}", o.0, m[i]);
        }
        if i == 0 {
            let mut l2 = lwe_from(&random_poly(n, &mut r), r.next());
            l2.fill_with_const_sample_extract(&c);
            ensure!(l2.as_tensor().as_slice() == l.as_tensor().as_slice(), "the constant sample differs from sample 0");
        }
    }
    Ok(Out::new(k.d.kind != 2))
}

fn conv_case(k: &ExtCase) -> R {
    let p = &k.p;
    let n = p.n();
    let mut e = env(p, k.seed);
    let lsk = e.ctx.gen_lwe_sk();
    e.s = lwe_key_bits(&lsk);
    let mut ksks = LWEtoRLWEKeyswitchKey::allocate(&e.ctx);
    ksks.fill_with_keyswitching_key(&lsk, &mut e.ctx);
    for i in 0..2 {
        let c = if i == 0 && k.d.kind != 1 {
            let mut c = LWECiphertext::allocate(e.ctx.lwe_size());
            lsk.encode_encrypt_lwe(&mut c, &Plaintext(k.d.poly(n, p.t())[0]), &mut e.ctx);
            c
        } else {
            lwe_from(&holed_poly(n, &mut e.r), e.r.next())
        };
        let out = conv_lwe_to_rlwe(&ksks, &c, &e.ctx);
        let mut expect = vec![0; n];
        expect[0] = lwe_phase(&c, &e.s);
        conv_near(&e, p, "converted ciphertext", &psub(&phase(&out, &e.s), &expect))?;
    }
    Ok(Out::new(true).label_if((p.kb, p.kl) != (p.b, p.l), "gadget other than the context's default"))
}

pub fn c20() -> Check {
    let strat = |lo: usize, hi: usize, rare: usize| {
        (ring_params(lo, hi, rare), data(), any::<u32>()).prop_map(|(p, d, seed)| ExtCase { p, d, seed: seed as u64 }).boxed()
    };
    Check {
        id: "C20",
        assumptions: &["the conversion uses integers only; its noise is compared with the variance of the key's rows and the rounding"],
        subs: vec![
            sub("extract", "sample extraction at every position (N <= 64) or 27 positions, exact phases; non-trivial: non-zero plaintext", 180000, 3600000, move || strat(1, 7, 10), extract_case),
            sub("large_ring", "sample extraction at N=2048 to 16384", 60, 2400, move || strat(11, 12, 14), extract_case),
            sub("convert", "LWE to RLWE conversion; all non-trivial", 1500, 80000, move || strat(3, 7, 8), conv_case),
        ],
    }
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DemuxCase {
    p: P,
    bits: usize,
    index: u64,
    with: bool,
    d: D,
    seed: u64,
}

fn demux_case(k: &DemuxCase) -> R {
    let p = &k.p;
    let mut e = env(p, k.seed);
    let n = e.n;
    let len = 1usize << k.bits;
    let i = (k.index % len as u64) as usize;
    let bits = bit_decomposed_rgsw(i, len, &e.sk, &mut e.ctx);
    ensure!(bits.len() == k.bits, "{} encrypted bits for {len} positions", bits.len());
    let mut buf = e.ctx.gen_fft_ctx();
    let (input, outs) = if k.with {
        let c = if k.d.kind == 1 { random_ct(n, &mut e.r) } else {
            let mut c = RLWECiphertext::allocate(e.ctx.poly_size);
            e.sk.encode_encrypt_rlwe(&mut c, &pl(&k.d.poly(n, p.t())), &mut e.ctx);
            c
        };
        (phase(&c, &e.s), demux_with(c, &bits, &e.ctx, &mut buf))
    } else {
        let mut one = vec![0; n];
        one[0] = p.delta();
        (one, demux(&bits, &e.ctx, &mut buf))
    };
    ensure!(outs.len() == len, "{} outputs for {} bits", outs.len(), k.bits);
    let v = e.np.demux(k.bits);
    let zero = vec![0; n];
    for (j, o) in outs.iter().enumerate() {
        let d = psub(&phase(o, &e.s), if j == i { &input } else { &zero });
        near(&format!("output {j} for index {i}"), &d, &v)?;
    }
    Ok(Out::new(k.bits >= 2).label(format!("{} bits", k.bits)).label_if(k.with, "given ciphertext"))
}

pub fn c21() -> Check {
    Check {
        id: "C21",
        assumptions: &["noise compared with the analysis in noise.rs per frequency"],
        subs: vec![
            sub("demux", "a random index of 1 to 7 bits, all outputs decrypted; non-trivial: at least two bits", 12000, 240000,
                || (ring_params(6, 7, 10), prop_oneof![8 => 1usize..=4, 1 => 5usize..=7], any::<u64>(), any::<bool>(), data(), any::<u32>())
                    .prop_map(|(p, bits, index, with, d, seed)| DemuxCase { p, bits, index, with, d, seed: seed as u64 }).boxed(),
                demux_case),
            sub("many_bits", "6 to 11 bits at N=64", 1500, 30000,
                || (ring_params(6, 6, 6), prop_oneof![3 => 6usize..=8, 2 => 9usize..=11], any::<u64>(), any::<bool>(), data(), any::<u32>())
                    .prop_map(|(p, bits, index, with, d, seed)| DemuxCase { p, bits, index, with, d, seed: seed as u64 }).boxed(),
                demux_case),
            sub("default_params", "the default parameters (N=2048)", 36, 1600,
                || (1usize..=4, any::<u64>(), any::<bool>(), data(), any::<u32>())
                    .prop_map(|(bits, index, with, d, seed)| DemuxCase { p: DEFAULT_P, bits, index, with, d, seed: seed as u64 }).boxed(),
                demux_case),
            sub("large_ring", "one or two bits at N=4096 to 16384", 40, 1500,
                || (big_params(6), 1usize..=2, any::<u64>(), any::<bool>(), data(), any::<u32>())
                    .prop_map(|(p, bits, index, with, d, seed)| DemuxCase { p, bits, index, with, d, seed: seed as u64 }).boxed(),
                demux_case),
        ],
    }
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CmpCase {
    logn: usize,
    std4: u32,
    m: u64,
    ds: Vec<u64>,
    /// log2 of the scaling
    shift: u32,
    seed: u64,
    all: bool,
}

fn cmp_case(k: &CmpCase) -> R {
    let p = P { logn: k.logn, std4: k.std4, logt: 1, ..DEFAULT_P };
    let mut e = env(&p, k.seed);
    let n = e.n;
    let m = (k.m % n as u64) as usize;
    let one = 1u64 << k.shift;
    let mut pt = vec![0; n];
    pt[m] = one;
    let mut c = RLWECiphertext::allocate(e.ctx.poly_size);
    e.sk.encrypt_rlwe(&mut c, &pl(&pt), e.ctx.std, &mut e.ctx.encryption_generator);
    // the noise is known: read it off and carry it through
    let noise = psub(&phase(&c, &e.s), &pt);
    let ds: Vec<usize> = if k.all { (0..n).collect() } else {
        let mut v: Vec<usize> = k.ds.iter().map(|d| (*d % n as u64) as usize).collect();
        v.extend([m, m.saturating_sub(1), (m + 1).min(n - 1), 0, n - 1]);
        v
    };
    // the Fourier product works with 53 bits; the key multiplies the mask's part
    let weight = e.s.iter().sum::<u64>() as f64;
    let mut sides = (false, false);
    for d in ds {
        for eq in [false, true] {
            let mut x = c.clone();
            if eq { x.eq_to(d) } else { x.less_eq_than(d) }
            let yes = if eq { m == d } else { m <= d };
            if yes { sides.0 = true } else { sides.1 = true }
            // multiplication by 1 - X^(N-1) ... - X^(N-d), or by -X^(N-d) = X^(-d)
            let mut q = vec![0u64; n];
            if eq {
                if d == 0 { q[0] = 1 } else { q[n - d] = u64::MAX }
            } else {
                q[0] = 1;
                for i in 1..=d { q[n - i] = u64::MAX }
            }
            let l1 = if eq { 1.0 } else { d as f64 + 1.0 };
            let lim = 2048.0 * (k.logn as f64 + 1.0) * l1 * (1.0 + weight.sqrt() * 4.0) + 4.0;
            let got = phase(&x, &e.s)[0];
            let want = if yes { one } else { 0 };
            let carried = noise.iter().enumerate().fold(0u64, |a, (i, z)| {
                // coefficient 0 of noise*q
                let y = if i == 0 { q[0] } else { q[n - i].wrapping_neg() };
                a.wrapping_add(z.wrapping_mul(y))
            });
            let diff = got.wrapping_sub(want).wrapping_sub(carried) as i64;
            ensure!((diff.unsigned_abs() as f64) <= lim,
                "N={n}: {m} {} {d} at scaling 2^{}: constant coefficient {:.3}, {:.3e} off (limit {lim:.3e})",
                if eq { "=" } else { "<=" }, k.shift, got as i64 as f64 / one as f64, diff as f64);
        }
    }
    for bad in [n, n + 1, 2 * n, usize::MAX] {
        ensure!(panics(|| c.clone().less_eq_than(bad)), "less_eq_than accepts {bad} with N={n}");
        ensure!(panics(|| c.clone().eq_to(bad)), "eq_to accepts {bad} with N={n}");
    }
    Ok(Out::new(sides.0 && sides.1).label_if(k.all, "all constants"))
}

pub fn c22() -> Check {
    Check {
        id: "C22",
        assumptions: &["the scaling is at least 2^40 so that the f64 products (about 2^11 per term) stay below half of it"],
        subs: vec![
            sub("all_constants", "one encrypted value against every constant below N; non-trivial: both answers occur", 7500, 150000,
                || (6usize..=7, std4(), any::<u64>(), 40u32..=63, any::<u32>())
                    .prop_map(|(logn, std4, m, shift, seed)| CmpCase { logn, std4, m, ds: vec![], shift, seed: seed as u64, all: true }).boxed(),
                cmp_case),
            sub("large_ring", "random pairs at N=8192 and 16384", 60, 2000,
                || (13usize..=14, std4(), any::<u64>(), vec(any::<u64>(), 1..=3), 44u32..=63, any::<u32>())
                    .prop_map(|(logn, std4, m, ds, shift, seed)| CmpCase { logn, std4, m, ds, shift, seed: seed as u64, all: false }).boxed(),
                cmp_case),
            sub("pairs", "random values, constants, ring degrees and scalings; non-trivial: both answers occur", 12000, 400000,
                || (logn(6, 10, 12), std4(), any::<u64>(), vec(any::<u64>(), 1..=5), 40u32..=63, any::<u32>())
                    .prop_map(|(logn, std4, m, ds, shift, seed)| CmpCase { logn, std4, m, ds, shift, seed: seed as u64, all: false }).boxed(),
                cmp_case),
        ],
    }
}

#[allow(dead_code)]
fn unused(_: PolynomialSize) {}
