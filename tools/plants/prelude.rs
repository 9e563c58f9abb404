#![allow(dead_code, unused_imports, unused_variables, unused_mut, deprecated)]
use concrete_core::commons::crypto::encoding::{Plaintext, PlaintextList};
use concrete_core::commons::math::polynomial::Polynomial;
use concrete_core::commons::math::tensor::{AsMutSlice, AsMutTensor, AsRefSlice, AsRefTensor, Tensor};
use concrete_core::prelude::{
    DecompositionBaseLog, DecompositionLevelCount, LogStandardDev, LweSize, MonomialDegree,
    PlaintextCount, PolynomialSize,
};
use panacea::codec::Codec;
use panacea::context::{Context, FftBuffer};
use panacea::decision_tree::*;
use panacea::lwe::*;
use panacea::naive_hash::NaiveHash;
use panacea::oram::*;
use panacea::params::*;
use panacea::rgsw::*;
use panacea::rlwe::*;
use panacea::utils::*;
use std::collections::HashMap;

type Pt = PlaintextList<Vec<u64>>;

/// small but otherwise ordinary parameters
fn tp(n: usize, t: u64) -> TFHEParameters {
    TFHEParameters { polynomial_size: n, plaintext_modulus: t, ..TFHEParameters::default() }
}
fn pt(v: &[u64]) -> Pt {
    PlaintextList::from_container(v.to_vec())
}
fn vals(p: &Pt) -> Vec<u64> {
    p.as_tensor().as_slice().to_vec()
}
/// body - mask * s
fn phase(sk: &RLWESecretKey, ct: &RLWECiphertext) -> Vec<u64> {
    let mut p = PlaintextList::allocate(0u64, PlaintextCount(ct.polynomial_size().0));
    sk.decrypt_rlwe(&mut p, ct);
    vals(&p)
}
fn dec(sk: &RLWESecretKey, ct: &RLWECiphertext, ctx: &Context) -> Vec<u64> {
    let mut p = ctx.gen_zero_pt();
    sk.decrypt_decode_rlwe(&mut p, ct, ctx);
    vals(&p)
}
fn enc(sk: &RLWESecretKey, v: &[u64], ctx: &mut Context) -> RLWECiphertext {
    let mut c = RLWECiphertext::allocate(ctx.poly_size);
    sk.encode_encrypt_rlwe(&mut c, &pt(v), ctx);
    c
}
fn mask(c: &RLWECiphertext) -> Vec<u64> {
    c.get_mask().as_tensor().as_slice().to_vec()
}
fn body(c: &RLWECiphertext) -> Vec<u64> {
    c.get_body().as_tensor().as_slice().to_vec()
}
/// a key with the given coefficients
fn key(bits: &[u64]) -> RLWESecretKey {
    let mut k = RLWESecretKey::zero(PolynomialSize(bits.len()));
    k.fill_with_tensor(&Tensor::from_container(bits.to_vec()));
    k
}
/// largest distance of two vectors modulo 2^64
fn dist(a: &[u64], b: &[u64]) -> u64 {
    a.iter().zip(b).map(|(x, y)| (x.wrapping_sub(*y) as i64).unsigned_abs()).max().unwrap()
}
fn mul(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len();
    let mut o = vec![0u64; n];
    for i in 0..n {
        if a[i] == 0 {
            continue;
        }
        for j in 0..n {
            let p = a[i].wrapping_mul(b[j]);
            if i + j < n {
                o[i + j] = o[i + j].wrapping_add(p);
            } else {
                o[i + j - n] = o[i + j - n].wrapping_sub(p);
            }
        }
    }
    o
}
/// p(X^k) mod X^N + 1
fn subst(p: &[u64], k: usize) -> Vec<u64> {
    let n = p.len();
    let mut o = vec![0u64; n];
    for (i, x) in p.iter().enumerate() {
        let e = i * k % (2 * n);
        if e < n {
            o[e] = o[e].wrapping_add(*x);
        } else {
            o[e - n] = o[e - n].wrapping_sub(*x);
        }
    }
    o
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn poly(&mut self, n: usize, t: u64) -> Vec<u64> {
        (0..n).map(|_| self.next() % t).collect()
    }
}
struct Db {
    client: Client,
    server: Server,
    hash: NaiveHash,
    model: Vec<Vec<u64>>,
}
/// a random database and the array it stands for
fn db(rows: usize, cols: usize, h: usize, p: TFHEParameters) -> Db {
    let hash = NaiveHash::new(h, rows * cols / h);
    db_with(rows, cols, hash, p)
}
fn db_with(rows: usize, cols: usize, hash: NaiveHash, p: TFHEParameters) -> Db {
    let (client, server, pts) = setup_random_oram(rows, cols, &hash, p);
    Db { client, server, hash, model: pts.iter().map(vals).collect() }
}
impl Db {
    fn n(&self) -> usize {
        self.client.ctx.poly_size.0
    }
    fn dec(&self, c: &RLWECiphertext) -> Vec<u64> {
        dec(&self.client.sk, c, &self.client.ctx)
    }
    fn read(&mut self, i: usize) {
        let q = self.client.gen_read_query_one(i, &self.hash);
        let (y, _) = self.server.process_one(q);
        assert_eq!(self.dec(&y), self.model[i], "read of item {i}");
    }
    fn write(&mut self, i: usize, v: &[u64]) {
        let q = self.client.gen_write_query_one(i, &pt(v), &self.hash);
        let (y, _) = self.server.process_one(q);
        assert_eq!(self.dec(&y), self.model[i], "answer of a write to item {i}");
        self.model[i] = v.to_vec();
    }
    /// a batch that reads, or writes one value everywhere
    fn batch(&mut self, is: &[usize], w: Option<&[u64]>) {
        let q = match w {
            None => self.client.gen_read_query_batch(is, &self.hash),
            Some(v) => self.client.gen_write_query_batch(is, &pt(v), &self.hash),
        };
        let m = self.hash.hash_to_mapping(is, self.client.cols);
        let (ys, _) = self.server.process_batch(q, &self.hash);
        for (r, (_, i)) in m {
            assert_eq!(self.dec(&ys[r]), self.model[i], "batch answer for item {i}");
        }
        if let Some(v) = w {
            for i in is {
                self.model[*i] = v.to_vec();
            }
        }
    }
}
