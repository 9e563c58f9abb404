//! Parameter and polynomial generators shared by the checks.
use crate::noise::{Spec, NP};
use crate::refm::{Poly, Sm};
use concrete_core::commons::crypto::secret::generators::{
    DeterministicSeeder, EncryptionRandomGenerator, SecretRandomGenerator,
};
use concrete_core::commons::math::random::RandomGenerator;
use concrete_csprng::{generators::SoftwareRandomGenerator, seeders::Seed};
use panacea::context::Context;
use panacea::params::TFHEParameters;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct P {
    pub logn: usize,
    /// standard deviation is 2^(-std4/4) on the torus
    pub std4: u32,
    pub b: usize,
    pub l: usize,
    pub kb: usize,
    pub kl: usize,
    pub nb: usize,
    pub nl: usize,
    pub logt: usize,
}

pub const DEFAULT_P: P = P {
    logn: 11,
    std4: 220,
    b: 5,
    l: 9,
    kb: 5,
    kl: 11,
    nb: 5,
    nl: 11,
    logt: 8,
};

impl P {
    pub fn n(&self) -> usize {
        1 << self.logn
    }
    pub fn std(&self) -> f64 {
        -(self.std4 as f64) / 4.0
    }
    pub fn sigma(&self) -> f64 {
        2f64.powf(64.0 + self.std())
    }
    pub fn tfhe(&self, secure: bool) -> TFHEParameters {
        TFHEParameters {
            standard_deviation: self.std(),
            polynomial_size: self.n(),
            base_log: self.b,
            level_count: self.l,
            key_switch_base_log: self.kb,
            key_switch_level_count: self.kl,
            negs_base_log: self.nb,
            negs_level_count: self.nl,
            plaintext_modulus: 1 << self.logt,
            secure_seed: secure,
        }
    }
    pub fn np(&self) -> NP {
        self.np_for(Spec::typical(self.n()))
    }
    /// the analysis for one key
    pub fn np_key(&self, s: &[u64]) -> NP {
        self.np_for(Spec::of_key(s))
    }
    fn np_for(&self, spec: std::sync::Arc<Spec>) -> NP {
        NP {
            spec,
            sigma: self.sigma(),
            b: self.b,
            l: self.l,
            kb: self.kb,
            kl: self.kl,
            nb: self.nb,
            nl: self.nl,
        }
    }
    pub fn ctx(&self, seed: u64) -> Context {
        let mut c = Context::new(self.tfhe(false));
        reseed(&mut c, seed);
        c
    }
    /// log2 of the largest error that still decodes
    pub fn log_half_delta(&self) -> f64 {
        63.0 - self.logt as f64
    }
    pub fn t(&self) -> u64 {
        1 << self.logt
    }
    pub fn delta(&self) -> u64 {
        1 << (64 - self.logt)
    }
}

pub fn reseed(c: &mut Context, seed: u64) {
    let s = |i: u128| Seed(((seed as u128) << 64) | (0x5eed << 8) | i);
    c.random_generator = RandomGenerator::<SoftwareRandomGenerator>::new(s(1));
    c.secret_generator = SecretRandomGenerator::<SoftwareRandomGenerator>::new(s(2));
    c.encryption_generator = enc_gen(seed);
}

pub fn enc_gen(seed: u64) -> EncryptionRandomGenerator<SoftwareRandomGenerator> {
    let s = |i: u128| Seed(((seed as u128) << 64) | (0x5eed << 8) | i);
    EncryptionRandomGenerator::new(s(3), &mut DeterministicSeeder::<SoftwareRandomGenerator>::new(s(4)))
}

/// (base_log, level_count) with base_log*level_count between lo and 63
pub fn gadget(max_b: usize, lo: usize, max_l: usize) -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        1 => Just((5usize, 9usize)),
        1 => Just((5usize, 11usize)),
        // a single level with a large base
        1 => (lo.clamp(20, 32)..=32usize).prop_map(|b| (b, 1)),
        6 => (1..=max_b, lo..=63usize).prop_map(move |(b, t)| {
            let mut l = ((t + b / 2) / b).clamp(1, max_l);
            while b * l > 63 { l -= 1; }
            // a small base with too few levels would lose the precision: raise the base instead
            let mut b = b;
            while b * l < lo && (b + 1) * l <= 63 { b += 1; }
            (b, l)
        }),
    ]
    .boxed()
}

pub fn std4() -> BoxedStrategy<u32> {
    prop_oneof![2 => Just(220u32), 5 => 180u32..=240, 1 => 150u32..=245].boxed()
}

pub fn logn(lo: usize, common: usize, rare: usize) -> BoxedStrategy<usize> {
    prop_oneof![30 => lo..=common, 1 => common..=rare].boxed()
}

pub struct Cfg {
    pub logn: BoxedStrategy<usize>,
    pub max_l: usize,
    pub max_kl: usize,
    pub lo: usize,
}

/// raw parameters; logt is fixed up afterwards with `fit`
pub fn params(c: Cfg) -> BoxedStrategy<P> {
    (
        c.logn,
        std4(),
        gadget(20, c.lo, c.max_l),
        gadget(20, c.lo, c.max_kl),
        gadget(20, c.lo, c.max_kl),
        0usize..62,
    )
        .prop_map(|(logn, std4, (b, l), (kb, kl), (nb, nl), logt)| P {
            logn,
            std4,
            b,
            l,
            kb,
            kl,
            nb,
            nl,
            logt,
        })
        .boxed()
}

/// Choose a plaintext modulus (from the raw `logt`) so that the predicted error leaves `margin` bits,
/// replacing gadgets by the default ones where even t=2 would not fit.
pub fn fit(mut p: P, margin: f64, log_err: impl Fn(&P) -> f64) -> P {
    for step in 0..5 {
        let room = 63.0 - margin - log_err(&p);
        if room >= 1.0 {
            let maxt = (room.floor() as usize).min(62);
            p.logt = 1 + p.logt % maxt;
            return p;
        }
        match step {
            0 => (p.b, p.l) = (5, 9),
            1 => (p.nb, p.nl) = (5, 11),
            2 => (p.kb, p.kl) = (5, 11),
            3 => p.std4 = 220,
            _ => {}
        }
    }
    p.logt = 1;
    p
}

/// A polynomial described by a kind and a seed.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct D {
    pub kind: u8,
    pub seed: u64,
}

pub fn data() -> BoxedStrategy<D> {
    (
        prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8), 1 => Just(5u8), 1 => Just(6u8)],
        prop_oneof![5 => any::<u32>(), 1 => 0u32..2],
    )
        .prop_map(|(kind, s)| D {
            kind,
            seed: s as u64,
        })
        .boxed()
}

/// one of four values, so that the same value comes up again and again
pub fn few() -> BoxedStrategy<D> {
    prop_oneof![3 => (0u64..3).prop_map(|seed| D { kind: 0, seed }), 1 => Just(D { kind: 2, seed: 0 })].boxed()
}

impl D {
    /// coefficients below t
    pub fn poly(&self, n: usize, t: u64) -> Poly {
        let mut r = Sm(self.seed);
        let mut p = vec![0u64; n];
        match self.kind {
            0 => p.iter_mut().for_each(|x| *x = r.next() & (t - 1)),
            1 => p.iter_mut().for_each(|x| *x = t - 1),
            2 => {}
            3 => p[0] = 1 + r.below(t - 1),
            4 => p[r.below(n as u64) as usize] = 1 + r.below(t - 1),
            5 => p.iter_mut().for_each(|x| *x = r.next() >> 63),
            _ => {
                // sparse, including both ends
                for _ in 0..4 {
                    p[r.below(n as u64) as usize] = r.next() & (t - 1);
                }
                p[n - 1] = t - 1;
            }
        }
        p
    }
}
