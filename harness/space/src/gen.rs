//! Generators and independent reference functions for the proof_of_space checks.
use ark_bls12_381::Fr;
use ark_ff::{Field, FpParameters, PrimeField};
use num_bigint::BigUint;
use pbt::Prng;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// A field element given by a 256-bit little-endian integer (reduced modulo the field order).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fe(pub [u64; 4]);

impl Fe {
    pub fn big(&self) -> BigUint {
        let mut b = vec![];
        for w in &self.0 {
            b.extend_from_slice(&w.to_le_bytes());
        }
        BigUint::from_bytes_le(&b)
    }
    pub fn get<F: PrimeField>(&self) -> F {
        from_big(&self.big())
    }
    pub fn fr(&self) -> Fr {
        self.get()
    }
    pub fn of_u64(x: u64) -> Fe {
        Fe([x, 0, 0, 0])
    }
}

pub fn modulus<F: PrimeField>() -> BigUint {
    let m: BigUint = F::Params::MODULUS.into();
    m
}

pub fn from_big<F: PrimeField>(x: &BigUint) -> F {
    F::from_le_bytes_mod_order(&x.to_bytes_le())
}

pub fn to_big<F: PrimeField>(x: &F) -> BigUint {
    x.into_repr().into()
}

fn big_to_fe(x: &BigUint) -> Fe {
    let mut d = x.to_u64_digits();
    d.resize(4, 0);
    Fe([d[0], d[1], d[2], d[3]])
}

/// Field elements: uniform, tiny, near 0, near the modulus, powers of two.
pub fn fe() -> BoxedStrategy<Fe> {
    prop_oneof![
        6 => any::<[u64; 4]>().prop_map(Fe),
        2 => (0u64..8).prop_map(Fe::of_u64),
        1 => any::<u64>().prop_map(Fe::of_u64),
        1 => (1u64..5).prop_map(|k| big_to_fe(&(modulus::<Fr>() - k))),
        1 => (0u32..256, 0u64..3).prop_map(|(k, d)| {
            let x = BigUint::from(1u32) << k;
            let x = match d { 0 => x, 1 => x + 1u32, _ => x - 1u32 };
            big_to_fe(&(x % (BigUint::from(1u32) << 256)))
        }),
    ]
    .boxed()
}

pub fn fe_random() -> BoxedStrategy<Fe> {
    any::<[u64; 4]>().prop_map(Fe).boxed()
}

/// Lists of round constants, described compactly.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Consts {
    Random(u64),
    Same(Fe),
    Index,
    /// all zero except one position (position modulo the length)
    OneHot(u16, Fe),
}

pub fn consts() -> BoxedStrategy<Consts> {
    prop_oneof![
        6 => any::<u64>().prop_map(Consts::Random),
        1 => fe().prop_map(Consts::Same),
        1 => Just(Consts::Index),
        2 => (any::<u16>(), fe()).prop_map(|(i, f)| Consts::OneHot(i, f)),
    ]
    .boxed()
}

impl Consts {
    pub fn get<F: PrimeField>(&self, n: usize) -> Vec<F> {
        match self {
            Consts::Random(s) => {
                let mut p = Prng(*s);
                (0..n).map(|_| F::from_le_bytes_mod_order(&p.bytes(56))).collect()
            }
            Consts::Same(f) => vec![f.get(); n],
            Consts::Index => (0..n).map(|i| F::from((i + 1) as u64)).collect(),
            Consts::OneHot(i, f) => {
                let mut v = vec![F::zero(); n];
                let k = *i as usize % n;
                v[k] = f.get();
                v
            }
        }
    }
}

// ---- reference functions over big integers -------------------------------------------------

pub fn big_df(xl: &BigUint, xr: &BigUint, c: &[BigUint], e: u32, p: &BigUint) -> BigUint {
    let (mut l, mut r) = (xl % p, xr % p);
    for ci in c {
        let t = (&l + ci) % p;
        let nl = (r + t.modpow(&BigUint::from(e), p)) % p;
        r = l;
        l = nl;
    }
    l
}

pub fn big_hash(x: &BigUint, key: &BigUint, c: &[BigUint], e: u32, p: &BigUint) -> BigUint {
    let mut h = BigUint::from(0u32);
    for (i, ci) in c.iter().enumerate() {
        let t = if i == 0 { (x + key) % p } else { (&h + key + ci) % p };
        h = t.modpow(&BigUint::from(e), p);
    }
    (h + key) % p
}

pub fn big_multi(xs: &[BigUint], key: &BigUint, c: &[BigUint], e: u32, p: &BigUint) -> BigUint {
    let mut r = key % p;
    for x in xs {
        let h = big_hash(x, &r, c, e, p);
        r = (&r + x + h) % p;
    }
    r
}

// ---- the same maps in the field (independent of the repository's code; used for speed) -----

pub fn ref_df<F: Field>(xl: F, xr: F, c: &[F], e: u64) -> F {
    let (mut l, mut r) = (xl, xr);
    for ci in c {
        let t = (l + ci).pow([e]);
        let n = r + t;
        r = l;
        l = n;
    }
    l
}

pub fn ref_multi<F: Field>(xs: &[F], key: F, c: &[F], e: u64) -> F {
    let mut r = key;
    for x in xs {
        let mut h = F::zero();
        for (i, ci) in c.iter().enumerate() {
            let t = if i == 0 { *x + r } else { h + r + ci };
            h = t.pow([e]);
        }
        h += r;
        r = r + x + h;
    }
    r
}

/// the n lowest bits of a field element's canonical representative
pub fn low_bits(y: &Fr, n: usize) -> usize {
    let r = y.into_repr();
    if n == 0 {
        0
    } else {
        (r.0[0] & (u64::MAX >> (64 - n))) as usize
    }
}

/// Bulk content, described compactly.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Data {
    Bytes(Vec<u8>),
    Prng { seed: u64, len: usize },
    Fill { byte: u8, len: usize },
}

impl Data {
    pub fn get(&self) -> Vec<u8> {
        match self {
            Data::Bytes(b) => b.clone(),
            Data::Prng { seed, len } => Prng(*seed).bytes(*len),
            Data::Fill { byte, len } => vec![*byte; *len],
        }
    }
}
