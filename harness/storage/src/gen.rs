//! Generators and independent reference functions for the proof_of_storage checks.
use pbt::Prng;
use proptest::prelude::*;
use rug::integer::{IsPrime, Order};
use rug::Integer;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::str::FromStr;
use std::sync::{Mutex, OnceLock};
use storage_crate::proof_of_storage::depend::*;
use storage_crate::proof_of_storage::postorage::PosPara;
use storage_crate::vde::rug_sloth::{P_1024, P_128, P_2048, P_256, P_512, P_64};

/// Bulk content, described compactly.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Data {
    Random(u64),
    Fill(u8),
    /// zero except for a few bytes
    Sparse(u64),
    /// the same random piece of the given length over and over
    Repeat(u64, u16),
}

impl Data {
    pub fn get(&self, len: usize) -> Vec<u8> {
        match self {
            Data::Random(s) => Prng(*s).bytes(len),
            Data::Fill(b) => vec![*b; len],
            Data::Sparse(s) => {
                let mut p = Prng(*s);
                let mut v = vec![0u8; len];
                for _ in 0..(len / 40).max(1).min(200) {
                    if len > 0 {
                        let i = p.below(len as u64) as usize;
                        v[i] = p.next() as u8;
                    }
                }
                v
            }
            Data::Repeat(s, n) => {
                let piece = Prng(*s).bytes((*n as usize).max(1));
                (0..len).map(|i| piece[i % piece.len()]).collect()
            }
        }
    }
}

pub fn data() -> BoxedStrategy<Data> {
    prop_oneof![
        5 => any::<u64>().prop_map(Data::Random),
        1 => prop_oneof![Just(0u8), Just(255), Just(1), Just(128)].prop_map(Data::Fill),
        1 => any::<u64>().prop_map(Data::Sparse),
        1 => (any::<u64>(), prop_oneof![Just(63u16), Just(64), Just(127), Just(255), 1u16..500]).prop_map(|(s, n)| Data::Repeat(s, n)),
    ]
    .boxed()
}

/// A modulus: one of the built-in ones or another prime = 3 mod 4.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Key {
    BuiltIn,
    Other(u8),
}

static PRIMES: OnceLock<Mutex<HashMap<(u32, u8), Integer>>> = OnceLock::new();

/// A prime = 3 mod 4 with exactly `bits` bits.
pub fn prime(bits: u32, seed: u8) -> Integer {
    let m = PRIMES.get_or_init(Default::default);
    if let Some(p) = m.lock().unwrap().get(&(bits, seed)) {
        return p.clone();
    }
    let mut g = Prng(seed as u64 * 7919 + bits as u64);
    let p = loop {
        let mut x = Integer::from_digits(&g.bytes(bits as usize / 8 + 1), Order::Lsf);
        x.keep_bits_mut(bits);
        x.set_bit(bits - 1, true);
        x.set_bit(0, true);
        x.set_bit(1, true);
        let end = Integer::from(1) << bits;
        let mut found = None;
        while x < end {
            if x.is_probably_prime(30) != IsPrime::No {
                found = Some(x.clone());
                break;
            }
            x += 4;
        }
        if let Some(p) = found {
            break p;
        }
    };
    m.lock().unwrap().insert((bits, seed), p.clone());
    p
}

/// A prime = 1 mod 4 with about `bits` bits.
pub fn prime1(bits: u32, seed: u8) -> Integer {
    let m = PRIMES.get_or_init(Default::default);
    let k = (bits + 100_000, seed);
    if let Some(p) = m.lock().unwrap().get(&k) {
        return p.clone();
    }
    let mut x = prime(bits, seed) + 2u32;
    while x.is_probably_prime(30) == IsPrime::No {
        x += 4;
    }
    m.lock().unwrap().insert(k, x.clone());
    x
}

impl Key {
    pub fn get(&self, unit_pl: usize) -> Integer {
        match self {
            Key::BuiltIn => Integer::from_str(match unit_pl {
                8 => P_64,
                16 => P_128,
                32 => P_256,
                64 => P_512,
                128 => P_1024,
                256 => P_2048,
                n => return prime(8 * n as u32, 0),
            })
            .unwrap(),
            // longer than the unit without its padding byte, not longer than with it
            Key::Other(s) => prime(8 * (unit_pl as u32 - 1) + 1 + (*s as u32 % 8), *s),
        }
    }
}

pub fn key() -> BoxedStrategy<Key> {
    prop_oneof![3 => Just(Key::BuiltIn), 1 => (0u8..16).prop_map(Key::Other)].boxed()
}

/// A consistent configuration together with the content, the key and the IV.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    /// 64, 128 or 256, or 8..70 with a correspondingly short modulus
    pub unit_pl: usize,
    pub units: usize,
    pub blocks: usize,
    pub seal_rounds: usize,
    pub vde_rounds: usize,
    pub mode_l: usize,
    pub cnt_l: usize,
    pub mode_s: usize,
    pub cnt_s: usize,
    pub data: Data,
    pub key: Key,
    pub iv: (u64, u16),
}

impl Cfg {
    pub fn para(&self) -> PosPara {
        let unit_l = self.unit_pl - 1;
        PosPara {
            data_l: unit_l * self.units * self.blocks,
            unit_l,
            block_l: unit_l * self.units,
            big_block_l: unit_l * self.units * 2,
            unit_pl: self.unit_pl,
            block_pl: self.unit_pl * self.units,
            big_block_pl: self.unit_pl * self.units * 2,
            seal_rounds: self.seal_rounds,
            vde_rounds: self.vde_rounds,
            // there is only one delay function, whatever it is called
            vde_mode: if self.iv.0 % 8 == 7 { "vde" } else { "sloth" }.to_string(),
            mode_l: self.mode_l,
            mode_s: self.mode_s,
            cnt_l: self.cnt_l,
            cnt_s: self.cnt_s,
            leaves_to_prove_count: self.blocks.min(3),
        }
    }
    pub fn content(&self) -> Vec<u8> {
        let p = self.para();
        self.data.get(p.data_l)
    }
    pub fn modulus(&self) -> Integer {
        self.key.get(self.unit_pl)
    }
    pub fn iv(&self) -> Vec<u8> {
        Prng(self.iv.0).bytes(self.iv.1 as usize)
    }
    pub fn padded(&self) -> Vec<u8> {
        pad(&self.content(), self.unit_pl - 1)
    }
}

pub fn pad(data: &[u8], unit_l: usize) -> Vec<u8> {
    let mut v = vec![];
    for u in data.chunks(unit_l) {
        v.extend_from_slice(u);
        v.push(0);
    }
    v
}

pub fn split(data: &[u8], len: usize) -> Vec<Vec<u8>> {
    data.chunks(len).map(|c| c.to_vec()).collect()
}

/// Strategy for configurations. `budget` bounds units * blocks * seal rounds * delay rounds.
#[derive(Clone, Copy)]
pub struct Dim {
    pub units: (usize, usize),
    pub blocks: (usize, usize),
    pub seal: (usize, usize),
    pub vde: (usize, usize),
    pub budget: usize,
}

pub fn cfg(d: Dim) -> BoxedStrategy<Cfg> {
    let count = || prop_oneof![2 => 0usize..4, 3 => 4usize..20, 1 => 20usize..90];
    (
        (prop_oneof![6 => Just(64usize), 2 => Just(128), 1 => Just(256), 1 => Just(8), 1 => Just(16), 1 => Just(32), 1 => 9usize..70], d.units.0..=d.units.1, d.blocks.0..=d.blocks.1, d.seal.0..=d.seal.1, d.vde.0..=d.vde.1),
        (0usize..=3, count(), 0usize..=2, count()),
        (data(), key(), any::<u64>(), prop_oneof![4 => Just(128u16), 1 => Just(0), 1 => 1u16..300]),
    )
        .prop_map(move |((unit_pl, units, blocks, seal_rounds, vde_rounds), (mode_l, cnt_l, mode_s, cnt_s), (data, key, ivs, ivl))| {
            let mut c = Cfg { unit_pl, units, blocks, seal_rounds, vde_rounds, mode_l, cnt_l, mode_s, cnt_s, data, key, iv: (ivs, ivl) };
            // long units cost much more
            let w = |c: &Cfg| c.units * c.blocks * c.seal_rounds * c.vde_rounds * [1, 1, 3, 3, 12][c.unit_pl / 64];
            while w(&c) > d.budget && c.vde_rounds > d.vde.0 {
                c.vde_rounds -= 1;
            }
            while w(&c) > d.budget && c.seal_rounds > d.seal.0 {
                c.seal_rounds -= 1;
            }
            while w(&c) > d.budget && c.unit_pl > 64 {
                c.unit_pl /= 2;
            }
            while w(&c) > d.budget && c.blocks > d.blocks.0 {
                c.blocks -= 1;
            }
            c
        })
        .boxed()
}

// ---- references -------------------------------------------------------------------------------

pub fn int(b: &[u8]) -> Integer {
    Integer::from_digits(b, Order::Lsf)
}

pub fn bytes(x: &Integer, len: usize) -> Vec<u8> {
    let mut v = x.to_digits::<u8>(Order::Lsf);
    assert!(v.len() <= len);
    v.resize(len, 0);
    v
}

/// One round of the delay permutation of [0, p).
pub fn ref_round(x: &Integer, p: &Integer) -> Integer {
    if *x == 0 {
        return Integer::new();
    }
    let square = x.jacobi(p) == 1;
    let r = if square { x.clone() } else { Integer::from(p - x) };
    let mut y = r.pow_mod(&(Integer::from(p + 1) >> 2), p).unwrap();
    // the even root of a square, the odd root of a negated non-square
    if y.is_odd() == square {
        y = p - y;
    }
    if y.is_odd() {
        y + 1
    } else {
        y - 1
    }
}

pub fn ref_sloth(x: &Integer, p: &Integer, t: usize) -> Integer {
    let mut y = x.clone();
    for _ in 0..t {
        y = ref_round(&y, p);
    }
    y
}

pub fn hash(b: &[u8]) -> Vec<u8> {
    blake3::hash(b).as_bytes().to_vec()
}

/// Long-range dependencies of a block, as the configuration selects them.
pub fn long_of(p: &PosPara, block: usize, prev_id: &[u8]) -> Vec<usize> {
    let n = p.data_l / p.block_l;
    if p.mode_l != 0 {
        return long_depend(block, p.cnt_l, p.mode_l);
    }
    if block == 0 {
        return vec![];
    }
    long_mode_random(n, &prev_id.to_vec(), block, if p.cnt_l == 0 { block / 10 + 1 } else { p.cnt_l })
}

pub fn short_of(p: &PosPara, unit: usize, units: &[Vec<u8>]) -> Vec<usize> {
    let n = p.block_l / p.unit_l;
    if p.mode_s != 0 {
        return short_depend(n, unit, p.cnt_s, p.mode_s);
    }
    short_depend_random(n, if unit == 0 { NOTHING } else { &units[unit - 1] }, unit, p.cnt_s)
}

static NOTHING: &Vec<u8> = &Vec::new();

/// What sealing has to produce: (sealed bytes, block identifiers).
pub fn ref_seal(p: &PosPara, padded: &[u8], key: &Integer, iv: &[u8]) -> (Vec<u8>, Vec<Vec<u8>>) {
    let n = p.data_l / p.block_l;
    let mut out: Vec<u8> = vec![];
    let mut ids: Vec<Vec<u8>> = vec![];
    for b in 0..n {
        let mut units = split(&padded[b * p.block_pl..(b + 1) * p.block_pl], p.unit_pl);
        let link: Vec<u8> = if b == 0 { iv.to_vec() } else { ids[b - 1].clone() };
        let deps: Vec<Vec<Vec<u8>>> =
            long_of(p, b, &link).iter().map(|d| split(&out[d * p.block_pl..(d + 1) * p.block_pl], p.unit_pl)).collect();
        for _ in 0..p.seal_rounds {
            for u in 0..units.len() {
                let mut h = blake3::Hasher::new();
                deps.iter().for_each(|d| {
                    h.update(&d[u]);
                });
                for s in short_of(p, u, &units) {
                    h.update(&units[s]);
                }
                if u == 0 {
                    h.update(&link);
                }
                let m = (int(&units[u]) + int(h.finalize().as_bytes())) % key;
                units[u] = bytes(&ref_sloth(&m, key, p.vde_rounds), p.unit_pl);
            }
        }
        let block = units.concat();
        ids.push(hash(&block));
        out.extend(block);
    }
    (out, ids)
}
