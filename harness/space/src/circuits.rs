//! C07 (space circuit), C08 (MiMC circuits), C09 (equality and power circuits).
use crate::gen::*;
use crate::r1cs::*;
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use num_bigint::BigUint;
use pbt::{Check, Obs, Prng};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use space_crate::circuit::equal_circuit::EqualDemo;
use space_crate::circuit::mimc3_df_circuit::MiMC3DFDemo;
use space_crate::circuit::mimc5_df_circuit::MiMC5DFDemo;
use space_crate::circuit::mimc5_hash_circuit::MiMC5HashDemo;
use space_crate::circuit::mimc7_hash_circuit::MiMC7HashDemo;
use space_crate::circuit::pospace_circuit::PospaceDemo;
use space_crate::circuit::pow_circuit::PowDemo;
use space_crate::mimc::mimc_df::*;
use space_crate::mimc::mimc_hash::*;
use space_crate::proof_of_space::pospace::N;
use std::collections::BTreeSet;

fn rnd(p: &mut Prng) -> Fr {
    Fr::from_le_bytes_mod_order(&p.bytes(56))
}

fn bits_of(x: &BigUint, n: usize) -> Vec<bool> {
    (0..n as u64).map(|i| x.bit(i)).collect()
}

fn f_bool(b: bool) -> Fr {
    if b {
        Fr::one()
    } else {
        Fr::zero()
    }
}

/// A different value near or far from `v`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Add(u64),
    Sub(u64),
    Zero,
    Bit(u8),
    Random(u64),
    Neg,
}

pub fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        (1u64..3).prop_map(Change::Add),
        (1u64..3).prop_map(Change::Sub),
        Just(Change::Zero),
        (0u8..=254).prop_map(Change::Bit),
        any::<u64>().prop_map(Change::Random),
        Just(Change::Neg),
    ]
    .boxed()
}

impl Change {
    /// the changed value; guaranteed to differ from v
    pub fn of(&self, v: Fr) -> Fr {
        let w = match self {
            Change::Add(k) => v + Fr::from(*k),
            Change::Sub(k) => v - Fr::from(*k),
            Change::Zero => Fr::zero(),
            Change::Bit(b) => {
                let mut r = to_big(&v);
                r.set_bit(*b as u64, !r.bit(*b as u64));
                from_big(&r)
            }
            Change::Random(s) => rnd(&mut Prng(*s)),
            Change::Neg => -v,
        };
        if w == v {
            v + Fr::one()
        } else {
            w
        }
    }
}

// ---- C07 -----------------------------------------------------------------------------------

struct Space {
    key: Fr,
    m: Fr,
    xs: Vec<Fr>,
    df: Vec<Fr>,
    hash: Vec<Fr>,
}

impl Space {
    fn random(p: &mut Prng, k: usize) -> Space {
        Space {
            key: rnd(p),
            m: rnd(p),
            xs: (0..k).map(|_| rnd(p)).collect(),
            df: (0..MIMC5_DF_ROUNDS).map(|_| rnd(p)).collect(),
            hash: (0..MIMC5_HASH_ROUNDS).map(|_| rnd(p)).collect(),
        }
    }
    fn y(&self, i: usize) -> Fr {
        ref_df(self.key + self.xs[i], self.m, &self.df, 5)
    }
    fn yns(&self) -> Vec<Fr> {
        (0..self.xs.len()).map(|i| Fr::from(low_bits(&self.y(i), N) as u64)).collect()
    }
    fn hash(&self) -> Fr {
        ref_multi(&self.xs, self.key, &self.hash, 5)
    }
    fn synth(&self, yn: &[Fr], x_hash: Fr) -> Result<Filled, String> {
        let x: Vec<Option<Fr>> = self.xs.iter().map(|x| Some(*x)).collect();
        let yn: Vec<Option<Fr>> = yn.iter().map(|x| Some(*x)).collect();
        synth(
            PospaceDemo {
                key: Some(self.key),
                x: &x,
                m: Some(self.m),
                df_constants: &self.df,
                yn: &yn,
                x_hash: Some(x_hash),
                hash_constants: &self.hash,
            },
            false,
        )
    }
    fn synth_setup(&self) -> Result<Filled, String> {
        let none = vec![None; self.xs.len()];
        synth(
            PospaceDemo {
                key: None,
                x: &none,
                m: None,
                df_constants: &self.df,
                yn: &none,
                x_hash: None,
                hash_constants: &self.hash,
            },
            true,
        )
    }
    fn honest(&self) -> Result<Filled, String> {
        let f = self.synth(&self.yns(), self.hash())?;
        let mut publics = vec![Fr::one(), self.key, self.m];
        publics.extend(self.yns());
        publics.push(self.hash());
        if f.z[..f.sys.ninst] != publics[..] {
            return Err("the public inputs are not (key, m, challenges.., hash) in that order".into());
        }
        if let Some(i) = f.sys.unsat(&f.z) {
            return Err(format!("a true statement violates constraint {}", i));
        }
        Ok(f)
    }
}

/// Inputs of the delay function for which the left half is zero, or minus the constant, before round r.
fn ref_df_back(r: usize, c: &[Fr], e: u64, minus: bool, p: &mut Prng) -> (Fr, Fr) {
    let mut xl = if minus { -c[r] } else { Fr::zero() };
    let mut xr = rnd(p);
    for i in (0..r).rev() {
        // (xl, xr) = (old xr + (old xl + c)^e, old xl)
        let old = xr;
        let pw = (old + c[i]).pow([e]);
        xr = xl - pw;
        xl = old;
    }
    (xl, xr)
}

/// The relation the circuit has to express, on public inputs (1, key, m, yn.., hash).
fn pospace_relation(publics: &[Fr], xs: &[Fr], df: &[Fr], hash: &[Fr]) -> bool {
    let k = xs.len();
    if publics.len() != k + 4 {
        return false;
    }
    let (key, m) = (publics[1], publics[2]);
    (0..k).all(|i| Fr::from(low_bits(&ref_df(key + xs[i], m, df, 5), N) as u64) == publics[3 + i])
        && publics[3 + k] == ref_multi(xs, key, hash, 5)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum YnChange {
    Keep,
    FlipLow(u8),
    AddHigh(u16),
    Other(Fe),
    /// the challenge of another response
    Of(u8),
    /// more bits of y than N
    Wider(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SatCase {
    key: Fe,
    m: Fe,
    xs: Vec<Fe>,
    df: Consts,
    hash: Consts,
    yn: Vec<YnChange>,
    x_hash: Option<Change>,
}

fn yn_change() -> BoxedStrategy<YnChange> {
    prop_oneof![
        6 => Just(YnChange::Keep),
        2 => (0u8..N as u8).prop_map(YnChange::FlipLow),
        1 => (1u16..500).prop_map(YnChange::AddHigh),
        1 => fe().prop_map(YnChange::Other),
        1 => any::<u8>().prop_map(YnChange::Of),
        1 => (1u8..20).prop_map(YnChange::Wider),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SubstCase {
    seed: u64,
    k: usize,
    /// which public inputs to change (1-based position modulo the number of publics)
    at: Vec<(u8, Change)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ForgeCase {
    seed: u64,
    k: usize,
    /// columns to change (modulo the number of usable columns)
    at: Vec<(u32, Change)>,
    latest: bool,
    repair: u64,
    tries: u8,
}

fn forge_case(kmax: usize) -> BoxedStrategy<ForgeCase> {
    (any::<u64>(), 1usize..=kmax, prop::collection::vec((any::<u32>(), change()), 1..3), any::<bool>(), any::<u64>(), 1u8..4)
        .prop_map(|(seed, k, at, latest, repair, tries)| ForgeCase { seed, k, at, latest, repair, tries })
        .boxed()
}

/// Where the secret inputs live: for every secret, the columns that always carry it.
struct Layout {
    secrets: Vec<Vec<usize>>,
}

/// All choices of one column per secret (bounded); `holds` is evaluated on the values.
fn some_reading(l: &Layout, z: &[Fr], holds: &dyn Fn(&[Fr]) -> bool) -> bool {
    let dims: Vec<usize> = l.secrets.iter().map(|s| s.len()).collect();
    if dims.iter().any(|d| *d == 0) {
        return true; // the secret cannot be located: no verdict
    }
    let total: usize = dims.iter().product::<usize>().min(4096);
    for t in 0..total {
        let mut q = t;
        let vals: Vec<Fr> = l
            .secrets
            .iter()
            .zip(&dims)
            .map(|(s, d)| {
                let c = s[q % d];
                q /= d;
                z[c]
            })
            .collect();
        if holds(&vals) {
            return true;
        }
    }
    false
}

/// Change some columns of a satisfying assignment, keep them, and let the repair search adjust the rest.
/// A satisfying assignment whose public part is not in the relation is a forgery.
fn forge(sys: &Sys, z: &[Fr], v: &ForgeCase, pool: &[usize], extra_frozen: &BTreeSet<usize>, o: &mut Obs, judge: &dyn Fn(&[Fr]) -> bool) -> Result<(), String> {
    let bools = sys.booleans();
    let mut z2 = z.to_vec();
    let mut frozen = extra_frozen.clone();
    let mut what = vec![];
    for (i, ch) in &v.at {
        let c = pool[*i as usize % pool.len()];
        let nv = if bools.contains(&c) { Fr::one() - z2[c] } else { ch.of(z2[c]) };
        z2[c] = nv;
        frozen.insert(c);
        what.push(c);
    }
    let mut p = Prng(v.repair);
    for t in 0..v.tries {
        o.steps += 1;
        if let Some(w) = sys.repair(&z2, &frozen, &mut p, v.latest || t == 0, 4 * sys.len()) {
            debug_assert!(sys.sat(&w));
            o.label("repaired to a satisfying assignment");
            if !judge(&w) {
                return Err(format!(
                    "forged: an assignment (columns {:?} changed, the others adjusted) satisfies every constraint although its public inputs are not in the relation: {:?}",
                    what,
                    w[..sys.ninst].iter().map(|x| to_big(x).to_string()).collect::<Vec<_>>()
                ));
            }
        } else {
            o.label("no repair");
        }
    }
    Ok(())
}

/// What the search for a second assignment of the same statement needs to know about a system.
struct Pins {
    occ: Vec<Vec<usize>>,
    bools: BTreeSet<usize>,
    /// publics and secrets
    given: BTreeSet<usize>,
    /// columns that hold the same value in every honest assignment
    constant: BTreeSet<usize>,
    pool: Vec<usize>,
    located: bool,
}

impl Pins {
    fn new(sys: &Sys, layout: &Layout, runs: &[Vec<Fr>]) -> Pins {
        let mut given: BTreeSet<usize> = (0..sys.ninst).collect();
        layout.secrets.iter().for_each(|s| given.extend(s));
        let pool = sys.used().into_iter().filter(|c| !given.contains(c)).collect();
        Pins { occ: sys.occurrences(), bools: sys.booleans(), given, constant: columns_constant(runs), pool, located: layout.secrets.iter().all(|s| !s.is_empty()) }
    }
    /// Keep publics and secrets, change one other column, adjust the rest: nothing else may satisfy the constraints.
    fn attack(&self, sys: &Sys, z: &[Fr], v: &PinCase, o: &mut Obs) -> Result<(), String> {
        o.nontrivial_if(self.located);
        if !self.located || self.pool.is_empty() {
            return Ok(());
        }
        for i in 0..v.count as usize {
            self.attack_column(sys, z, v, self.pool[(v.at as usize + i) % self.pool.len()], o)?;
        }
        Ok(())
    }
    fn attack_column(&self, sys: &Sys, z: &[Fr], v: &PinCase, c: usize, o: &mut Obs) -> Result<(), String> {
        o.label_if(self.bools.contains(&c), "flipped bit");
        o.label_if(self.constant.contains(&c), "constant changed");
        let mut p = Prng(v.walk ^ c as u64);
        let mut free = self.given.clone();
        let mut tight = self.given.clone();
        free.extend([0]);
        tight.extend(&self.constant);
        for t in 0..10 {
            let mut z2 = z.to_vec();
            z2[c] = if self.bools.contains(&c) {
                Fr::one() - z[c]
            } else if t < v.change.len() {
                v.change[t].of(z[c])
            } else {
                // powers of two reach the bit decompositions
                let d = Fr::from(1u64 << p.below(20));
                if p.below(2) == 0 { z[c] + d } else { z[c] - d }
            };
            o.steps += 1;
            if sys.walk(&self.occ, &z2, &[c], if t % 3 == 2 { &free } else { &tight }, &self.bools, &mut p).is_some() {
                return Err(format!("column {} is not pinned down: another assignment with the same public inputs and preimages satisfies every constraint", c));
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PinCase {
    seed: u64,
    k: usize,
    at: u32,
    count: u8,
    change: Vec<Change>,
    walk: u64,
}

fn pin_case(kmax: usize) -> BoxedStrategy<PinCase> {
    (any::<u64>(), 1usize..=kmax, any::<u32>(), 1u8..=20, prop::collection::vec(change(), 1..4), any::<u64>())
        .prop_map(|(seed, k, at, count, change, walk)| PinCase { seed, k, at, count, change, walk })
        .boxed()
}

const PINNED: &str = "publics and preimages of a true statement kept, one internal value or bit changed and kept, the others adjusted by a search that changes each at most once: no second assignment may satisfy the constraints; non-trivial: the preimage columns were located";

// locate x_i and the bits of y_i by their values over many random statements
struct Map {
    sys: Sys,
    layout: Layout,
    ybits: Vec<Vec<Vec<usize>>>,
    df: Vec<Fr>,
    hash: Vec<Fr>,
    pool: Vec<usize>,
    pins: Pins,
}

/// The bits of y + r (or `times` that) in place of those of y, which may be given.
fn alias(map: &Map, seed: u64, which: usize, given: Option<Fr>, times: u32, o: &mut Obs) -> Result<(), String> {
    let k = map.layout.secrets.len();
    let mut s = Space::random(&mut Prng(seed), k);
    s.df = map.df.clone();
    s.hash = map.hash.clone();
    let j = which % k;
    if let Some(y) = given {
        // the rounds of the delay function can be undone
        let (mut xl, mut xr) = (y, rnd(&mut Prng(seed ^ 99)));
        for c in s.df.iter().rev() {
            (xl, xr) = (xr, xl - (xr + c).pow([5u64]));
        }
        s.m = xr;
        s.xs[j] = xl - s.key;
        if s.y(j) != y {
            return Err("harness: the delay function was not undone".into());
        }
    }
    let f = s.honest()?;
    let located = map.ybits[j].iter().filter(|c| !c.is_empty()).count();
    o.label_if(located >= 250, "bits located");
    o.nontrivial_if(located >= 250);
    let alias = bits_of(&(to_big(&s.y(j)) + modulus::<Fr>() * times), 256);
    let mut z = f.z.clone();
    let mut frozen: BTreeSet<usize> = [1usize, 2].into_iter().collect();
    for b in 0..256 {
        for col in &map.ybits[j][b] {
            z[*col] = f_bool(alias[b]);
            frozen.insert(*col);
        }
    }
    // the top bit of y is constant over all statements: set every constant boolean that
    // is not located as a bit of some y and occurs right after the located ones
    let low: u64 = (0..N).map(|b| (alias[b] as u64) << b).sum();
    z[3 + j] = Fr::from(low);
    frozen.insert(3 + j);
    for s in &map.layout.secrets {
        frozen.extend(s);
    }
    let mut p = Prng(seed ^ 1);
    let bools = map.sys.booleans();
    let located_set: BTreeSet<usize> = map.ybits.iter().flatten().flatten().copied().collect();
    let loose: Vec<usize> = bools.iter().copied().filter(|c| !located_set.contains(c)).collect();
    for t in 0..4usize {
        let mut z2 = z.clone();
        if t == 3 {
            if !alias[255] || loose.len() != k {
                continue;
            }
            z2[loose[j]] = f_bool(true);
        } else if t > 0 {
            // y + r may need bit 255: try setting the unlocated boolean columns
            for c in &loose {
                z2[*c] = f_bool(t == 1 && alias[255]);
            }
        }
        if let Some(w) = map.sys.repair(&z2, &frozen, &mut p, true, 4 * map.sys.len()) {
            o.label("repaired to a satisfying assignment");
            let ok = some_reading(&map.layout, &w, &|xs| pospace_relation(&w[..map.sys.ninst], xs, &map.df, &map.hash));
            if !ok {
                return Err(format!("challenge {} is accepted for an x whose delay value y has other low bits: the bits of y + r were accepted as the bits of y", low));
            }
        }
    }
    Ok(())
}

/// No internal value, challenge or hash can change to first order while key and m stay.
fn space_freedom((seed, k): &(u64, usize), o: &mut Obs) -> Result<(), String> {
    o.nontrivial();
    let s = Space::random(&mut Prng(*seed), *k);
    let f = s.honest()?;
    let (dim, free) = f.sys.freedom(&f.z, &[1usize, 2].into_iter().collect());
    if dim != 0 {
        return Err(format!("{} internal value(s) are not determined by the constraints (columns {:?} of {} publics + witnesses)", dim, &free[..free.len().min(8)], f.sys.ninst));
    }
    Ok(())
}

pub fn c07(c: &mut Check) {
    c.explore(
        "satisfied iff true",
        "k=1..4, sometimes up to 50 responses, edge-biased values, challenges kept or changed (low bit, beyond 2^N, other values, swapped); satisfaction compared with the relation; non-trivial: some challenge changed, or every value random",
        c.n(1600, 16000),
        || {
            // (the shipped size is 50)
            let one = || (fe(), yn_change());
            let many = || (fe(), prop_oneof![20 => Just(YnChange::Keep), 1 => yn_change()]);
            let resp = prop_oneof![30 => prop::collection::vec(one(), 1..=4), 1 => prop::collection::vec(many(), 5..=50)];
            (fe(), fe(), resp, consts(), consts(), prop::option::weighted(0.3, change()))
                .prop_map(|(key, m, resp, df, hash, x_hash)| SatCase {
                    key,
                    m,
                    xs: resp.iter().map(|r| r.0.clone()).collect(),
                    yn: resp.into_iter().map(|r| r.1).collect(),
                    df,
                    hash,
                    x_hash,
                })
                .boxed()
        },
        |v: &SatCase, o: &mut Obs| {
            let s = Space {
                key: v.key.fr(),
                m: v.m.fr(),
                xs: v.xs.iter().map(|x| x.fr()).collect(),
                df: v.df.get(MIMC5_DF_ROUNDS),
                hash: v.hash.get(MIMC5_HASH_ROUNDS),
            };
            let good = s.yns();
            let yn: Vec<Fr> = v
                .yn
                .iter()
                .enumerate()
                .map(|(i, c)| match c {
                    YnChange::Keep => good[i],
                    YnChange::FlipLow(b) => Fr::from(low_bits(&good[i], N) as u64 ^ (1 << b)),
                    YnChange::AddHigh(k) => good[i] + Fr::from((*k as u64) << N),
                    YnChange::Other(f) => f.fr(),
                    YnChange::Of(j) => good[*j as usize % good.len()],
                    YnChange::Wider(k) => Fr::from(low_bits(&s.y(i), N + *k as usize) as u64),
                })
                .collect();
            let h = match &v.x_hash {
                Some(c) => c.of(s.hash()),
                None => s.hash(),
            };
            let f = s.synth(&yn, h)?;
            let sat = f.sys.sat(&f.z);
            let publics = &f.z[..f.sys.ninst];
            let rel = pospace_relation(publics, &s.xs, &s.df, &s.hash);
            o.label(if rel { "true statement" } else { "false statement" });
            o.nontrivial_if(yn != good || matches!(v.df, Consts::Random(_)));
            if publics[1] != s.key || publics[2] != s.m || publics[3..3 + yn.len()] != yn[..] {
                return Err("the public inputs are not (key, m, challenges.., hash) in that order".into());
            }
            if yn == good && v.x_hash.is_none() && !rel {
                return Err("the hash public input is not the hash of the responses under the key".into());
            }
            if sat != rel {
                return Err(format!("the constraint system is {}satisfied by a {} statement", if sat { "" } else { "not " }, rel));
            }
            Ok(())
        },
    );
    c.explore(
        "replaced public input",
        "one or two public inputs of a true statement replaced, everything else kept; non-trivial: always",
        c.n(1600, 16000),
        || (any::<u64>(), prop_oneof![30 => 1usize..=3, 1 => 4usize..=50], prop::collection::vec((any::<u8>(), change()), 1..3)).prop_map(|(seed, k, at)| SubstCase { seed, k, at }).boxed(),
        |v: &SubstCase, o: &mut Obs| {
            o.nontrivial();
            let s = Space::random(&mut Prng(v.seed), v.k);
            let f = s.honest()?;
            let mut z = f.z.clone();
            for (i, c) in &v.at {
                let p = 1 + *i as usize % (f.sys.ninst - 1);
                z[p] = c.of(f.z[p]);
                o.label(match p { 1 => "key", 2 => "m", p if p == f.sys.ninst - 1 => "hash", _ => "challenge" });
            }
            if f.sys.sat(&z) {
                return Err(format!("still satisfied after replacing public inputs {:?}", v.at.iter().map(|(i, _)| 1 + *i as usize % (f.sys.ninst - 1)).collect::<Vec<_>>()));
            }
            Ok(())
        },
    );
    c.explore(
        "same constraints",
        "constraint matrices of parameter generation and of two different witnesses (one with a false challenge, sometimes one that makes some intermediate value zero or equal to another) compared; non-trivial: always",
        c.n(400, 4000),
        || (any::<u64>(), prop_oneof![8 => 1usize..=4, 1 => 5usize..=50], 0u8..11).boxed(),
        |(seed, k, edge): &(u64, usize, u8), o: &mut Obs| {
            o.nontrivial();
            let mut p = Prng(*seed);
            let s = Space::random(&mut p, *k);
            let f = s.honest()?;
            let g = s.synth_setup()?;
            if let Some(d) = f.sys.diff(&g.sys) {
                return Err(format!("parameter generation and proving disagree: {}", d));
            }
            let mut t = Space::random(&mut p, *k);
            t.df = s.df.clone();
            t.hash = s.hash.clone();
            let j = p.below(*k as u64) as usize;
            let r = p.below(MIMC5_DF_ROUNDS as u64) as usize;
            match edge {
                0 => {
                    t.xs = vec![Fr::zero(); *k];
                    t.key = Fr::zero();
                }
                1 => t.key = -t.xs[j],
                2 => t.key = -t.xs[j] - t.df[0],
                3 => t.xs = vec![t.xs[0]; *k],
                4 => t.m = Fr::zero(),
                5 => t.m = t.key + t.xs[j],
                6 => t.xs[j] = t.m,
                7 => t.xs[j] = Fr::zero(),
                // some round of the delay function (r) or of the hash starts from zero
                8 => {
                    let minus = p.below(2) == 1;
                    let (xl, xr) = ref_df_back(r, &t.df, 5, minus, &mut p);
                    t.m = xr;
                    t.xs[j] = xl - t.key;
                }
                9 => t.xs[0] = -t.key - t.hash[0],
                _ => {}
            }
            o.label(format!("witness {}", edge));
            let yn = if p.below(2) == 0 { vec![Fr::from(7u64); *k] } else { t.yns() };
            let h = t.synth(&yn, Fr::zero())?;
            if let Some(d) = f.sys.diff(&h.sys) {
                return Err(format!("the constraints depend on the witness: {}", d));
            }
            Ok(())
        },
    );
    c.explore(
        "freedom",
        "random true statements with k=1..8: dimension of the first-order changes of all internal values, challenges and hash that keep the constraints with key and m fixed must be 0; non-trivial: always",
        c.n(120, 1500),
        || (any::<u64>(), prop_oneof![8 => 1usize..=3, 1 => 4usize..=8]).boxed(),
        space_freedom,
    );
    c.enumerate(
        "freedom, many responses",
        "the same with the shipped number of responses, 50, and fewer; non-trivial: always",
        vec![(c.seed + 1000, 50usize), (c.seed + 2000, 20 + c.seed as usize % 29), (c.seed + 3000, 12)],
        space_freedom,
    );
    let make_map = |k: usize, rounds: usize| -> Result<Map, String> {
        let mut p = Prng(77 + k as u64);
        let base = Space::random(&mut p, k);
        let mut runs = vec![];
        let mut xs: Vec<Vec<Fr>> = vec![vec![]; k];
        let mut ys: Vec<Vec<BigUint>> = vec![vec![]; k];
        let mut sys = None;
        for _ in 0..rounds {
            let mut s = Space::random(&mut p, k);
            s.df = base.df.clone();
            s.hash = base.hash.clone();
            let f = s.honest()?;
            for i in 0..k {
                xs[i].push(s.xs[i]);
                ys[i].push(to_big(&s.y(i)));
            }
            if let Some(s0) = &sys {
                if f.sys.diff(s0).is_some() {
                    return Err("the constraints depend on the witness".into());
                }
            }
            runs.push(f.z);
            sys = Some(f.sys);
        }
        let sys = sys.unwrap();
        let used = sys.used();
        let wit: BTreeSet<usize> = used.iter().copied().filter(|c| *c >= sys.ninst).collect();
        let bools: BTreeSet<usize> = sys.booleans().into_iter().filter(|c| *c >= sys.ninst).collect();
        let secrets = (0..k).map(|i| columns_equal(&runs, &xs[i], &wit)).collect();
        let ybits = (0..k)
            .map(|i| {
                (0..256)
                    .map(|b| {
                        let want: Vec<Fr> = ys[i].iter().map(|y| f_bool(y.bit(b))).collect();
                        if want.iter().all(|w| *w == want[0]) {
                            return vec![];
                        }
                        columns_equal(&runs, &want, &bools)
                    })
                    .collect()
            })
            .collect();
        // columns worth changing: witnesses and the challenge / hash publics
        let pool: Vec<usize> = used.iter().copied().filter(|c| *c > 2).collect();
        let layout = Layout { secrets };
        let pins = Pins::new(&sys, &layout, &runs);
        Ok(Map { sys, layout, ybits, df: base.df, hash: base.hash, pool, pins })
    };
    if c.failed() {
        return;
    }
    let maps: Vec<Result<Map, String>> = (1..=2).map(|k| make_map(k, 64)).collect();
    let maps = &maps;
    c.explore(
        "alias",
        "the bits of y replaced by those of y + (field order), which is the same field element but has other low bits; the rest adjusted by the repair search; non-trivial: the bit columns were located",
        c.n(60, 600),
        || (any::<u64>(), 1usize..=2, any::<u8>()).boxed(),
        |(seed, k, which): &(u64, usize, u8), o: &mut Obs| alias(maps[*k - 1].as_ref().map_err(|e| e.clone())?, *seed, *which as usize, None, 1, o),
    );
    let small: Vec<u64> = (0..8).chain([16, 255, 256, 65535, 65536, (1 << 20) - 1, 1 << 20, (1 << 31) - 1, (1 << 32) - 3, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, u64::MAX / 2, u64::MAX]).collect();
    c.enumerate(
        "alias, edge values",
        "the same for statements whose delay value is small or a power of two, where y + r and y + 2r have most bits of r or 2r; non-trivial: the bit columns were located",
        (1u32..=2).flat_map(|times| (0..small.len() + 64).map(move |i| (times, i))).collect(),
        |(times, i): &(u32, usize), o: &mut Obs| {
            let y = match small.get(*i) {
                Some(y) => Fr::from(*y),
                // below a tenth of the order, so that y + 2r fits
                None => Fr::from(2u64).pow([(*i - small.len()) as u64 * 4 - if *i == small.len() { 0 } else { 1 }]),
            };
            alias(maps[*i % 2].as_ref().map_err(|e| e.clone())?, *i as u64 * 31 + *times as u64, *i / 2, Some(y), *times, o)
        },
    );
    // the shipped number of responses
    let last = make_map(50, 44);
    let last = &last;
    c.enumerate(
        "alias, each of 50 responses",
        "the same for every response of the shipped number",
        (0..50usize).collect(),
        |i: &usize, o: &mut Obs| alias(last.as_ref().map_err(|e| e.clone())?, *i as u64 + 7, *i, None, 1, o),
    );
    c.enumerate(
        "satisfied iff true, each of 50 responses",
        "one of 50 challenges changed (a low bit; beyond 2^N): never satisfied; non-trivial: always",
        (0..100usize).collect(),
        |i: &usize, o: &mut Obs| {
            o.nontrivial();
            let mut p = Prng(*i as u64 + 91);
            let s = Space::random(&mut p, 50);
            let mut yn = s.yns();
            let j = *i % 50;
            if *i < 50 {
                yn[j] = Fr::from(low_bits(&yn[j], N) as u64 ^ (1 << p.below(N as u64)));
            } else {
                yn[j] += Fr::from(1u64 << (N as u64 + p.below(40)));
            }
            let f = s.synth(&yn, s.hash())?;
            if f.sys.sat(&f.z) {
                return Err(format!("the constraint system is satisfied although challenge {} of 50 is not the one of its response", j));
            }
            Ok(())
        },
    );
    c.explore(
        "forged assignment",
        "one or two columns (internal values, bits, challenges, hash) of a true statement changed and kept, the rest adjusted by the repair search; non-trivial: the secret columns were located",
        c.n(1200, 20000),
        || forge_case(2),
        |v: &ForgeCase, o: &mut Obs| {
            let map = maps[v.k - 1].as_ref().map_err(|e| e.clone())?;
            let mut s = Space::random(&mut Prng(v.seed), v.k);
            s.df = map.df.clone();
            s.hash = map.hash.clone();
            let f = s.honest()?;
            o.nontrivial_if(map.layout.secrets.iter().all(|x| !x.is_empty()));
            let frozen: BTreeSet<usize> = [1usize, 2].into_iter().collect();
            forge(&map.sys, &f.z, v, &map.pool, &frozen, o, &|w| {
                some_reading(&map.layout, w, &|xs| pospace_relation(&w[..map.sys.ninst], xs, &map.df, &map.hash))
            })
        },
    );
    c.explore("pinned values", PINNED, c.n(1200, 20000), || pin_case(2), |v: &PinCase, o: &mut Obs| {
        let map = maps[v.k - 1].as_ref().map_err(|e| e.clone())?;
        let mut s = Space::random(&mut Prng(v.seed), v.k);
        s.df = map.df.clone();
        s.hash = map.hash.clone();
        let f = s.honest()?;
        map.pins.attack(&map.sys, &f.z, v, o)
    });
}

// ---- C08 -----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Df3,
    Df5,
    Hash5,
    Hash7,
}

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![Just(Kind::Df3), Just(Kind::Df5), Just(Kind::Hash5), Just(Kind::Hash7)].boxed()
}

impl Kind {
    fn rounds(self) -> usize {
        match self {
            Kind::Df3 => MIMC3_DF_ROUNDS,
            Kind::Df5 => MIMC5_DF_ROUNDS,
            Kind::Hash5 => MIMC5_HASH_ROUNDS,
            Kind::Hash7 => MIMC7_HASH_ROUNDS,
        }
    }
    fn inputs(self, k: usize) -> usize {
        match self {
            Kind::Df3 | Kind::Df5 => 2,
            _ => k + 1,
        }
    }
    /// `ins` = (xl, xr) or (key, x_1, ..)
    fn synth(self, ins: &[Fr], c: &[Fr], setup: bool) -> Result<Filled, String> {
        let v = |i: usize| if setup { None } else { Some(ins[i]) };
        let xs: Vec<Option<Fr>> = (1..ins.len()).map(v).collect();
        match self {
            Kind::Df3 => synth(MiMC3DFDemo::verif_new(v(0), v(1), c), setup),
            Kind::Df5 => synth(MiMC5DFDemo::verif_new(v(0), v(1), c), setup),
            Kind::Hash5 => synth(MiMC5HashDemo::verif_new(&xs, v(0), c), setup),
            Kind::Hash7 => synth(MiMC7HashDemo::verif_new(&xs, v(0), c), setup),
        }
    }
    fn value(self, ins: &[Fr], c: &[Fr]) -> Fr {
        match self {
            Kind::Df3 => ref_df(ins[0], ins[1], c, 3),
            Kind::Df5 => ref_df(ins[0], ins[1], c, 5),
            Kind::Hash5 => ref_multi(&ins[1..], ins[0], c, 5),
            Kind::Hash7 => ref_multi(&ins[1..], ins[0], c, 7),
        }
    }
    fn honest(self, ins: &[Fr], c: &[Fr]) -> Result<Filled, String> {
        let f = self.synth(ins, c, false)?;
        if f.sys.ninst != 2 {
            return Err(format!("{} public inputs instead of one", f.sys.ninst - 1));
        }
        if f.z[1] != self.value(ins, c) {
            return Err("the public input is not the function's value".into());
        }
        if let Some(i) = f.sys.unsat(&f.z) {
            return Err(format!("constraint {} is violated by an honest preimage", i));
        }
        Ok(f)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MimcCase {
    kind: Kind,
    ins: Vec<Fe>,
    c: Consts,
    change: Change,
}

pub fn c08(c: &mut Check) {
    c.explore(
        "value",
        "four circuits, edge-biased preimages and constants, 1..8, sometimes up to 59 hash inputs: satisfied with exactly the function's value as the public input and with no replacement of it; non-trivial: always",
        c.n(1200, 12000),
        || {
            (kind(), prop_oneof![6 => prop::collection::vec(fe(), 2..=9), 1 => prop::collection::vec(fe(), 10..=60)], consts(), change())
                .prop_map(|(kind, mut ins, c, change)| {
                    if matches!(kind, Kind::Df3 | Kind::Df5) {
                        ins.truncate(2);
                    }
                    MimcCase { kind, ins, c, change }
                })
                .boxed()
        },
        |v: &MimcCase, o: &mut Obs| {
            o.nontrivial();
            o.label(format!("{:?}", v.kind));
            let ins: Vec<Fr> = v.ins.iter().map(|x| x.fr()).collect();
            let cs: Vec<Fr> = v.c.get(v.kind.rounds());
            let f = v.kind.honest(&ins, &cs)?;
            // the function of the repository agrees (it is what the circuit is about)
            let xs = ins[1..].to_vec();
            let own = match v.kind {
                Kind::Df3 => mimc3_df(ins[0], ins[1], &cs),
                Kind::Df5 => mimc5_df(ins[0], ins[1], &cs),
                Kind::Hash5 => multi_mimc5_hash(&xs, ins[0], &cs),
                Kind::Hash7 => multi_mimc7_hash(&xs, ins[0], &cs),
            };
            if own != f.z[1] {
                return Err("circuit and function disagree".into());
            }
            let mut z = f.z.clone();
            z[1] = v.change.of(z[1]);
            if f.sys.sat(&z) {
                return Err("still satisfied after replacing the public input".into());
            }
            Ok(())
        },
    );
    c.explore(
        "same constraints",
        "matrices of parameter generation and of two preimages compared, the second sometimes one that makes some intermediate value zero or equal to another; non-trivial: always",
        c.n(600, 6000),
        || (kind(), any::<u64>(), prop_oneof![4 => 1usize..=6, 1 => 7usize..=50], 0u8..8).boxed(),
        |(kind, seed, k, edge): &(Kind, u64, usize, u8), o: &mut Obs| {
            o.nontrivial();
            let mut p = Prng(*seed);
            let cs: Vec<Fr> = (0..kind.rounds()).map(|_| rnd(&mut p)).collect();
            let n = kind.inputs(*k);
            let a: Vec<Fr> = (0..n).map(|_| rnd(&mut p)).collect();
            let mut b: Vec<Fr> = (0..n).map(|_| rnd(&mut p)).collect();
            let j = p.below(n as u64) as usize;
            let hash = matches!(kind, Kind::Hash5 | Kind::Hash7);
            match edge {
                0 => b = vec![Fr::zero(); n],
                1 => b[j] = Fr::zero(),
                2 => b = vec![b[0]; n],
                3 if hash => b[1] = -b[0],
                3 => b[1] = -b[0] - cs[0],
                4 if hash => b[1] = -b[0] - cs[0],
                4 => b[0] = -cs[0],
                5 if !hash => {
                    let r = p.below(kind.rounds() as u64) as usize;
                    let e = if *kind == Kind::Df3 { 3 } else { 5 };
                    let minus = p.below(2) == 1;
                    let (xl, xr) = ref_df_back(r, &cs, e, minus, &mut p);
                    b = vec![xl, xr];
                }
                5 => {
                    // the key of the fold step j is zero
                    if n > 2 {
                        let e = if *kind == Kind::Hash5 { 5 } else { 7 };
                        let part = ref_multi(&b[1..n - 1], b[0], &cs, e);
                        b[n - 1] = -part;
                    }
                }
                _ => {}
            }
            o.label(format!("preimage {}", edge));
            let f = kind.synth(&a, &cs, false)?;
            for (g, what) in [(kind.synth(&a, &cs, true)?, "parameter generation and proving disagree"), (kind.synth(&b, &cs, false)?, "the constraints depend on the preimage")] {
                if let Some(d) = f.sys.diff(&g.sys) {
                    return Err(format!("{:?}: {}: {}", kind, what, d));
                }
            }
            Ok(())
        },
    );
    c.explore(
        "freedom",
        "random preimages: the first-order freedom of all internal values and the public input equals the number of inputs (2, or key plus hash inputs); non-trivial: always",
        c.n(240, 3000),
        || (kind(), any::<u64>(), prop_oneof![40 => 1usize..=5, 10 => 6usize..=20, 2 => 21usize..=120]).boxed(),
        |(kind, seed, k): &(Kind, u64, usize), o: &mut Obs| {
            o.nontrivial();
            o.label(format!("{:?}", kind));
            let mut p = Prng(*seed);
            let cs: Vec<Fr> = (0..kind.rounds()).map(|_| rnd(&mut p)).collect();
            let n = kind.inputs(*k);
            let ins: Vec<Fr> = (0..n).map(|_| rnd(&mut p)).collect();
            let f = kind.honest(&ins, &cs)?;
            let (dim, _) = f.sys.freedom(&f.z, &BTreeSet::new());
            if dim > n {
                return Err(format!("{:?} with {} inputs: {} internal values can be chosen freely", kind, n, dim));
            }
            if dim < n {
                return Err(format!("{:?} with {} inputs: only {} degrees of freedom, so some preimages are excluded", kind, n, dim));
            }
            Ok(())
        },
    );
    if c.failed() {
        return;
    }
    struct Map {
        sys: Sys,
        cs: Vec<Fr>,
        layout: Layout,
        pool: Vec<usize>,
        pins: Pins,
    }
    let make = |kind: Kind, k: usize| -> Result<Map, String> {
        let mut p = Prng(99 + k as u64);
        let cs: Vec<Fr> = (0..kind.rounds()).map(|_| rnd(&mut p)).collect();
        let n = kind.inputs(k);
        let mut runs = vec![];
        let mut ins: Vec<Vec<Fr>> = vec![vec![]; n];
        let mut sys = None;
        for _ in 0..4 {
            let a: Vec<Fr> = (0..n).map(|_| rnd(&mut p)).collect();
            let f = kind.honest(&a, &cs)?;
            (0..n).for_each(|i| ins[i].push(a[i]));
            runs.push(f.z);
            sys = Some(f.sys);
        }
        let sys = sys.unwrap();
        let used: BTreeSet<usize> = sys.used().into_iter().filter(|c| *c >= 1).collect();
        let secrets = ins.iter().map(|w| columns_equal(&runs, w, &used)).collect();
        let layout = Layout { secrets };
        let pins = Pins::new(&sys, &layout, &runs);
        Ok(Map { pool: used.iter().copied().collect(), sys, cs, layout, pins })
    };
    let kinds = [Kind::Df3, Kind::Df5, Kind::Hash5, Kind::Hash7];
    let maps: Vec<Vec<Result<Map, String>>> = kinds.iter().map(|kd| (1..=3).map(|k| make(*kd, k)).collect()).collect();
    let maps = &maps;
    c.explore(
        "forged assignment",
        "one or two columns of an honest assignment changed and kept, the rest adjusted by the repair search; the public input must remain the function of the inputs held; non-trivial: the input columns were located",
        c.n(1600, 20000),
        || (kind(), forge_case(3)).boxed(),
        |(kind, v): &(Kind, ForgeCase), o: &mut Obs| {
            let ki = kinds.iter().position(|x| x == kind).unwrap();
            let map = maps[ki][v.k - 1].as_ref().map_err(|e| e.clone())?;
            let mut p = Prng(v.seed);
            let ins: Vec<Fr> = (0..kind.inputs(v.k)).map(|_| rnd(&mut p)).collect();
            let f = kind.honest(&ins, &map.cs)?;
            o.nontrivial_if(map.layout.secrets.iter().all(|x| !x.is_empty()));
            forge(&map.sys, &f.z, v, &map.pool, &BTreeSet::new(), o, &|w| {
                some_reading(&map.layout, w, &|ins| kind.value(ins, &map.cs) == w[1])
            })
        },
    );
    c.explore("pinned values", PINNED, c.n(1600, 20000), || (kind(), pin_case(3)).boxed(), |(kind, v): &(Kind, PinCase), o: &mut Obs| {
        let ki = kinds.iter().position(|x| x == kind).unwrap();
        let map = maps[ki][v.k - 1].as_ref().map_err(|e| e.clone())?;
        let mut p = Prng(v.seed);
        let ins: Vec<Fr> = (0..kind.inputs(v.k)).map(|_| rnd(&mut p)).collect();
        let f = kind.honest(&ins, &map.cs)?;
        map.pins.attack(&map.sys, &f.z, v, o)
    });
}

// ---- C09 -----------------------------------------------------------------------------------

const EQ_BITS: usize = 256;
const POW_BITS: usize = 20;

fn eq_synth(x1: Fr, x2: Fr, bits: &[bool], d: usize) -> Result<Filled, String> {
    let b: Vec<Option<u8>> = bits.iter().map(|b| Some(*b as u8)).collect();
    synth(EqualDemo::<Fr> { x1: Some(x1), x2: Some(x2), x_bits: &b, difficulty: d }, false)
}

fn eq_relation(x1: Fr, x2: Fr, bits: &[bool], d: usize) -> bool {
    let v = to_big(&x2);
    bits == &bits_of(&v, EQ_BITS)[..] && x1 == low_number(&v, d)
}

fn low_number(v: &BigUint, d: usize) -> Fr {
    let mut w = BigUint::from(0u32);
    for i in 0..d as u64 {
        w.set_bit(i, v.bit(i));
    }
    from_big(&w)
}

fn pow_synth(g: Fr, bits: &[bool]) -> Result<Filled, String> {
    let b: Vec<Option<u8>> = bits.iter().map(|b| Some(*b as u8)).collect();
    synth(PowDemo::<Fr> { g: Some(g), x_bits: &b }, false)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum EqChange {
    None,
    Flip(Vec<u8>),
    Alias,
    X1(Change),
    X2(Change),
    Shift(bool),
    /// x1 taken for another difficulty
    Difficulty(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EqCase {
    x2: Fe,
    difficulty: usize,
    change: EqChange,
}

fn difficulty() -> BoxedStrategy<usize> {
    prop_oneof![6 => 1usize..=256, 1 => Just(1usize), 1 => 253usize..=256, 1 => Just(8usize)].boxed()
}

pub fn c09(c: &mut Check) {
    c.explore(
        "equality",
        "x2 edge-biased, difficulty 1..256, statement true or changed (bits flipped, bits of x2 + r, other x1 or x2, shifted bits, x1 of another difficulty); satisfaction compared with the relation; non-trivial: x2 not zero",
        c.n(6000, 80000),
        || {
            let ch = prop_oneof![
                3 => Just(EqChange::None),
                2 => prop::collection::vec(any::<u8>(), 1..3).prop_map(EqChange::Flip),
                2 => Just(EqChange::Alias),
                2 => change().prop_map(EqChange::X1),
                1 => change().prop_map(EqChange::X2),
                1 => any::<bool>().prop_map(EqChange::Shift),
                2 => any::<u8>().prop_map(EqChange::Difficulty),
            ];
            (fe(), difficulty(), ch).prop_map(|(x2, difficulty, change)| EqCase { x2, difficulty, change }).boxed()
        },
        |v: &EqCase, o: &mut Obs| {
            let d = v.difficulty;
            let big = to_big(&v.x2.fr());
            let mut bits = bits_of(&big, EQ_BITS);
            let mut x2 = v.x2.fr();
            let mut x1 = low_number(&big, d);
            match &v.change {
                EqChange::None => o.label("true"),
                EqChange::Flip(f) => {
                    for b in f {
                        bits[*b as usize] ^= true;
                    }
                    o.label("flip")
                }
                EqChange::Alias => {
                    let a = big.clone() + modulus::<Fr>();
                    bits = bits_of(&a, EQ_BITS);
                    x1 = low_number(&a, d);
                    o.label("alias")
                }
                EqChange::X1(c) => x1 = c.of(x1),
                EqChange::X2(c) => x2 = c.of(x2),
                EqChange::Shift(l) => {
                    if *l {
                        bits.rotate_left(1)
                    } else {
                        bits.rotate_right(1)
                    }
                }
                EqChange::Difficulty(k) => x1 = low_number(&big, 1 + *k as usize),
            }
            o.nontrivial_if(!x2.is_zero());
            let f = eq_synth(x1, x2, &bits, d)?;
            if f.z[..f.sys.ninst] != [Fr::one(), x1, x2] {
                return Err("the public inputs are not (x1, x2)".into());
            }
            let (sat, rel) = (f.sys.sat(&f.z), eq_relation(x1, x2, &bits, d));
            o.label(if rel { "relation holds" } else { "relation does not hold" });
            if sat != rel {
                return Err(format!("difficulty {}: the constraint system is {}satisfied although the statement is {}", d, if sat { "" } else { "not " }, rel));
            }
            if rel {
                // replacing a public input must break it
                for (p, w) in [(1, x1 + Fr::one()), (2, x2 + Fr::one()), (1, Fr::zero()), (2, -x2)] {
                    if f.z[p] != w {
                        let mut z = f.z.clone();
                        z[p] = w;
                        if f.sys.sat(&z) {
                            return Err(format!("still satisfied after replacing public input {}", p));
                        }
                    }
                }
            }
            Ok(())
        },
    );
    c.explore(
        "power",
        "g edge-biased, 20-bit exponents: satisfied with g^x as the single public input and no other; non-trivial: exponent not zero",
        c.n(6000, 80000),
        || {
            let e = prop_oneof![4 => 0u32..(1 << POW_BITS), 1 => 0u32..4, 1 => Just((1u32 << POW_BITS) - 1), 2 => (0u32..POW_BITS as u32).prop_map(|k| 1 << k)];
            (fe(), e, change()).boxed()
        },
        |(g, e, ch): &(Fe, u32, Change), o: &mut Obs| {
            let g = g.fr();
            o.nontrivial_if(*e != 0);
            o.label_if(g.is_zero(), "g = 0");
            let bits: Vec<bool> = (0..POW_BITS).map(|i| (e >> i) & 1 == 1).collect();
            let f = pow_synth(g, &bits)?;
            if f.z[..f.sys.ninst] != [Fr::one(), g.pow([*e as u64])] {
                return Err("the single public input is not g^x".into());
            }
            if let Some(i) = f.sys.unsat(&f.z) {
                return Err(format!("constraint {} is violated by an honest exponentiation", i));
            }
            let mut z = f.z.clone();
            z[1] = ch.of(z[1]);
            if f.sys.sat(&z) {
                return Err("still satisfied after replacing the public input".into());
            }
            Ok(())
        },
    );
    c.explore(
        "same constraints",
        "matrices of parameter generation and of two witnesses compared, for every difficulty; non-trivial: always",
        c.n(300, 3000),
        || (any::<bool>(), difficulty(), any::<u64>()).boxed(),
        |(eq, d, seed): &(bool, usize, u64), o: &mut Obs| {
            o.nontrivial();
            let mut p = Prng(*seed);
            let (f, g, h) = if *eq {
                let (x, y) = (rnd(&mut p), rnd(&mut p));
                let none = vec![None; EQ_BITS];
                (
                    eq_synth(x, x, &bits_of(&to_big(&x), EQ_BITS), *d)?,
                    synth(EqualDemo::<Fr> { x1: None, x2: None, x_bits: &none, difficulty: *d }, true)?,
                    eq_synth(y, x, &vec![true; EQ_BITS], *d)?,
                )
            } else {
                let none = vec![None; POW_BITS];
                let b: Vec<bool> = (0..POW_BITS).map(|_| p.below(2) == 1).collect();
                (
                    pow_synth(rnd(&mut p), &b)?,
                    synth(PowDemo::<Fr> { g: None, x_bits: &none }, true)?,
                    pow_synth(Fr::zero(), &vec![false; POW_BITS])?,
                )
            };
            if let Some(d) = f.sys.diff(&g.sys) {
                return Err(format!("parameter generation and proving disagree: {}", d));
            }
            if let Some(d) = f.sys.diff(&h.sys) {
                return Err(format!("the constraints depend on the witness: {}", d));
            }
            Ok(())
        },
    );
    c.explore(
        "freedom",
        "first-order freedom of all values: 0 for the equality circuit, 1 (the base) for the power circuit; non-trivial: always",
        c.n(600, 6000),
        || (any::<bool>(), difficulty(), any::<u64>()).boxed(),
        |(eq, d, seed): &(bool, usize, u64), o: &mut Obs| {
            o.nontrivial();
            let mut p = Prng(*seed);
            let x = rnd(&mut p);
            let (f, want) = if *eq {
                let big = to_big(&x);
                (eq_synth(low_number(&big, *d), x, &bits_of(&big, EQ_BITS), *d)?, 0)
            } else {
                let b: Vec<bool> = (0..POW_BITS).map(|_| p.below(2) == 1).collect();
                (pow_synth(x, &b)?, 1)
            };
            let (dim, _) = f.sys.freedom(&f.z, &BTreeSet::new());
            if dim > want {
                return Err(format!("{} circuit: {} internal values can be chosen freely", if *eq { "equality" } else { "power" }, dim - want));
            }
            if dim < want {
                return Err("power circuit: the base is not free".into());
            }
            Ok(())
        },
    );
    if c.failed() {
        return;
    }
    // forged assignments
    struct Map {
        sys: Sys,
        pool: Vec<usize>,
        layout: Layout,
        pins: Pins,
    }
    let pow_map = || -> Result<Map, String> {
        let mut p = Prng(5);
        let (mut runs, mut gs, mut bs) = (vec![], vec![], vec![vec![]; POW_BITS]);
        let mut sys = None;
        for _ in 0..64 {
            let g = rnd(&mut p);
            let b: Vec<bool> = (0..POW_BITS).map(|_| p.below(2) == 1).collect();
            let f = pow_synth(g, &b)?;
            runs.push(f.z);
            gs.push(g);
            (0..POW_BITS).for_each(|i| bs[i].push(f_bool(b[i])));
            sys = Some(f.sys);
        }
        let sys = sys.unwrap();
        let used: BTreeSet<usize> = sys.used().into_iter().filter(|c| *c >= 1).collect();
        let mut secrets = vec![columns_equal(&runs, &gs, &used)];
        for b in &bs {
            secrets.push(columns_equal(&runs, b, &used));
        }
        let layout = Layout { secrets };
        let pins = Pins::new(&sys, &layout, &runs);
        Ok(Map { pool: used.iter().copied().collect(), sys, layout, pins })
    };
    let pm = &pow_map();
    c.explore(
        "forged power",
        "one or two columns of an honest assignment changed and kept, the rest adjusted by the repair search; the public input must remain base^exponent of the values held and the exponent columns bits; non-trivial: base and exponent columns located",
        c.n(2000, 30000),
        || forge_case(1),
        |v: &ForgeCase, o: &mut Obs| {
            let map = pm.as_ref().map_err(|e| e.clone())?;
            let mut p = Prng(v.seed);
            let g = rnd(&mut p);
            let b: Vec<bool> = (0..POW_BITS).map(|_| p.below(2) == 1).collect();
            let f = pow_synth(g, &b)?;
            o.nontrivial_if(map.layout.secrets.iter().all(|x| !x.is_empty()));
            forge(&map.sys, &f.z, v, &map.pool, &BTreeSet::new(), o, &|w| {
                some_reading(&map.layout, w, &|s| {
                    let mut e = 0u64;
                    for (i, b) in s[1..].iter().enumerate() {
                        if b.is_one() {
                            e |= 1 << i;
                        } else if !b.is_zero() {
                            return false;
                        }
                    }
                    s[0].pow([e]) == w[1]
                })
            })
        },
    );
    c.explore(
        "forged equality",
        "one or two columns (bits, internal values, x1, x2) changed and kept, the rest adjusted; x1 must remain the low bits of x2; non-trivial: always",
        c.n(1200, 20000),
        || (difficulty(), forge_case(1)).boxed(),
        |(d, v): &(usize, ForgeCase), o: &mut Obs| {
            o.nontrivial();
            let mut p = Prng(v.seed);
            let x = rnd(&mut p);
            let big = to_big(&x);
            let f = eq_synth(low_number(&big, *d), x, &bits_of(&big, EQ_BITS), *d)?;
            if let Some(i) = f.sys.unsat(&f.z) {
                return Err(format!("constraint {} is violated by a true statement", i));
            }
            let pool: Vec<usize> = f.sys.used().into_iter().filter(|c| *c >= 1).collect();
            forge(&f.sys, &f.z, v, &pool, &BTreeSet::new(), o, &|w| w[1] == low_number(&to_big(&w[2]), *d))
        },
    );
    c.explore("pinned power", PINNED, c.n(2000, 20000), || pin_case(1), |v: &PinCase, o: &mut Obs| {
        let map = pm.as_ref().map_err(|e| e.clone())?;
        let mut p = Prng(v.seed);
        let g = rnd(&mut p);
        let b: Vec<bool> = (0..POW_BITS).map(|_| p.below(2) == 1).collect();
        let f = pow_synth(g, &b)?;
        map.pins.attack(&map.sys, &f.z, v, o)
    });
    c.explore(
        "pinned equality",
        "the same with x1 and x2 kept and bits or internal values changed; non-trivial: always",
        c.n(800, 20000),
        || (difficulty(), pin_case(1)).boxed(),
        |(d, v): &(usize, PinCase), o: &mut Obs| {
            let mut p = Prng(v.seed);
            let mut runs = vec![];
            let mut sys = None;
            for _ in 0..4 {
                let x = rnd(&mut p);
                let big = to_big(&x);
                let f = eq_synth(low_number(&big, *d), x, &bits_of(&big, EQ_BITS), *d)?;
                runs.push(f.z);
                sys = Some(f.sys);
            }
            let sys = sys.unwrap();
            let mut pins = Pins::new(&sys, &Layout { secrets: vec![] }, &runs);
            // four values of a bit may agree by chance
            pins.constant = pins.constant.difference(&pins.bools).copied().collect();
            pins.attack(&sys, &runs[3], v, o)
        },
    );
    let _ = <Fr as PrimeField>::BigInt::default().num_bits();
}
