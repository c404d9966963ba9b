//! C11 (delay permutation), C12 (unit encoding and modular mixing).
use crate::gen::*;
use num_bigint::{BigInt, Sign};
use pbt::{Check, Obs, Prng};
use proptest::prelude::*;
use rug::integer::{IsPrime, Order};
use rug::Integer;
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use storage_crate::proof_of_storage::common::{modadd, modsub};
use storage_crate::vde::compare_modpow::fast_modpow;
use storage_crate::vde::{compare_modpow, rug_sloth, rug_vde, sloth as num_sloth};

fn big(x: &Integer) -> BigInt {
    BigInt::from_str(&x.to_string()).unwrap()
}
fn back(x: &BigInt) -> Integer {
    Integer::from_str(&x.to_string()).unwrap()
}

/// A number in [0, p).
#[derive(Clone, Debug, Serialize, Deserialize)]
enum X {
    Random(u64),
    Small(u32),
    FromTop(u32),
    Half(i8),
    Square(u64),
    Pow2(u16),
    TopZero(u64, u16),
    /// an odd number of at most the given number of bits, shifted left
    Shifted(u64, u16, u16),
    /// p / d plus a little: p mod x is small
    Quotient(u32, i8),
    /// a few set bits
    Sparse(Vec<u16>),
    /// the negative of another one
    Minus(Box<X>),
}

impl X {
    fn get(&self, p: &Integer) -> Integer {
        let r = |s: u64| Integer::from_digits(&Prng(s).bytes(p.significant_bits() as usize / 8 + 9), Order::Lsf) % p;
        let x = match self {
            X::Random(s) => r(*s),
            X::Small(k) => Integer::from(*k),
            X::FromTop(k) => Integer::from(p - 1) - *k,
            X::Half(d) => Integer::from(p / 2u32) + *d as i32,
            X::Square(s) => {
                let q = r(*s);
                Integer::from(&q * &q)
            }
            X::Pow2(k) => Integer::from(1) << (*k as u32 % p.significant_bits()),
            X::TopZero(s, k) => r(*s) >> (*k as u32 % p.significant_bits()),
            X::Shifted(s, b, k) => {
                let k = *k as u32 % p.significant_bits();
                let mut m = r(*s);
                m.keep_bits_mut((*b as u32).min(p.significant_bits() - k));
                m.set_bit(0, true);
                m << k
            }
            X::Quotient(d, o) => Integer::from(p / (*d).max(1)) + *o as i32,
            X::Sparse(v) => {
                let mut m = Integer::new();
                v.iter().for_each(|k| {
                    m.set_bit(*k as u32 % p.significant_bits(), true);
                });
                m
            }
            X::Minus(x) => Integer::from(p - x.get(p)),
        };
        (x % p + p) % p
    }
}

fn x() -> BoxedStrategy<X> {
    prop_oneof![9 => plain_x(), 1 => plain_x().prop_map(|x| X::Minus(Box::new(x)))].boxed()
}

fn plain_x() -> BoxedStrategy<X> {
    prop_oneof![
        2 => (any::<u64>(), prop_oneof![1u16..12, 1u16..300], any::<u16>()).prop_map(|(s, b, k)| X::Shifted(s, b, k)),
        1 => (prop_oneof![1u32..12, any::<u32>()], -3i8..4).prop_map(|(d, o)| X::Quotient(d, o)),
        1 => proptest::collection::vec(any::<u16>(), 1..5).prop_map(X::Sparse),
        6 => any::<u64>().prop_map(X::Random),
        2 => (0u32..5).prop_map(X::Small),
        1 => any::<u32>().prop_map(X::Small),
        2 => (0u32..5).prop_map(X::FromTop),
        1 => (-3i8..4).prop_map(X::Half),
        1 => any::<u64>().prop_map(X::Square),
        1 => any::<u16>().prop_map(X::Pow2),
        1 => (any::<u64>(), any::<u16>()).prop_map(|(a, b)| X::TopZero(a, b)),
    ]
    .boxed()
}

fn check_round(x: &Integer, p: &Integer) -> Result<Integer, String> {
    let want = ref_round(x, p);
    let y = rug_sloth::single_sloth(x, p);
    if y != want {
        return Err(format!("one round of {} mod {} is {} instead of {}", x, p, y, want));
    }
    let (bx, bp) = (big(x), big(p));
    let y2 = num_sloth::single_sloth(&bx, &bp);
    if back(&y2) != want {
        return Err(format!("num-bigint: one round of {} mod {} is {} instead of {}", x, p, y2, want));
    }
    if rug_sloth::single_sloth_inv(&want, p) != *x {
        return Err(format!("undoing one round does not return {} mod {}", x, p));
    }
    if num_sloth::single_sloth_inv(&big(&want), &bp) != bx {
        return Err(format!("num-bigint: undoing one round does not return {} mod {}", x, p));
    }
    Ok(want)
}

fn check_legendre(x: &Integer, p: &Integer) -> Result<(), String> {
    let e = if *x == 0 {
        0
    } else if x.clone().pow_mod(&(Integer::from(p - 1) >> 1), p).unwrap() == 1 {
        1
    } else {
        -1
    };
    let a = rug_sloth::legendre(x.clone(), p);
    let b = num_sloth::legendre(big(x), &big(p));
    if a != e || b != BigInt::from(e) {
        return Err(format!("residue symbol of {} mod {}: {} and {} instead of {}", x, p, a, b, e));
    }
    Ok(())
}

fn small_primes(hi: u32) -> Vec<u32> {
    (3..hi).filter(|n| (2..).take_while(|d| d * d <= *n).all(|d| n % d != 0)).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    /// (bits, which): bits 0 means the built-in modulus number `which`
    p: (u16, u8),
    x: X,
    t: usize,
    u: usize,
}

fn builtin(k: u8) -> Integer {
    use rug_sloth::*;
    Integer::from_str([P_64, P_128, P_256, P_512, P_1024, P_2048][k as usize % 6]).unwrap()
}

impl Big {
    fn p(&self) -> Integer {
        match self.p {
            (0, k) => builtin(k),
            (b, k) => prime(b as u32, k),
        }
    }
}

pub fn c11(c: &mut Check) {
    let hi = c.n(700, 2500) as u32;
    c.enumerate(
        "small moduli",
        "every prime = 3 mod 4 below the bound, every x: one round against the reference in both libraries, inverse, permutation; several rounds; non-trivial: always",
        small_primes(hi).into_iter().filter(|p| p % 4 == 3).collect::<Vec<u32>>(),
        |p: &u32, o: &mut Obs| {
            o.nontrivial();
            let pi = Integer::from(*p);
            let mut seen = vec![false; *p as usize];
            let mut table = vec![];
            for x in 0..*p {
                let y = check_round(&Integer::from(x), &pi)?;
                let k = y.to_u32().filter(|k| k < p).ok_or_else(|| format!("round of {} leaves [0, {})", x, p))?;
                if std::mem::replace(&mut seen[k as usize], true) {
                    return Err(format!("two numbers are mapped to {} mod {}", k, p));
                }
                table.push(k);
                o.steps += 1;
            }
            for x in [0, 1, p / 2, p - 1] {
                for t in [0usize, 2, 3, 7] {
                    let mut want = x;
                    for _ in 0..t {
                        want = table[want as usize];
                    }
                    let y = rug_sloth::sloth(&Integer::from(x), &pi, t);
                    let z = num_sloth::sloth(&BigInt::from(x), &BigInt::from(*p), t);
                    if y != want || z != BigInt::from(want) {
                        return Err(format!("{} rounds of {} mod {} are {} / {} instead of {}", t, x, p, y, z, want));
                    }
                    if rug_sloth::sloth_inv(&y, &pi, t) != x || num_sloth::sloth_inv(&z, &BigInt::from(*p), t) != BigInt::from(x) {
                        return Err(format!("undoing {} rounds does not return {} mod {}", t, x, p));
                    }
                    // undo first, then redo
                    let w = rug_sloth::sloth_inv(&Integer::from(x), &pi, t);
                    if w < 0 || w >= pi || rug_sloth::sloth(&w, &pi, t) != x {
                        return Err(format!("undoing and redoing {} rounds does not return {} mod {}", t, x, p));
                    }
                }
            }
            Ok(())
        },
    );
    let hi2 = c.n(400, 1500) as u32;
    c.enumerate(
        "residue symbol, small",
        "every odd prime below the bound, every x, against Euler's criterion; non-trivial: always",
        small_primes(hi2),
        |p: &u32, o: &mut Obs| {
            o.nontrivial();
            for x in 0..*p {
                check_legendre(&Integer::from(x), &Integer::from(*p))?;
                o.steps += 1;
            }
            Ok(())
        },
    );
    c.explore(
        "large moduli",
        "the built-in moduli and other primes = 3 mod 4 of 8..700 bits, edge-biased x, t and u rounds: reference, both libraries, inverse, composition; non-trivial: t + u > 0",
        c.n(3000, 40000),
        || {
            let p = prop_oneof![3 => (Just(0u16), 0u8..6), 3 => (8u16..200, 0u8..8), 1 => (200u16..700, 0u8..4)];
            (p, x(), 0usize..4, 0usize..3).prop_map(|(p, x, t, u)| Big { p, x, t, u }).boxed()
        },
        |v: &Big, o: &mut Obs| {
            let p = v.p();
            let x = v.x.get(&p);
            o.label(format!("{} bits", (p.significant_bits() + 63) / 64 * 64));
            o.label_if(x == 0, "x = 0");
            o.nontrivial_if(v.t + v.u > 0);
            check_round(&x, &p)?;
            check_legendre(&x, &p)?;
            let want = ref_sloth(&x, &p, v.t);
            let y = rug_sloth::sloth(&x, &p, v.t);
            if y != want {
                return Err(format!("{} rounds of {} mod {} are {} instead of {}", v.t, x, p, y, want));
            }
            if rug_sloth::sloth(&y, &p, v.u) != rug_sloth::sloth(&x, &p, v.t + v.u) {
                return Err(format!("{} + {} rounds of {} mod {} do not compose", v.t, v.u, x, p));
            }
            if rug_sloth::sloth_inv(&y, &p, v.t) != x {
                return Err(format!("undoing {} rounds does not return {} mod {}", v.t, x, p));
            }
            let w = rug_sloth::sloth_inv(&x, &p, v.t);
            if w < 0 || w >= p || ref_sloth(&w, &p, v.t) != x {
                return Err(format!("undoing {} rounds of {} mod {} gives {}, which does not lead back", v.t, x, p, w));
            }
            if p.significant_bits() <= 1100 {
                let (bx, bp) = (big(&x), big(&p));
                let z = num_sloth::sloth(&bx, &bp, v.t);
                if back(&z) != want || num_sloth::sloth_inv(&z, &bp, v.t) != bx || num_sloth::sloth_inv(&bx, &bp, v.t) != big(&w) {
                    return Err(format!("the two implementations disagree on {} rounds of {} mod {}", v.t, x, p));
                }
            }
            Ok(())
        },
    );
    c.explore(
        "many rounds",
        "primes of 8..130 bits, up to 3000 rounds (a few cases with around 65536, 131072, 262144 or more): reference, both libraries, inverse, composition; non-trivial: always",
        c.n(160, 1600),
        || {
            let t = prop_oneof![6 => (4usize..60, 4usize..60), 6 => (200usize..700, 0usize..300), 3 => (800usize..2000, 1usize..1000)];
            let few = (prop_oneof![3 => Just(65_530usize), 2 => Just(131_066usize), 1 => Just(262_138usize), 1 => 140_000usize..300_000], 1usize..20);
            prop_oneof![
                19 => ((8u16..130, 0u8..8), x(), t),
                1 => ((8u16..20, 0u8..8), x(), few),
            ]
            .prop_map(|(p, x, (t, u))| Big { p, x, t, u })
            .boxed()
        },
        |v: &Big, o: &mut Obs| {
            let p = v.p();
            let x = v.x.get(&p);
            o.nontrivial();
            o.label_if(v.t + v.u > 65536, "more than 65536 rounds");
            let (wt, all) = (ref_sloth(&x, &p, v.t), v.t + v.u);
            let want = ref_sloth(&wt, &p, v.u);
            let y = rug_sloth::sloth(&x, &p, all);
            if y != want {
                return Err(format!("{} rounds of {} mod {} are {} instead of {}", all, x, p, y, want));
            }
            if rug_sloth::sloth_inv(&y, &p, all) != x || rug_sloth::sloth_inv(&y, &p, v.u) != wt {
                return Err(format!("undoing {} or {} rounds of {} mod {}", all, v.u, x, p));
            }
            let (bx, bp) = (big(&x), big(&p));
            let z = num_sloth::sloth(&bx, &bp, all);
            if back(&z) != want || num_sloth::sloth_inv(&z, &bp, all) != bx {
                return Err(format!("the two implementations disagree on {} rounds of {} mod {}", all, x, p));
            }
            Ok(())
        },
    );
    c.explore(
        "residue symbol, large",
        "primes of 8..700 bits of either residue mod 4 and the built-in moduli, edge-biased x: Euler's criterion in both libraries; non-trivial: x > 1",
        c.n(3000, 40000),
        || {
            let p = prop_oneof![1 => (Just(0u16), 0u8..5), 4 => (8u16..300, 0u8..8), 1 => (300u16..700, 0u8..4)];
            (p, x(), any::<bool>()).prop_map(|(p, x, one)| (Big { p, x, t: 0, u: 0 }, one)).boxed()
        },
        |(v, one): &(Big, bool), o: &mut Obs| {
            let p = if *one && v.p.0 > 0 { prime1(v.p.0 as u32, v.p.1) } else { v.p() };
            let x = v.x.get(&p);
            o.nontrivial_if(x > 1);
            o.label(format!("p = {} mod 8", p.mod_u(8)));
            check_legendre(&x, &p)
        },
    );
    c.explore(
        "modular power",
        "square-and-multiply against the library's modular power; non-trivial: exponent > 1",
        c.n(2000, 20000),
        || (x(), (0u16..260, any::<u64>()), (2u16..300, any::<u64>())).boxed(),
        |(x, e, m): &(X, (u16, u64), (u16, u64)), o: &mut Obs| {
            let num = |(bits, s): &(u16, u64)| {
                let mut v = Integer::from_digits(&Prng(*s).bytes(48), Order::Lsf);
                v.keep_bits_mut(*bits as u32);
                v
            };
            let (e, m) = (num(e), num(m) + 2);
            let x = x.get(&m);
            o.nontrivial_if(e > 1);
            let got = fast_modpow(big(&x), big(&e), big(&m));
            let want = x.clone().pow_mod(&e, &m).unwrap();
            if back(&got) != want {
                return Err(format!("{}^{} mod {} is {} instead of {}", x, e, m, got, want));
            }
            Ok(())
        },
    );
    c.enumerate(
        "built-in moduli",
        "the published constants of the three modules; non-trivial: always",
        (0u8..6).collect::<Vec<u8>>(),
        |k: &u8, o: &mut Obs| {
            o.nontrivial();
            let i = *k as usize;
            let a = [rug_sloth::P_64, rug_sloth::P_128, rug_sloth::P_256, rug_sloth::P_512, rug_sloth::P_1024, rug_sloth::P_2048][i];
            let b = [num_sloth::P_64, num_sloth::P_128, num_sloth::P_256, num_sloth::P_512, num_sloth::P_1024, num_sloth::P_2048][i];
            let d = [compare_modpow::P_64, compare_modpow::P_128, compare_modpow::P_256, compare_modpow::P_512, compare_modpow::P_1024, compare_modpow::P_2048][i];
            for s in [a, b, d] {
                let p = Integer::from_str(s).map_err(|e| e.to_string())?;
                if p.is_probably_prime(40) == IsPrime::No || p.mod_u(4) != 3 || p.significant_bits() != 64 << i {
                    return Err(format!("{} is not a {}-bit prime = 3 mod 4", s, 64 << i));
                }
            }
            let _ = BigInt::from_bytes_le(Sign::Plus, &[1]);
            Ok(())
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unit {
    unit_pl: usize,
    key: Key,
    x: X,
    h: Hash,
    t: usize,
    /// mode "vde" instead of "sloth"
    vde: bool,
    /// how many bytes the unit is longer than the modulus
    longer: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hash {
    Random(u64),
    Fill(u8),
    Low(u8),
    /// p - unit, or the unit itself, plus a little (truncated to 32 bytes)
    Wrap(i8),
    Same(i8),
}

fn unit() -> BoxedStrategy<Unit> {
    let h = prop_oneof![
        4 => any::<u64>().prop_map(Hash::Random),
        1 => prop_oneof![Just(0u8), Just(255)].prop_map(Hash::Fill),
        1 => any::<u8>().prop_map(Hash::Low),
        1 => (-2i8..3).prop_map(Hash::Wrap),
        1 => (-2i8..3).prop_map(Hash::Same),
    ];
    // units near 0 and near p make the modular steps wrap around
    let x = prop_oneof![3 => x(), 1 => any::<u64>().prop_map(|s| X::TopZero(s, 300)), 1 => (0u32..1000).prop_map(X::FromTop)];
    (prop_oneof![4 => Just(64usize), 2 => Just(128), 1 => Just(256), 1 => Just(8), 1 => Just(16), 2 => Just(32), 1 => 9usize..70], key(), x, h, prop_oneof![12 => 0usize..4, 1 => 4usize..40, 1 => 250usize..520], prop_oneof![2 => Just(false), 1 => Just(true)], prop_oneof![5 => Just(0u8), 1 => 1u8..4, 1 => 4u8..100])
        .prop_map(|(unit_pl, key, x, h, t, vde, longer)| Unit { longer, unit_pl: if t > 100 { unit_pl.min(16) } else if t > 3 { unit_pl.min(64) } else { unit_pl }, key, x, h, t, vde })
        .boxed()
}

pub fn c12(c: &mut Check) {
    c.explore(
        "units",
        "moduli of 8 to 256 bytes, built-in and others, units of that length or up to 99 bytes longer, edge-biased units below p and 32-byte hashes incl. those that make the sums wrap; 0..3, sometimes up to 520 rounds, both modes; non-trivial: hash and unit not zero",
        c.n(6000, 80000),
        unit,
        |v: &Unit, o: &mut Obs| {
            let l = v.unit_pl + v.longer as usize;
            let p = v.key.get(v.unit_pl);
            let x = v.x.get(&p);
            o.label_if(v.longer > 0, "unit longer than the modulus");
            let low32 = |i: Integer| {
                let mut i = i;
                if i < 0 {
                    i = Integer::new();
                }
                i.keep_bits_mut(256);
                bytes(&i, 32)
            };
            let h = match &v.h {
                Hash::Random(s) => Prng(*s).bytes(32),
                Hash::Fill(b) => vec![*b; 32],
                Hash::Low(b) => {
                    let mut h = vec![0; 32];
                    h[0] = *b;
                    h
                }
                Hash::Wrap(d) => low32(Integer::from(&p - &x) + *d as i32),
                Hash::Same(d) => low32(x.clone() + *d as i32),
            };
            let u = bytes(&x, l);
            o.nontrivial_if(x != 0 && int(&h) != 0);
            o.label(format!("{} bytes", l));
            let sum = Integer::from(&x + int(&h));
            o.label_if(sum >= p, "sum wraps");
            o.label_if(x < int(&h), "difference wraps");
            o.label_if(sum == p || sum == 0, "sum = 0");
            let add = modadd(&u, &h, &p);
            if add != bytes(&Integer::from(&sum % &p), l) {
                return Err(format!("modular sum of {} and {} mod {} is {} ({} bytes)", x, int(&h), p, int(&add), add.len()));
            }
            let sub = modsub(&u, &h, &p);
            let diff = (Integer::from(&x - int(&h)) % &p + &p) % &p;
            if sub != bytes(&diff, l) {
                return Err(format!("modular difference of {} and {} mod {} is {} ({} bytes)", x, int(&h), p, int(&sub), sub.len()));
            }
            if modsub(&add, &h, &p) != u || modadd(&sub, &h, &p) != u {
                return Err(format!("adding and subtracting {} mod {} does not return {}", int(&h), p, x));
            }
            let mode = if v.vde { "vde" } else { "sloth" }.to_string();
            let y = rug_vde::vde(&u, &p, v.t, &mode, l);
            if y != bytes(&ref_sloth(&x, &p, v.t), l) {
                return Err(format!("encoding {} with {} rounds mod {} gives {} ({} bytes)", x, v.t, p, int(&y), y.len()));
            }
            let z = rug_vde::vde_inv(&y, &p, v.t, &mode, l);
            if z != u {
                return Err(format!("decoding {} rounds mod {} gives {} ({} bytes) instead of {}", v.t, p, int(&z), z.len(), x));
            }
            let w = rug_vde::vde_inv(&u, &p, v.t, &mode, l);
            if w.len() != l || rug_vde::vde(&w, &p, v.t, &mode, l) != u {
                return Err(format!("decoding and encoding {} mod {} gives something else", x, p));
            }
            let s = modsub(&rug_vde::vde_inv(&rug_vde::vde(&add, &p, v.t, &mode, l), &p, v.t, &mode, l), &h, &p);
            if s != u {
                return Err(format!("mix, encode, decode, unmix of {} mod {} gives {}", x, p, int(&s)));
            }
            Ok(())
        },
    );
}
