//! C01 (MiMC maps), C02 (conversions), C10 (challenges and parameters).
use crate::gen::*;
use ark_bls12_381::{Fq, Fr};
use ark_ff::PrimeField;
use num_bigint::BigUint;
use pbt::{Check, Obs};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use space_crate::mimc::mimc_df::*;
use space_crate::mimc::mimc_hash::*;
use space_crate::proof_of_space::convert::*;
use space_crate::proof_of_space::pospace::prepare_params;
use space_crate::proof_of_space::verifier::create_challenges;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DfCase {
    quintic: bool,
    big_field: bool,
    xl: Fe,
    xr: Fe,
    c: Consts,
    /// choose the values such that something vanishes or coincides
    tie: Tie,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Tie {
    None,
    /// the argument of the power in round (or of input) i is 0
    Cancel(u16),
    /// two values are equal (both words, two constants, an input and the state or its predecessor)
    Equal(u16),
    /// two values are opposite
    Opposite(u16),
}

fn tie() -> BoxedStrategy<Tie> {
    prop_oneof![
        4 => Just(Tie::None), 2 => any::<u16>().prop_map(Tie::Cancel), 1 => any::<u16>().prop_map(Tie::Equal), 1 => any::<u16>().prop_map(Tie::Opposite)
    ]
    .boxed()
}

fn df_case<F: PrimeField>(v: &DfCase) -> Result<(), String> {
    let p = modulus::<F>();
    let (mut xl, mut xr): (F, F) = (v.xl.get(), v.xr.get());
    let n = if v.quintic { MIMC5_DF_ROUNDS } else { MIMC3_DF_ROUNDS };
    let mut c: Vec<F> = v.c.get(n);
    match v.tie {
        Tie::None => {}
        Tie::Cancel(i) => {
            // run the rounds before i, then let the constant cancel the left word
            let i = i as usize % n;
            let (mut l, mut r) = (xl, xr);
            for k in 0..i {
                let t = (l + c[k]).pow([if v.quintic { 5u64 } else { 3 }]) + r;
                r = l;
                l = t;
            }
            c[i] = -l;
        }
        Tie::Equal(i) => {
            if i % 2 == 0 {
                xr = xl;
            } else {
                c[i as usize % n] = c[0];
            }
        }
        Tie::Opposite(i) => {
            if i % 2 == 0 {
                xr = -xl;
            } else {
                xl = -c[i as usize % n];
            }
        }
    }
    let f = |a: F, b: F| if v.quintic { mimc5_df(a, b, &c) } else { mimc3_df(a, b, &c) };
    let got = f(xl, xr);
    let cb: Vec<BigUint> = c.iter().map(to_big).collect();
    let want = big_df(&to_big(&xl), &to_big(&xr), &cb, if v.quintic { 5 } else { 3 }, &p);
    if to_big(&got) != want {
        return Err(format!("delay function returns {} instead of {}", to_big(&got), want));
    }
    if f(xl, xr) != got {
        return Err("the delay function gives two results for the same arguments".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HashCase {
    seven: bool,
    big_field: bool,
    key: Fe,
    xs: Vec<Fe>,
    c: Consts,
    tie: Tie,
}

fn hash_case<F: PrimeField>(v: &HashCase) -> Result<(), String> {
    let p = modulus::<F>();
    let key: F = v.key.get();
    let mut xs: Vec<F> = v.xs.iter().map(|x| x.get()).collect();
    let n = if v.seven { MIMC7_HASH_ROUNDS } else { MIMC5_HASH_ROUNDS };
    let mut c: Vec<F> = v.c.get(n);
    let e = if v.seven { 7 } else { 5 };
    if !xs.is_empty() {
        // the state before input i
        let state = |i: usize, xs: &[F], c: &[F]| {
            let cb: Vec<BigUint> = c.iter().map(to_big).collect();
            let xb: Vec<BigUint> = xs[..i].iter().map(to_big).collect();
            from_big::<F>(&big_multi(&xb, &to_big(&key), &cb, e, &p))
        };
        match v.tie {
            Tie::None => {}
            Tie::Cancel(i) if i % 2 == 0 => {
                let i = i as usize / 2 % xs.len();
                xs[i] = -state(i, &xs, &c);
            }
            Tie::Cancel(i) => {
                // round r of the first input
                let r = 1 + i as usize / 2 % (n - 1);
                let mut h = xs[0] + key;
                for k in 1..r {
                    h = h.pow([e as u64]) + key + c[k];
                }
                c[r] = -(h.pow([e as u64]) + key);
            }
            Tie::Equal(i) => {
                let i = i as usize % xs.len();
                xs[i] = if i > 0 { xs[i - 1] } else { key };
            }
            Tie::Opposite(i) => {
                let i = i as usize % xs.len();
                xs[i] = if i > 0 { -xs[i - 1] } else { state(0, &xs, &c).double() };
            }
        }
    }
    let cb: Vec<BigUint> = c.iter().map(to_big).collect();
    let xb: Vec<BigUint> = xs.iter().map(to_big).collect();
    let multi = |xs: &Vec<F>| {
        if v.seven {
            multi_mimc7_hash(xs, key, &c)
        } else {
            multi_mimc5_hash(xs, key, &c)
        }
    };
    let got = multi(&xs);
    let want = big_multi(&xb, &to_big(&key), &cb, e, &p);
    if to_big(&got) != want {
        return Err(format!("multi-input hash of {} inputs: {} instead of {}", xs.len(), to_big(&got), want));
    }
    if multi(&xs) != got {
        return Err("the hash gives two results for the same arguments".into());
    }
    if let Some(x) = xs.first() {
        let got = if v.seven { mimc7_hash(*x, key, &c) } else { mimc5_hash(*x, key, &c) };
        let want = big_hash(&xb[0], &to_big(&key), &cb, e, &p);
        if to_big(&got) != want {
            return Err(format!("single hash: {} instead of {}", to_big(&got), want));
        }
    }
    Ok(())
}

pub fn c01(c: &mut Check) {
    c.explore(
        "delay",
        "random field (Fr or the larger Fq), words and constants edge-biased, or chosen such that a power's argument vanishes or values coincide; non-trivial: neither both words nor all constants zero",
        c.n(4000, 60000),
        || {
            (any::<bool>(), prop::bool::weighted(0.3), fe(), fe(), consts(), tie())
                .prop_map(|(quintic, big_field, xl, xr, c, tie)| DfCase { quintic, big_field, xl, xr, c, tie })
                .boxed()
        },
        |v: &DfCase, o: &mut Obs| {
            o.label_if(v.quintic, "quintic");
            o.label_if(v.big_field, "Fq");
            o.nontrivial_if(v.xl.0 != [0; 4] || v.xr.0 != [0; 4] || v.c != Consts::Same(Fe([0; 4])));
            if v.big_field {
                df_case::<Fq>(v)
            } else {
                df_case::<Fr>(v)
            }
        },
    );
    c.explore(
        "hash",
        "0..120, seldom up to 1500 inputs, edge-biased or chosen such that a power's argument vanishes or inputs repeat, both degrees and two fields; non-trivial: at least one input",
        c.n(3000, 40000),
        || {
            let len = prop_oneof![80 => 0usize..6, 40 => 6usize..40, 20 => 40usize..70, 20 => 70usize..121, 1 => 121usize..1500];
            (any::<bool>(), prop::bool::weighted(0.3), fe(), len.prop_flat_map(|n| prop::collection::vec(fe(), n..=n)), consts(), tie())
                .prop_map(|(seven, big_field, key, xs, c, tie)| HashCase { seven, big_field, key, xs, c, tie })
                .boxed()
        },
        |v: &HashCase, o: &mut Obs| {
            o.label_if(v.seven, "degree 7");
            o.label_if(v.xs.len() >= 2, ">=2 inputs");
            o.label_if(v.xs.len() >= 50, ">=50 inputs");
            o.nontrivial_if(!v.xs.is_empty());
            if v.big_field {
                hash_case::<Fq>(v)
            } else {
                hash_case::<Fr>(v)
            }
        },
    );
}

// ------------------------------------------------------------------------------------------

fn model_bits(x: &[u8]) -> Vec<bool> {
    (0..x.len() * 8).map(|k| (x[k / 8] >> (k % 8)) & 1 == 1).collect()
}

pub fn c02(c: &mut Check) {
    c.explore(
        "bytes",
        "byte strings of 0..300 bytes; non-trivial: not empty",
        c.n(120000, 900000),
        || prop_oneof![3 => prop::collection::vec(any::<u8>(), 0..20), 1 => prop::collection::vec(any::<u8>(), 20..300)].boxed(),
        |x: &Vec<u8>, o: &mut Obs| {
            o.nontrivial_if(!x.is_empty());
            let bits = bytes_to_bits(x);
            if bits != model_bits(x) {
                return Err(format!("bytes_to_bits gives {:?}", bits));
            }
            let back = bits_to_bytes(&bits);
            if &back != x {
                return Err(format!("bytes -> bits -> bytes gives {:?}", back));
            }
            Ok(())
        },
    );
    c.explore(
        "bits",
        "bit lists of 0..400 bits of any density; non-trivial: some bit set",
        c.n(120000, 900000),
        || {
            let len = prop_oneof![3 => 0usize..70, 1 => 70usize..400];
            (len, prop_oneof![Just(0.5), Just(0.05), Just(0.95), Just(1.0)])
                .prop_flat_map(|(n, d)| prop::collection::vec(prop::bool::weighted(d), n..=n))
                .boxed()
        },
        |x: &Vec<bool>, o: &mut Obs| {
            o.nontrivial_if(x.iter().any(|b| *b));
            o.label_if(x.len() % 8 != 0, "partial byte");
            let bytes = bits_to_bytes(x);
            let mut want = vec![0u8; (x.len() + 7) / 8];
            for (i, b) in x.iter().enumerate() {
                if *b {
                    want[i / 8] |= 1 << (i % 8);
                }
            }
            if bytes != want {
                return Err(format!("bits_to_bytes gives {:?}, expected {:?}", bytes, want));
            }
            let mut padded = x.clone();
            padded.resize(want.len() * 8, false);
            if bytes_to_bits(&bytes) != padded {
                return Err("bits -> bytes -> bits does not give the same bits padded with zeros".into());
            }
            if x.len() <= 64 {
                o.label_if(x.len() == 64, "64 bits");
                let want: usize = x.iter().enumerate().map(|(i, b)| if *b { 1usize << i } else { 0 }).fold(0, |a, b| a | b);
                let got = bits_to_usize(x);
                if got != want {
                    return Err(format!("bits_to_usize gives {}, expected {}", got, want));
                }
                if !x.is_empty() && &usize_to_bits(got, x.len()) != x {
                    return Err("bits -> integer -> bits is not the identity".into());
                }
            }
            Ok(())
        },
    );
    c.explore(
        "long",
        "byte strings of 300..70000 bytes (random or one byte repeated) and bit lists of that length and up to 7 bits less; non-trivial: some bit set",
        c.n(400, 4000),
        || {
            let len = prop_oneof![2 => 300usize..5000, 1 => 5000usize..70000];
            (len, any::<u64>(), prop::option::of(any::<u8>()), 0usize..8)
                .prop_map(|(len, seed, fill, cut)| {
                    (match fill { Some(byte) => Data::Fill { byte, len }, None => Data::Prng { seed, len } }, cut)
                })
                .boxed()
        },
        |(d, cut): &(Data, usize), o: &mut Obs| {
            let x = d.get();
            o.nontrivial_if(x.iter().any(|b| *b != 0));
            let want = model_bits(&x);
            let bits = bytes_to_bits(&x);
            if bits != want {
                return Err(format!("bytes_to_bits of {} bytes is wrong", x.len()));
            }
            let mut short = want.clone();
            short.truncate(want.len() - cut);
            let mut last = x.clone();
            let n = last.len();
            last[n - 1] &= 255 >> cut;
            if bits_to_bytes(&short) != last {
                return Err(format!("bits_to_bytes of {} bits is wrong", short.len()));
            }
            Ok(())
        },
    );
    c.explore(
        "wide",
        "bit lists of exactly 61..64 bits; non-trivial: top bit set",
        c.n(20000, 80000),
        || (61usize..=64).prop_flat_map(|n| prop::collection::vec(any::<bool>(), n..=n)).boxed(),
        |x: &Vec<bool>, o: &mut Obs| {
            o.nontrivial_if(x[x.len() - 1]);
            let want: usize = x.iter().enumerate().map(|(i, b)| if *b { 1usize << i } else { 0 }).fold(0, |a, b| a | b);
            let got = bits_to_usize(x);
            if got != want {
                return Err(format!("bits_to_usize gives {}, expected {}", got, want));
            }
            Ok(())
        },
    );
    c.explore(
        "integer",
        "integers of every magnitude and widths 1..=80, some up to 2000; non-trivial: non-zero",
        c.n(240000, 1800000),
        || {
            let x = prop_oneof![any::<u64>(), (0u32..64, any::<u64>()).prop_map(|(s, x)| x >> s), (0u32..64, 0u64..3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d).wrapping_sub(1))];
            (x, prop_oneof![12 => 1usize..=80, 1 => 81usize..2000]).boxed()
        },
        |(x, n): &(u64, usize), o: &mut Obs| {
            o.nontrivial_if(*x != 0);
            let fits = *n >= 64 || *x < (1u64 << n);
            o.label(if fits { "fits" } else { "truncated" });
            let bits = usize_to_bits(*x as usize, *n);
            let want: Vec<bool> = (0..*n).map(|i| i < 64 && (*x >> i) & 1 == 1).collect();
            if bits != want {
                return Err(format!("usize_to_bits({}, {}) gives {:?}", x, n, bits));
            }
            if fits && *n <= 64 && bits_to_usize(&bits) as u64 != *x {
                return Err(format!("integer -> bits -> integer gives {}", bits_to_usize(&bits)));
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ChCase {
    count: usize,
    bits: usize,
}

/// Two draws of 20 challenges of 64 bits and two parameter preparations.
pub fn probe_draws(_: &str, _: &std::path::Path) -> Vec<String> {
    let mut res = vec![];
    for _ in 0..2 {
        res.extend(create_challenges(20, 64).iter().map(|x| format!("challenge {}", x)));
        let (df, hash, key, m) = prepare_params();
        res.extend(df.iter().chain(&hash).chain([&key, &m]).map(|v| format!("parameter {}", to_big(v))));
    }
    res
}

pub fn c10(c: &mut Check) {
    c.enumerate(
        "other processes and threads",
        "two draws of 20 challenges of 64 bits and two parameter preparations in each of two other processes, two other threads and here: all values differ; non-trivial: always",
        vec![0u8],
        |_: &u8, o: &mut Obs| {
            o.nontrivial();
            let d = std::path::PathBuf::from(o.path("probe"));
            o.steps += pbt::all_fresh("draws", probe_draws, "", &d, 2, 2)? as u64;
            Ok(())
        },
    );
    c.assume("the code draws from the operating system's randomness, so these runs are not a function of VERIF_SEED; every statistical threshold is at least 9 standard deviations from the expectation (false-alarm probability below 1e-15 per run)");
    c.explore(
        "shape",
        "counts 0..300, seldom up to 20000, widths 0..=64; non-trivial: something requested",
        c.n(30000, 120000),
        || (prop_oneof![1000 => 0usize..300, 10 => 300usize..2000, 2 => 2000usize..20000], 0usize..=64).prop_map(|(count, bits)| ChCase { count, bits }).boxed(),
        |v: &ChCase, o: &mut Obs| {
            o.nontrivial_if(v.count > 0);
            o.label_if(v.bits == 64, "64 bits");
            let ch = create_challenges(v.count, v.bits);
            if ch.len() != v.count {
                return Err(format!("{} challenges instead of {}", ch.len(), v.count));
            }
            if let Some(x) = ch.iter().find(|x| v.bits < 64 && **x >> v.bits != 0) {
                return Err(format!("challenge {} does not fit {} bits", x, v.bits));
            }
            if v.count >= 20 && (v.bits == 64 || v.bits >= 60 && v.count < 300) {
                let ch: std::collections::HashSet<_> = ch.into_iter().collect();
                let again = create_challenges(v.count, v.bits);
                if again.iter().any(|x| ch.contains(x)) {
                    return Err("two calls share a challenge of at least 60 bits".into());
                }
            }
            Ok(())
        },
    );
    let bits: Vec<usize> = if c.thorough() { (1..=64).collect() } else { vec![1, 2, 3, 5, 8, 13, 16, 20, 21, 32, 40, 63, 64] };
    c.enumerate(
        "distribution",
        "for each width: 24,000 draws over several calls; per-bit frequency, pairwise bit correlation, correlation of all pairs of bits between a draw and the three before it, coincidences within and between calls (width <= 16), all cells reached (width <= 8), no repetition (width 64)",
        bits,
        |b: &usize, o: &mut Obs| {
            o.nontrivial();
            let b = *b;
            let mut xs: Vec<usize> = vec![];
            for _ in 0..24 {
                xs.extend(create_challenges(1000, b));
            }
            let n = xs.len() as f64;
            let lim = 9.0 * n.sqrt() / 2.0;
            let cnt = |f: &dyn Fn(usize) -> bool| (0..xs.len()).filter(|&i| f(i)).count() as f64;
            for i in 0..b {
                let k = cnt(&|t| (xs[t] >> i) & 1 == 1);
                if (k - n / 2.0).abs() > lim {
                    return Err(format!("bit {} of {}-bit challenges is set in {} of {} draws", i, b, k, n));
                }
                for j in 0..i {
                    let k = cnt(&|t| (xs[t] >> i) & 1 == (xs[t] >> j) & 1);
                    if (k - n / 2.0).abs() > lim {
                        return Err(format!("bits {} and {} of {}-bit challenges agree in {} of {} draws", i, j, b, k, n));
                    }
                }
                for lag in [1usize, 2, 100, 1000] {
                    let k = cnt(&|t| t >= lag && (xs[t] >> i) & 1 == (xs[t - lag] >> i) & 1);
                    if (k - n / 2.0).abs() > lim + lag as f64 {
                        return Err(format!("bit {} repeats the draw {} earlier in {} of {} draws", i, lag, k, n));
                    }
                }
            }
            // coinciding pairs, within a call and between two calls; for even independent draws the pairs are independent of each other
            if b <= 16 {
                let p = 1.0 / (1u64 << b) as f64;
                let hist = |c: &[usize]| {
                    let mut h = std::collections::HashMap::new();
                    c.iter().for_each(|x| *h.entry(*x).or_insert(0f64) += 1.0);
                    h
                };
                let calls: Vec<_> = xs.chunks(1000).map(hist).collect();
                let within: f64 = calls.iter().map(|h| h.values().map(|k| k * (k - 1.0) / 2.0).sum::<f64>()).sum();
                let between: f64 = calls.windows(2).map(|w| w[0].iter().map(|(x, k)| k * w[1].get(x).unwrap_or(&0.0)).sum::<f64>()).sum();
                for (what, got, pairs) in [("within a call", within, 24.0 * 499_500.0), ("between consecutive calls", between, 23.0 * 1_000_000.0)] {
                    if (got - pairs * p).abs() > 9.0 * (pairs * p * (1.0 - p)).sqrt() + 20.0 {
                        return Err(format!("{} coinciding pairs of {}-bit challenges {}, {:.0} expected", got, b, what, pairs * p));
                    }
                }
            }
            // every bit against every bit of the 1, 2 and 3 draws before it
            let cols: Vec<Vec<u64>> = (0..b)
                .map(|i| {
                    let mut w = vec![0u64; xs.len() / 64];
                    (0..xs.len() / 64 * 64).for_each(|t| w[t / 64] |= ((xs[t] >> i & 1) as u64) << (t % 64));
                    w
                })
                .collect();
            for lag in 1..=3usize {
                let late: Vec<Vec<u64>> = cols.iter().map(|w| (0..w.len()).map(|k| w[k] << lag | if k > 0 { w[k - 1] >> (64 - lag) } else { 0 }).collect()).collect();
                for i in 0..b {
                    for j in 0..b {
                        let k: u32 = cols[i].iter().zip(&late[j]).map(|(x, y)| (!(x ^ y)).count_ones()).sum();
                        if (k as f64 - n / 2.0).abs() > lim + 3.0 {
                            return Err(format!("bit {} of {}-bit challenges agrees with bit {} of the draw {} earlier in {} of {} draws", i, b, j, lag, k, n));
                        }
                    }
                }
            }
            if b <= 8 {
                let mut seen = vec![0usize; 1 << b];
                xs.iter().for_each(|x| seen[*x] += 1);
                let exp = n / (1 << b) as f64;
                if let Some((v, k)) = seen.iter().enumerate().find(|(_, k)| (**k as f64 - exp).abs() > 9.0 * exp.sqrt() + 5.0) {
                    return Err(format!("{}-bit challenge {} drawn {} times, expected about {}", b, v, k, exp));
                }
            } else if b <= 21 {
                // distinct values among n draws from 2^b cells
                let m = (1u64 << b) as f64;
                let distinct = xs.iter().collect::<std::collections::HashSet<_>>().len() as f64;
                let exp = m * (1.0 - (-n / m).exp());
                if (distinct - exp).abs() > 9.0 * exp.sqrt() + 5.0 {
                    return Err(format!("{} distinct {}-bit challenges in {} draws, expected about {}", distinct, b, n, exp));
                }
            } else if b == 64 {
                let d = xs.iter().collect::<std::collections::HashSet<_>>().len();
                if d != xs.len() {
                    return Err("a 64-bit challenge was repeated".into());
                }
            }
            Ok(())
        },
    );
    c.enumerate(
        "no linear relation",
        "the bits of two successive calls (50 challenges of 20 bits each; 400 of 1; 8 of 64) and of all parameters of two preparations (their low 4 bits): no sum of some of them modulo 2 is always the same; non-trivial: always",
        vec![(50usize, 20usize), (400, 1), (8, 64), (0, 0)],
        |(n, b): &(usize, usize), o: &mut Obs| {
            o.nontrivial();
            let row = || -> Vec<bool> {
                if *n > 0 {
                    return (0..2).flat_map(|_| create_challenges(*n, *b)).flat_map(|x| (0..*b).map(move |i| x >> i & 1 == 1)).collect();
                }
                let all: Vec<_> = (0..2).flat_map(|_| { let (d, h, k, m) = prepare_params(); [d, h, vec![k, m]].concat() }).collect();
                all.iter().flat_map(|v| { let w = v.into_repr().0[0]; (0..4).map(move |i| w >> i & 1 == 1) }).collect()
            };
            let width = row().len();
            let rows: Vec<_> = (0..width + 100).map(|_| row()).collect();
            if rows.iter().any(|r| r.len() != width) {
                return Err("calls return different numbers of values".into());
            }
            let k = pbt::linear_relations(&rows);
            if k > 0 {
                return Err(format!("{} linear relations between the bits of two {}", k, if *n > 0 { format!("calls for {} challenges of {} bits", n, b) } else { "parameter preparations".into() }));
            }
            Ok(())
        },
    );
    c.enumerate(
        "params",
        "60 parameter preparations: lengths, all values distinct from each other and from every earlier call",
        vec![c.n(60usize, 600)],
        |k: &usize, o: &mut Obs| {
            o.nontrivial();
            let mut seen = std::collections::HashSet::new();
            let mut ones = 0u64;
            let mut total = 0u64;
            for _ in 0..*k {
                o.steps += 1;
                let (df, hash, key, m) = prepare_params();
                if df.len() != MIMC5_DF_ROUNDS || hash.len() != MIMC5_HASH_ROUNDS {
                    return Err(format!("{} delay and {} hash constants", df.len(), hash.len()));
                }
                for v in df.iter().chain(&hash).chain([&key, &m]) {
                    if !seen.insert(to_big(v)) {
                        return Err("a parameter value was repeated".into());
                    }
                    // the low 192 bits of a uniform element are (almost exactly) uniform
                    for w in &v.into_repr().0[..3] {
                        ones += w.count_ones() as u64;
                        total += 64;
                    }
                }
            }
            let n = total as f64;
            if (ones as f64 - n / 2.0).abs() > 9.0 * n.sqrt() / 2.0 {
                return Err(format!("{} of {} parameter bits are set", ones, total));
            }
            Ok(())
        },
    );
}
