//! C13 (dependency selection).
use pbt::{Check, Obs, Prng};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use storage_crate::proof_of_storage::depend::*;
use storage_crate::proof_of_storage::prover::{create_long_depend, create_short_depend};

fn pow2(i: usize) -> i128 {
    if i < 100 {
        1 << i
    } else {
        1 << 100
    }
}

fn ref_long(index: usize, count: usize, mode: usize) -> Vec<usize> {
    let count = match mode {
        1 | 2 => count,
        // the distances beyond 2^100 reach no block
        3 => (index / 10).min(101),
        _ => 0,
    };
    (0..count)
        .map(|i| if mode == 1 { 1 + 2 * i as i128 } else { 1 + pow2(i) })
        .map(|d| index as i128 - d)
        .filter(|x| *x >= 0)
        .map(|x| x as usize)
        .collect()
}

fn ref_short(num: usize, index: usize, count: usize, mode: usize) -> Vec<usize> {
    let inside = |x: i128| x >= 0 && x < num as i128;
    let mut out = vec![];
    match mode {
        1 => {
            let mut d = 1i128;
            while out.len() < count && (index as i128 - d >= 0 || index as i128 + d < num as i128) {
                for x in [index as i128 - d, index as i128 + d] {
                    if inside(x) && out.len() < count {
                        out.push(x as usize);
                    }
                }
                d += 2;
            }
        }
        2 => {
            for i in 0..count {
                let x = if i % 2 == 0 { index as i128 - 1 - pow2(i) } else { index as i128 - 1 + pow2(i) };
                if !inside(x) {
                    break;
                }
                out.push(x as usize);
            }
        }
        _ => (),
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Det {
    num: usize,
    index: usize,
    count: usize,
    mode: usize,
}

fn size() -> BoxedStrategy<usize> {
    prop_oneof![4 => 1usize..40, 3 => 40usize..700, 2 => 700usize..70000, 1 => 65000usize..1 << 40].boxed()
}

fn count() -> BoxedStrategy<usize> {
    prop_oneof![2 => 0usize..4, 4 => 4usize..30, 2 => 30usize..70, 1 => 70usize..300].boxed()
}

fn det() -> BoxedStrategy<Det> {
    (size(), any::<u64>(), prop_oneof![40 => count(), 1 => 300usize..8000], 0usize..=4, 0u8..4)
        .prop_map(|(num, r, count, mode, e)| {
            let index = match e {
                0 => r as usize % num,
                1 => num - 1 - (r as usize % 4).min(num - 1),
                2 => (r as usize % 12).min(num - 1),
                _ => (num / 2).min(num - 1),
            };
            Det { num, index, count, mode }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HashCase {
    num: usize,
    index: usize,
    count: usize,
    seed: u64,
    len: usize,
}

fn hash_case() -> BoxedStrategy<HashCase> {
    let num = prop_oneof![
        3 => 1usize..20,
        3 => 20usize..257,
        1 => prop_oneof![Just(1usize), Just(2), Just(255), Just(256), Just(257), Just(65535), Just(65536), Just(65537)],
        3 => 257usize..65537,
        3 => 65537usize..200000,
        2 => prop_oneof![Just(1usize << 24), Just((1 << 24) + 1), Just(1 << 32), 200000usize..1 << 24, 1usize << 24..1 << 40],
    ];
    let count = prop_oneof![20 => 0usize..6, 40 => 6usize..40, 10 => 40usize..400, 1 => 400usize..6000];
    (num, any::<u64>(), count, any::<u64>(), prop_oneof![Just(0usize), Just(32), Just(64), 1usize..300], 0u8..4)
        .prop_map(|(num, r, count, seed, len, e)| {
            let index = match e {
                0 => (r as usize % 5).min(num - 1),
                1 => num - 1,
                _ => r as usize % num,
            };
            HashCase { num, index, count, seed, len }
        })
        .boxed()
}

pub fn c13(c: &mut Check) {
    c.explore(
        "deterministic rules",
        "modes 0..4 of both ranges, up to 2^40 blocks or units, up to 300, seldom 8000 dependencies, indices near both ends: exact comparison with the documented offsets; validity; non-trivial: some dependency selected",
        c.n(120000, 1200000),
        det,
        |v: &Det, o: &mut Obs| {
            // long-range mode 3 grows with the index, keep it affordable
            let long_index = if v.mode == 3 { v.index.min(1 << 24) } else { v.index };
            let l = long_depend(long_index, v.count, v.mode);
            let want = ref_long(long_index, v.count, v.mode);
            if l != want {
                return Err(format!("long-range mode {} of block {} with {} dependencies: {:?} instead of {:?}", v.mode, long_index, v.count, l, want));
            }
            let s = short_depend(v.num, v.index, v.count, v.mode);
            let want_s = ref_short(v.num, v.index, v.count, v.mode);
            if s != want_s {
                return Err(format!("short-range mode {} of unit {} of {} with {} dependencies: {:?} instead of {:?}", v.mode, v.index, v.num, v.count, s, want_s));
            }
            o.label(format!("mode {}", v.mode));
            o.label_if(v.count > 64, "more than 64 requested");
            o.nontrivial_if(!l.is_empty() || !s.is_empty());
            if l.iter().any(|x| *x >= long_index) || s.iter().any(|x| *x >= v.num || *x == v.index) || s.len() > v.count || (v.mode != 3 && l.len() > v.count) {
                return Err("a selected dependency is not valid".into());
            }
            Ok(())
        },
    );
    c.explore(
        "tables",
        "the tables for all blocks or units against the rule for each one; non-trivial: more than one entry",
        c.n(6000, 30000),
        || prop_oneof![200 => (prop_oneof![3 => 0usize..60, 1 => 60usize..800], count(), 0usize..=4), 1 => (800usize..9000, 0usize..40, 0usize..=4)].boxed(),
        |(num, count, mode): &(usize, usize, usize), o: &mut Obs| {
            o.nontrivial_if(*num > 1);
            let l = create_long_depend(*num, *count, *mode);
            let s = create_short_depend(*num, *count, *mode);
            if l.len() != *num || s.len() != *num {
                return Err(format!("{} and {} entries for {}", l.len(), s.len(), num));
            }
            for i in 0..*num {
                if l[i] != ref_long(i, *count, *mode) {
                    return Err(format!("entry {} of the long-range table (mode {}, {} dependencies) is {:?}", i, mode, count, l[i]));
                }
                if s[i] != ref_short(*num, i, *count, *mode) {
                    return Err(format!("entry {} of the short-range table of {} (mode {}, {} dependencies) is {:?}", i, num, mode, count, s[i]));
                }
            }
            Ok(())
        },
    );
    c.explore(
        "hash-driven",
        "1..2^40 blocks or units (all index widths), 0..400, seldom 6000 dependencies, any hash input: valid, distinct, at most as many as requested, the same on every call, at least one long-range dependency when there can be one; non-trivial: some dependency selected",
        c.n(150000, 800000),
        hash_case,
        |v: &HashCase, o: &mut Obs| {
            let d = Prng(v.seed).bytes(v.len);
            let l = long_mode_random(v.num, &d, v.index, v.count);
            let s = short_depend_random(v.num, &d, v.index, v.count);
            o.label(match v.num { 0..=256 => "one byte", 257..=65536 => "two bytes", 65537..=0x1000000 => "three bytes", _ => "more than three bytes" });
            o.nontrivial_if(!l.is_empty() || !s.is_empty());
            for (what, r) in [("long", &l), ("short", &s)] {
                if r.len() > v.count {
                    return Err(format!("{} {}-range dependencies, {} requested", r.len(), what, v.count));
                }
                if r.iter().collect::<BTreeSet<_>>().len() != r.len() {
                    return Err(format!("repeated {}-range dependency in {:?}", what, r));
                }
            }
            if let Some(x) = l.iter().find(|x| **x >= v.index) {
                return Err(format!("block {} depends on block {}", v.index, x));
            }
            if let Some(x) = s.iter().find(|x| **x >= v.num || **x == v.index) {
                return Err(format!("unit {} of {} depends on unit {}", v.index, v.num, x));
            }
            if v.index > 0 && v.count > 0 && l.is_empty() {
                return Err(format!("block {} depends on no earlier block ({} requested)", v.index, v.count));
            }
            for _ in 0..3 {
                if long_mode_random(v.num, &d.clone(), v.index, v.count) != l || short_depend_random(v.num, &d.clone(), v.index, v.count) != s {
                    return Err("two calls with the same arguments differ".into());
                }
            }
            Ok(())
        },
    );
    c.explore(
        "hash input matters",
        "at least 64 blocks or units and 8 dependencies, hash inputs of 1..700, seldom 5000 bytes: 12 different hash inputs must not all select the same; inputs differing in a single bit, anywhere or in the last 64 bytes; non-trivial: always",
        c.n(7500, 30000),
        || {
            (prop_oneof![64usize..256, 257usize..70000], any::<u64>(), 8usize..30, any::<u64>(), prop_oneof![6 => 1usize..200, 6 => 200usize..700, 1 => 700usize..5000])
                .prop_map(|(num, r, count, seed, len)| HashCase { num, index: 40 + r as usize % (num - 40), count, seed, len })
                .boxed()
        },
        |v: &HashCase, o: &mut Obs| {
            o.nontrivial();
            let base = Prng(v.seed).bytes(v.len);
            for long in [true, false] {
                let mut g = Prng(v.seed ^ 77);
                let mut seen = BTreeSet::new();
                let tail = v.seed % 2 == 0;
                for k in 0..12 {
                    let mut d = base.clone();
                    let from = if tail { v.len.saturating_sub(64) } else { 0 };
                    let bit = 8 * from + g.below(8 * (v.len - from) as u64) as usize;
                    if k > 0 {
                        d[bit / 8] ^= 1 << (bit % 8);
                    }
                    seen.insert(if long { long_mode_random(v.num, &d, v.index, v.count) } else { short_depend_random(v.num, &d, v.index, v.count) });
                }
                if seen.len() == 1 {
                    return Err(format!("the {}-range selection ignores the hash input", if long { "long" } else { "short" }));
                }
            }
            Ok(())
        },
    );
    c.explore(
        "hash-driven reach",
        "800 hash inputs for one layout of 20..2^40 blocks or units: every tenth of the valid range is selected at some time; as many as requested up to coincidences when the range is large; non-trivial: always",
        c.n(2000, 12000),
        || {
            let num = prop_oneof![20usize..257, 257usize..2000, 2000usize..65537, 65537usize..300000, 300000usize..1 << 24, 1usize << 24..1 << 26, 1usize << 26..1 << 40];
            (num, any::<u32>(), prop_oneof![1usize..20, 20usize..120], any::<u64>())
                .prop_map(|(num, r, count, seed)| HashCase { num, index: (num / 2).max(15) + (r as usize).wrapping_mul(0x9E3779B97F4A7C15) % (num - (num / 2).max(15)), count, seed, len: 32 })
                .boxed()
        },
        |v: &HashCase, o: &mut Obs| {
            o.nontrivial();
            o.label(match v.num { 0..=256 => "one byte", 257..=65536 => "two bytes", 65537..=0x1000000 => "three bytes", _ => "more than three bytes" });
            let mut g = Prng(v.seed);
            for long in [true, false] {
                let what = if long { "long" } else { "short" };
                let range = if long { v.index } else { v.num };
                let mut tenth = [0u32; 10];
                for _ in 0..800 {
                    let d = g.bytes(v.len);
                    let r = if long { long_mode_random(v.num, &d, v.index, v.count) } else { short_depend_random(v.num, &d, v.index, v.count) };
                    o.steps += 1;
                    // count^2 / 2 / range coincidences are expected, doubled by the uneven modulus
                    let lost = v.count * v.count / range;
                    if range >= 1000 && r.len() + 8 + 3 * lost < v.count {
                        return Err(format!("{} {}-range dependencies of {} requested among {}", r.len(), what, v.count, range));
                    }
                    r.iter().for_each(|x| tenth[(x * 10 / range).min(9)] += 1);
                }
                // the rarest tenth has probability at least 1/20 per choice: missed by 800 with probability below 2^-59 each
                if let Some(k) = tenth.iter().position(|t| *t == 0) {
                    return Err(format!("no {}-range dependency among {} lies in tenth {} (800 hash inputs, {} requested)", what, range, k, v.count));
                }
            }
            Ok(())
        },
    );
    c.explore(
        "hash-driven, many dependencies",
        "100..8000 dependencies among at least eight times as many blocks or units: as many as requested up to coincidences, in every tenth of the range; non-trivial: always",
        c.n(1500, 12000),
        || {
            (prop_oneof![4 => 100usize..1000, 2 => 1000usize..8000], prop_oneof![Just(0u32), 1u32..4, 4u32..20], any::<u64>(), any::<u64>())
                .prop_map(|(count, wide, r, seed)| {
                    let low = 8 * count + 1;
                    let num = (low + 1 + r as usize % (8 * low)) << wide;
                    HashCase { num, index: low + (r >> 20) as usize % (num - low), count, seed, len: 32 }
                })
                .boxed()
        },
        |v: &HashCase, o: &mut Obs| {
            o.nontrivial();
            o.label(match v.num { 0..=65536 => "two bytes", 65537..=0x1000000 => "three bytes", _ => "more than three bytes" });
            let d = Prng(v.seed).bytes(v.len);
            for (what, range, r) in [("long", v.index, long_mode_random(v.num, &d, v.index, v.count)), ("short", v.num, short_depend_random(v.num, &d, v.index, v.count))] {
                // at most 0.57 count^2 / range coincidences are expected
                if r.len() > v.count || r.len() + 40 + 2 * v.count * v.count / range < v.count {
                    return Err(format!("{} {}-range dependencies of {} requested among {}", r.len(), what, v.count, range));
                }
                if let Some(k) = (0..10).find(|k| !r.iter().any(|x| x * 10 / range == *k)) {
                    // the rarest tenth has probability at least 1/20 per choice
                    if v.count > 1000 {
                        return Err(format!("no {}-range dependency among {} lies in tenth {} ({} requested)", what, range, k, v.count));
                    }
                }
            }
            Ok(())
        },
    );
    c.explore(
        "hash-driven, every element",
        "2..1500 blocks or units, up to 400 dependencies: enough hash inputs for every earlier block and every other unit to be selected, and each one is; non-trivial: always",
        c.n(400, 4000),
        || {
            (prop_oneof![2usize..20, 20usize..257, 257usize..1500], any::<u32>(), prop_oneof![1usize..20, 20usize..400], any::<u64>())
                .prop_map(|(num, r, count, seed)| HashCase { num, index: r as usize % num, count, seed, len: 16 })
                .boxed()
        },
        |v: &HashCase, o: &mut Obs| {
            o.nontrivial();
            let mut g = Prng(v.seed);
            for long in [true, false] {
                let range = if long { v.index } else { v.num };
                let mut left: BTreeSet<usize> = (0..range).filter(|x| long || *x != v.index).collect();
                // a single choice is a given element with probability at least half the even share; missed by all with probability below e^-60
                for _ in 0..120 * v.num / v.count + 120 {
                    if left.is_empty() {
                        break;
                    }
                    let d = g.bytes(v.len);
                    let r = if long { long_mode_random(v.num, &d, v.index, v.count) } else { short_depend_random(v.num, &d, v.index, v.count) };
                    o.steps += 1;
                    r.iter().for_each(|x| {
                        left.remove(x);
                    });
                }
                if let Some(x) = left.iter().next() {
                    return Err(format!("{} {} of {} never depends on {} ({} requested)", if long { "block" } else { "unit" }, v.index, v.num, x, v.count));
                }
            }
            Ok(())
        },
    );
}
