//! C03 (marked space), C04 (first response).
use crate::gen::*;
use ark_bls12_381::Fr;
use pbt::{Check, Obs, Prng};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use space_crate::mimc::mimc_df::MIMC5_DF_ROUNDS;
use space_crate::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use space_crate::proof_of_space::pospace::RESPONSE_COUNT;
use space_crate::proof_of_space::prover::*;
use std::fs;

pub fn space_len(n: usize) -> usize {
    (((n + 1) << n) + 7) / 8
}

/// Independent reading of one cell: (value, flag).
pub fn cell(file: &[u8], n: usize, y: usize) -> (u64, bool) {
    let bit = |k: usize| (file[k / 8] >> (k % 8)) & 1;
    let base = (n + 1) * y;
    let mut v = 0u64;
    for i in 0..n {
        v |= (bit(base + i) as u64) << i;
    }
    (v, bit(base + n) == 1)
}

pub fn put_cell(file: &mut [u8], n: usize, y: usize, x: u64, flag: bool) {
    let base = (n + 1) * y;
    for i in 0..=n {
        let b = if i < n { (x >> i) & 1 == 1 } else { flag };
        let k = base + i;
        if b {
            file[k / 8] |= 1 << (k % 8);
        } else {
            file[k / 8] &= !(1 << (k % 8));
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    n: usize,
    key: Fe,
    m: Fe,
    c: Consts,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MarkCase {
    prior: Option<Data>,
    sessions: Vec<Session>,
}

fn run_mark(v: &MarkCase, o: &mut Obs) -> Result<(), String> {
    let path = o.path("space");
    let _ = fs::remove_file(&path);
    if let Some(d) = &v.prior {
        fs::write(&path, d.get()).unwrap();
    }
    for s in &v.sessions {
        o.steps += 1;
        let n = s.n;
        prepare_space(&path, n).map_err(|e| format!("prepare fails: {}", e))?;
        let f = fs::read(&path).unwrap();
        if f.len() != space_len(n) {
            return Err(format!("prepared space of n={} has {} bytes, expected {}", n, f.len(), space_len(n)));
        }
        if let Some(y) = (0..1usize << n).find(|y| cell(&f, n, *y).1) {
            return Err(format!("cell {} of the freshly prepared space is flagged", y));
        }
        let (key, m): (Fr, Fr) = (s.key.fr(), s.m.fr());
        let c: Vec<Fr> = s.c.get(MIMC5_DF_ROUNDS);
        mark_space(&path, key, m, &c, n);
        let f = fs::read(&path).unwrap();
        if f.len() != space_len(n) {
            return Err(format!("marked space of n={} has {} bytes, expected {}", n, f.len(), space_len(n)));
        }
        let img: Vec<usize> = (0..1u64 << n).map(|x| low_bits(&ref_df(Fr::from(x) + key, m, &c, 5), n)).collect();
        let mut hit = vec![false; 1 << n];
        img.iter().for_each(|y| hit[*y] = true);
        for y in 0..1usize << n {
            let (x, flag) = cell(&f, n, y);
            if flag != hit[y] {
                return Err(format!("n={}: cell {} is {}flagged, but it has {} preimage", n, y, if flag { "" } else { "not " }, if hit[y] { "a" } else { "no" }));
            }
            if flag && img[x as usize] != y {
                return Err(format!("n={}: cell {} holds {}, which maps to {}", n, y, x, img[x as usize]));
            }
        }
        o.label(format!("n={:02}", n));
        o.nontrivial_if(n > 0);
    }
    let _ = fs::remove_file(&path);
    Ok(())
}

fn session(n: impl Strategy<Value = usize> + 'static) -> BoxedStrategy<Session> {
    (n, fe(), fe(), consts()).prop_map(|(n, key, m, c)| Session { n, key, m, c }).boxed()
}

fn prior() -> BoxedStrategy<Option<Data>> {
    let d = prop_oneof![
        (any::<u64>(), 0usize..20000).prop_map(|(seed, len)| Data::Prng { seed, len }),
        (0usize..20000).prop_map(|len| Data::Fill { byte: 255, len }),
    ];
    prop::option::weighted(0.6, d).boxed()
}

pub fn c03(c: &mut Check) {
    c.explore(
        "small",
        "histories of 1..4 prepare/mark sessions with n=0..9 on one path, over an absent or arbitrary file; non-trivial: a session with n>0",
        c.n(6000, 40000),
        || {
            (prior(), prop::collection::vec(session(0usize..=9), 1..4))
                .prop_map(|(prior, sessions)| MarkCase { prior, sessions })
                .boxed()
        },
        run_mark,
    );
    c.explore(
        "medium",
        "one or two sessions with n=8..13 on one path; non-trivial: always",
        c.n(180, 600),
        || {
            (prior(), prop::collection::vec(session(8usize..=13), 1..3))
                .prop_map(|(prior, sessions)| MarkCase { prior, sessions })
                .boxed()
        },
        run_mark,
    );
    c.shrink_iters = 10;
    c.explore(
        "large",
        "one session with n=14..20 (20 is the shipped size); non-trivial: always",
        c.n(24, 64),
        || {
            (session(prop_oneof![12 => 14usize..=17, 1 => 18usize..=19, 2 => Just(20usize)]), any::<u64>())
                .prop_map(|(s, seed)| MarkCase { prior: Some(Data::Prng { seed, len: 4 << 20 }), sessions: vec![s] })
                .boxed()
        },
        run_mark,
    );
}

// ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Space {
    /// random bytes (every cell arbitrary, half of them flagged)
    Random(u64),
    /// random cells with a given percentage of flagged ones; unflagged cells keep junk values
    Density(u64, u8),
    /// produced by the repository's own prepare and mark
    Marked(Fe, Consts),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RespCase {
    n: usize,
    space: Space,
    challenges: Vec<u32>,
    key: Fe,
    c: Consts,
}

fn run_resp(v: &RespCase, o: &mut Obs) -> Result<(), String> {
    let path = o.path("space");
    let n = v.n;
    let key: Fr = v.key.fr();
    match &v.space {
        Space::Random(s) => fs::write(&path, Prng(*s).bytes(space_len(n))).unwrap(),
        Space::Density(s, d) => {
            let mut p = Prng(*s);
            let mut f = vec![0u8; space_len(n)];
            for y in 0..1usize << n {
                let x = p.next() & ((1 << n) - 1);
                let fl = p.below(100) < *d as u64;
                put_cell(&mut f, n, y, x, fl);
            }
            fs::write(&path, f).unwrap();
        }
        Space::Marked(m, c) => {
            prepare_space(&path, n).unwrap();
            let c: Vec<Fr> = c.get(MIMC5_DF_ROUNDS);
            mark_space(&path, key, m.fr(), &c, n);
        }
    }
    let before = fs::read(&path).unwrap();
    if before.len() < space_len(n) {
        // a space that was not prepared properly is C03's concern
        o.label("skipped: short space");
        return Ok(());
    }
    let ch: Vec<usize> = v.challenges.iter().map(|x| *x as usize & ((1 << n) - 1)).collect();
    let hc: Vec<Fr> = v.c.get(MIMC5_HASH_ROUNDS);
    let mut xs = vec![];
    let mut idx = vec![];
    for (i, y) in ch.iter().enumerate() {
        if idx.len() == RESPONSE_COUNT {
            break;
        }
        let (x, fl) = cell(&before, n, *y);
        if fl {
            xs.push(Fr::from(x));
            idx.push(i);
        }
    }
    let (gx, gi, gh) = response_1(&path, &ch, key, &hc, n);
    o.label_if(idx.len() == RESPONSE_COUNT, "required number reached");
    o.label_if(idx.is_empty(), "nothing to answer");
    o.label_if(idx.len() == RESPONSE_COUNT && idx[RESPONSE_COUNT - 1] + 1 < ch.len(), "stopped early");
    o.label(format!("n={:02}", n));
    o.nontrivial_if(!idx.is_empty() && idx.len() < ch.len());
    if gi != idx {
        return Err(format!("answered positions {:?}, expected {:?}", gi, idx));
    }
    if gx != xs {
        let k = (0..xs.len()).find(|k| gx.get(*k) != Some(&xs[*k]));
        return Err(format!("answered values differ from the stored ones (first at {:?}; {} of {})", k, gx.len(), xs.len()));
    }
    if gh != ref_multi(&xs, key, &hc, 5) {
        return Err("the hash is not the hash of the answered values under the key".into());
    }
    if fs::read(&path).unwrap() != before {
        return Err("answering modified the space".into());
    }
    // deterministic and repeatable
    let again = response_1(&path, &ch, key, &hc, n);
    if again != (gx, gi, gh) {
        return Err("answering twice gives two responses".into());
    }
    let _ = fs::remove_file(&path);
    Ok(())
}

fn challenges() -> BoxedStrategy<Vec<u32>> {
    let val = prop_oneof![12 => any::<u32>(), 1 => Just(0u32), 1 => Just(u32::MAX), 1 => 0u32..4].boxed();
    prop_oneof![
        2 => prop::collection::vec(val.clone(), 0..12),
        3 => prop::collection::vec(val.clone(), 12..120),
        1 => prop::collection::vec(val, 120..260),
    ]
    .boxed()
}

fn resp_case(n: impl Strategy<Value = usize> + 'static, big: bool) -> BoxedStrategy<RespCase> {
    let space = if big {
        any::<u64>().prop_map(Space::Random).boxed()
    } else {
        prop_oneof![
            3 => any::<u64>().prop_map(Space::Random),
            4 => (any::<u64>(), prop_oneof![Just(0u8), Just(20), Just(45), Just(63), Just(90), Just(100)]).prop_map(|(s, d)| Space::Density(s, d)),
            1 => (fe(), consts()).prop_map(|(m, c)| Space::Marked(m, c)),
        ]
        .boxed()
    };
    (n, space, challenges(), fe(), consts())
        .prop_map(|(n, space, challenges, key, c)| RespCase { n, space, challenges, key, c })
        .boxed()
}

pub fn c04(c: &mut Check) {
    c.explore(
        "small",
        "spaces n=0..10 with arbitrary content, any flag density or really marked; 0..260 challenges with repetitions; non-trivial: some but not all challenges answered",
        c.n(30000, 200000),
        || resp_case(0usize..=10, false),
        run_resp,
    );
    c.explore(
        "every cell",
        "n=0..8, all cells challenged in a random rotation; non-trivial: some but not all challenges answered",
        c.n(4000, 20000),
        || {
            (resp_case(0usize..=8, false), any::<u32>())
                .prop_map(|(mut v, r)| {
                    let m = 1u32 << v.n;
                    v.challenges = (0..m).map(|i| (i.wrapping_mul(5).wrapping_add(r)) % m).collect();
                    v
                })
                .boxed()
        },
        run_resp,
    );
    c.explore(
        "large",
        "spaces n=11..20 of arbitrary content; non-trivial: some but not all challenges answered",
        c.n(1000, 6000),
        || resp_case(11usize..=20, true),
        run_resp,
    );
    let whole = pbt::out_of_memory("far cells");
    c.explore(
        "far cells",
        "sparse spaces n=21..34 (up to 75 GB) with a few written cells, their neighbours and empty ones challenged; non-trivial: the file system allows such a file and some cell is flagged",
        c.n(600, 6000),
        || {
            let cell = (any::<u64>(), any::<u64>(), any::<bool>(), 0u8..3);
            (21usize..=34, prop::collection::vec(cell, 1..70), fe(), consts()).prop_map(|(n, cells, key, c)| FarCase { n, cells, key, c }).boxed()
        },
        move |v: &FarCase, o: &mut Obs| {
            if whole {
                o.label("skipped: whole spaces are kept in memory");
                return Ok(());
            }
            run_far(v, o)
        },
    );
}

/// Answers a challenge in a sparse space of 8 GB.
pub fn probe_far(_: &str, dir: &std::path::Path) -> Vec<String> {
    let path = dir.join("far");
    let f = fs::File::create(&path).unwrap();
    if f.set_len(space_len(31) as u64).is_ok() {
        response_1(path.to_str().unwrap(), &vec![5, 1 << 30], Fr::from(1u64), &vec![Fr::from(1u64); MIMC5_HASH_ROUNDS], 31);
    }
    vec![]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FarCase {
    n: usize,
    /// position, value, flag; how far from the end of the space the position is taken
    cells: Vec<(u64, u64, bool, u8)>,
    key: Fe,
    c: Consts,
}

fn run_far(v: &FarCase, o: &mut Obs) -> Result<(), String> {
    use std::os::unix::fs::FileExt;
    let path = o.path("far");
    let _ = fs::remove_file(&path);
    let n = v.n;
    let f = fs::OpenOptions::new().read(true).write(true).create(true).open(&path).unwrap();
    let len = space_len(n) as u64;
    if f.set_len(len).is_err() {
        o.label("skipped: no such file possible");
        return Ok(());
    }
    let mask = (1u64 << n) - 1;
    let mut model = std::collections::BTreeMap::new();
    let mut ch = vec![];
    for (y, x, flag, end) in &v.cells {
        let y = match end {
            0 => y & mask,
            1 => mask - (y & 0xff),
            // around powers of two, in bits or in bytes
            _ => ((1u64 << (31 + y % 5)) / (n as u64 + 1) + (y >> 32) % 5).min(mask),
        };
        // a neighbouring cell shares bytes with this one
        let mut b = [0u8; 16];
        let first = (n as u64 + 1) * y / 8;
        let have = 16.min((len - first) as usize);
        f.read_exact_at(&mut b[..have], first).unwrap();
        let off = ((n as u64 + 1) * y % 8) as usize;
        for i in 0..=n {
            let bit = if i < n { x >> i & 1 == 1 } else { *flag };
            let k = off + i;
            b[k / 8] = b[k / 8] & !(1 << (k % 8)) | (bit as u8) << (k % 8);
        }
        f.write_all_at(&b[..have], first).unwrap();
        model.insert(y, (x & mask, *flag));
        ch.push(y as usize);
        ch.push((y as usize + 1) & mask as usize);
    }
    let hc: Vec<Fr> = v.c.get(MIMC5_HASH_ROUNDS);
    let key: Fr = v.key.fr();
    let hits: Vec<(usize, Fr)> = ch
        .iter()
        .enumerate()
        .filter_map(|(i, y)| model.get(&(*y as u64)).filter(|c| c.1).map(|c| (i, Fr::from(c.0))))
        .take(RESPONSE_COUNT)
        .collect();
    o.nontrivial_if(!hits.is_empty());
    o.label_if(hits.len() == RESPONSE_COUNT, "required number reached");
    o.label(format!("n={:02}", n));
    let (gx, gi, gh) = response_1(&path, &ch, key, &hc, n);
    let size = f.metadata().unwrap().len();
    let _ = fs::remove_file(&path);
    let xs: Vec<Fr> = hits.iter().map(|h| h.1).collect();
    let idx: Vec<usize> = hits.iter().map(|h| h.0).collect();
    if gi != idx {
        return Err(format!("n={}: answered positions {:?}, expected {:?}", n, gi, idx));
    }
    if gx != xs {
        return Err(format!("n={}: answered values differ from the stored ones", n));
    }
    if gh != ref_multi(&xs, key, &hc, 5) {
        return Err("the hash is not the hash of the answered values under the key".into());
    }
    if size != len {
        return Err(format!("answering changes the length of the space from {} to {}", len, size));
    }
    Ok(())
}
