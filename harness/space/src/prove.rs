//! C05 (honest proofs are accepted), C06 (the verifier rejects everything else).
use crate::circuits::{change, Change};
use crate::gen::*;
use crate::space::{cell, put_cell, space_len};
use ark_bls12_381::{Bls12_381, Fr};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_groth16::{PreparedVerifyingKey, Proof, ProvingKey};
use pbt::{catch, Check, Obs, Prng};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use space_crate::mimc::mimc_df::MIMC5_DF_ROUNDS;
use space_crate::mimc::mimc_hash::MIMC5_HASH_ROUNDS;
use space_crate::proof_of_space::pospace::{pospace, N, RESPONSE_COUNT};
use space_crate::proof_of_space::prover::*;
use space_crate::proof_of_space::verifier::{create_challenges, verify};
use std::collections::{BTreeSet, HashMap};
use std::fs;
use std::sync::{Arc, Mutex, OnceLock};

const K: usize = RESPONSE_COUNT;

// ---- parameters (generated once per list of constants) --------------------------------------

struct Setup {
    df: Vec<Fr>,
    hash: Vec<Fr>,
    pk: ProvingKey<Bls12_381>,
}

type Cell<T> = Arc<OnceLock<T>>;

/// get-or-compute without holding the map's lock during the computation
fn cached<T>(map: &Mutex<HashMap<String, Cell<Arc<T>>>>, key: String, f: impl FnOnce() -> T) -> Arc<T> {
    let c = map.lock().unwrap().entry(key).or_default().clone();
    c.get_or_init(|| Arc::new(f())).clone()
}

static SETUPS: OnceLock<Mutex<HashMap<String, Cell<Arc<Setup>>>>> = OnceLock::new();

/// Number 0 has the constants 1, 2, 3..; number 1 has the constant 0 everywhere; the others are random.
fn setup(i: u8) -> Arc<Setup> {
    cached(SETUPS.get_or_init(Default::default), i.to_string(), || {
        let (d, h) = match i {
            0 => (Consts::Index, Consts::Index),
            1 => (Consts::Same(Fe::of_u64(0)), Consts::Same(Fe::of_u64(0))),
            _ => (Consts::Random(1000 + i as u64), Consts::Random(2000 + i as u64)),
        };
        let (df, hash): (Vec<Fr>, Vec<Fr>) = (d.get(MIMC5_DF_ROUNDS), h.get(MIMC5_HASH_ROUNDS));
        let pk = construct_circuit(&df, &hash);
        Setup { df, hash, pk }
    })
}

// ---- sessions -------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sess {
    setup: u8,
    key: Fe,
    m: Fe,
    seed: u64,
    /// challenges that can be answered beyond the required number
    surplus: u8,
    /// challenges that cannot be answered
    holes: u16,
    /// how m depends on the key: 0 not at all, 1 equal, 2 opposite; 3: the key cancels a preimage
    tie: u8,
    /// look for preimages of the cells 0, 1, .. and 2^N - 1, ..
    edge_cells: bool,
    /// how many of the stored preimages are edge values (0, 1, 2^N - 1, ..)
    edges: u8,
    /// how many answerable challenges repeat an earlier one
    repeats: u8,
}

fn sess(setups: u8) -> BoxedStrategy<Sess> {
    (
        (0..setups, fe(), fe(), any::<u64>()),
        (prop_oneof![Just(0u8), 1u8..30], prop_oneof![3 => Just(0u16), 5 => 1u16..60, 1 => 150u16..420], 0u8..4, prop_oneof![2 => Just(0u8), 1 => 1u8..5]),
        (prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], prop::bool::weighted(0.2)),
    )
        .prop_map(|((setup, key, m, seed), (surplus, holes, edges, repeats), (tie, edge_cells))| Sess { setup, key, m, seed, surplus, holes, edges, repeats, tie, edge_cells })
        .boxed()
}

struct Live {
    st: Arc<Setup>,
    key: Fr,
    m: Fr,
    ch: Vec<usize>,
    xs: Vec<Fr>,
    idx: Vec<usize>,
    hash: Fr,
}

struct Proved {
    live: Live,
    pvk: PreparedVerifyingKey<Bls12_381>,
    proof: Proof<Bls12_381>,
}

fn relation(st: &Setup, key: Fr, m: Fr, xs: &[Fr], ys: &[usize], hash: Fr) -> bool {
    xs.len() == ys.len() && xs.iter().zip(ys).all(|(x, y)| low_bits(&ref_df(key + x, m, &st.df, 5), N) == *y) && hash == ref_multi(xs, key, &st.hash, 5)
}

impl Live {
    /// A space holding the preimages of the challenged cells, answered by the repository's prover.
    fn new(s: &Sess, dir: &std::path::Path) -> Result<Live, String> {
        let st = setup(s.setup);
        let (mut key, mut m) = (s.key.fr(), s.m.fr());
        let mut p = Prng(s.seed);
        match s.tie {
            1 => m = key,
            2 => m = -key,
            3 => key = -Fr::from(p.below(4)),
            _ => (),
        }
        let mut special: Vec<u64> = match s.tie {
            3 => vec![0, 1, 2, 3],
            _ => vec![],
        };
        if s.edge_cells {
            let hit: Vec<u64> = (0..1u64 << N).filter(|x| low_bits(&ref_df(Fr::from(*x) + key, m, &st.df, 5), N).wrapping_add(2) % (1 << N) < 4).collect();
            special.extend(hit.iter().take(12));
        }
        let mut file = vec![0u8; space_len(N)];
        let mut answerable = vec![];
        for i in 0..K + s.surplus as usize {
            if i > 0 && i <= s.repeats as usize {
                answerable.push(answerable[p.below(i as u64) as usize]);
                continue;
            }
            let x = match i < s.edges as usize {
                _ if !special.is_empty() => special.pop().unwrap(),
                true => [0, 1, (1 << N) - 1, 1 << (N - 1)][p.below(4) as usize],
                false => p.below(1 << N),
            };
            let y = low_bits(&ref_df(Fr::from(x) + key, m, &st.df, 5), N);
            put_cell(&mut file, N, y, x, true);
            answerable.push(y);
        }
        let mut ch = answerable;
        for _ in 0..s.holes {
            // (junk value, no flag)
            loop {
                let y = p.below(1 << N) as usize;
                if !cell(&file, N, y).1 {
                    put_cell(&mut file, N, y, p.below(1 << N), false);
                    ch.push(y);
                    break;
                }
            }
        }
        for i in (1..ch.len()).rev() {
            ch.swap(i, p.below(i as u64 + 1) as usize);
        }
        let path = dir.join(format!("space{}", s.seed));
        fs::write(&path, &file).unwrap();
        let (xs, idx, hash) = response_1(path.to_str().unwrap(), &ch, key, &st.hash, N);
        fs::remove_file(&path).unwrap();
        if xs.len() != K {
            return Err(format!("{} of {} required challenges answered", xs.len(), K));
        }
        Ok(Live { st, key, m, ch, xs, idx, hash })
    }
    fn prove(self) -> Proved {
        let (pvk, proof) = response_2(self.st.pk.clone(), self.key, &self.xs, self.m, &self.st.df, &self.ch, &self.idx, self.hash, &self.st.hash);
        Proved { pvk, proof, live: self }
    }
}

fn accepts(pvk: &PreparedVerifyingKey<Bls12_381>, proof: &Proof<Bls12_381>, key: Fr, m: Fr, ch: &Vec<usize>, idx: &Vec<usize>, hash: Fr) -> Result<(), String> {
    catch(|| verify(pvk.clone(), proof.clone(), key, m, ch, idx, hash))
}

// ---- C05 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Honest {
    sess: Sess,
    /// changes of unanswered challenges
    noise: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Whole {
    /// prepare, mark, challenge, respond, prove, verify, step by step
    Steps { setup: u8, key: Fe, m: Fe },
    /// the repository's own driver
    Driver,
}

pub fn c05(c: &mut Check) {
    c.hang_cpu_s = 300;
    c.shrink_iters = 12;
    let setups = if c.thorough() { 12 } else { 5 };
    c.explore(
        "honest session",
        "edge-biased key and m, several lists of constants, stored preimages 0..2^N-1 incl. edges, repeated and unanswerable challenges, surplus answers; accepted, again with every unanswered challenge replaced and others appended; non-trivial: some challenge unanswered",
        c.n(96, 1500),
        || (sess(setups), any::<u64>()).prop_map(|(sess, noise)| Honest { sess, noise }).boxed(),
        |v: &Honest, o: &mut Obs| {
            let s = &v.sess;
            let live = Live::new(s, &o.scratch)?;
            let (key, m) = (live.key, live.m);
            let p = live.prove();
            let l = &p.live;
            if let Err(e) = accepts(&p.pvk, &p.proof, key, m, &l.ch, &l.idx, l.hash) {
                return Err(format!("an honest proof is rejected: {}", e));
            }
            let mut g = Prng(v.noise);
            let mut ch = l.ch.clone();
            let used: BTreeSet<usize> = l.idx.iter().copied().collect();
            for i in 0..ch.len() {
                if !used.contains(&i) {
                    ch[i] = g.below(1 << N) as usize;
                }
            }
            ch.extend((0..3).map(|_| g.below(1 << N) as usize));
            if let Err(e) = accepts(&p.pvk, &p.proof, key, m, &ch, &l.idx, l.hash) {
                return Err(format!("rejected after changing challenges that were not answered: {}", e));
            }
            o.steps += 2;
            o.nontrivial_if(used.len() < l.ch.len());
            o.label_if(s.tie > 0, "key and m related, or key cancels a preimage");
            o.label_if(s.edge_cells, "first or last cells challenged");
            o.label_if(l.ch.len() > 256, "more than 256 challenges");
            o.label_if(s.surplus > 0, "more answerable than required");
            o.label_if(s.holes > 0, "unanswerable challenges");
            o.label_if(s.repeats > 0, "repeated challenge");
            o.label(format!("constants {}", s.setup));
            Ok(())
        },
    );
    c.hang_cpu_s = 800;
    c.shrink_iters = 2;
    let n = c.n(2, 6) as u8;
    let mut list = vec![];
    for i in 0..n {
        let mut p = Prng(c.seed.wrapping_mul(977).wrapping_add(i as u64));
        let f = |p: &mut Prng| Fe([p.next(), p.next(), p.next(), p.next()]);
        list.push(Whole::Steps { setup: 2 + i % 3, key: f(&mut p), m: f(&mut p) });
        if i % 2 == 0 {
            list.push(Whole::Driver);
        }
    }
    c.enumerate(
        "whole protocol",
        "prepare, mark 2^N cells, challenge, respond, prove and verify with the repository's functions, and its own driver; non-trivial: at least the required number of challenges answered",
        list,
        |v: &Whole, o: &mut Obs| {
            let path = o.path("space");
            match v {
                Whole::Steps { setup: i, key, m } => {
                    let st = setup(*i);
                    let (key, m) = (key.fr(), m.fr());
                    prepare_space(&path, N).map_err(|e| e.to_string())?;
                    mark_space(&path, key, m, &st.df, N);
                    // with 100 challenges 50 are missed about once in 250 sessions: draw again
                    for _ in 0..6 {
                        let ch = create_challenges(100, N);
                        let (xs, idx, hash) = response_1(&path, &ch, key, &st.hash, N);
                        if idx.len() < K {
                            o.label("too few answerable challenges, drawn again");
                            continue;
                        }
                        o.nontrivial();
                        let (pvk, proof) = response_2(st.pk.clone(), key, &xs, m, &st.df, &ch, &idx, hash, &st.hash);
                        if let Err(e) = accepts(&pvk, &proof, key, m, &ch, &idx, hash) {
                            return Err(format!("the proof of a really marked space is rejected: {}", e));
                        }
                        let _ = fs::remove_file(&path);
                        return Ok(());
                    }
                    Err(format!("a marked space answers fewer than {} of 100 challenges, six times in a row", K))
                }
                Whole::Driver => {
                    let mut last = String::new();
                    for _ in 0..3 {
                        let save = o.path("result");
                        let (d, h, k, m) = space_crate::proof_of_space::pospace::prepare_params();
                        let mut f = fs::File::create(&save).unwrap();
                        match catch(|| pospace(&path, d, h, k, m, &mut f)) {
                            Ok(()) => {
                                o.nontrivial();
                                let _ = fs::remove_file(&path);
                                return Ok(());
                            }
                            // it has no way out when too few challenges can be answered (rare)
                            Err(e) => last = e,
                        }
                        o.label("driver repeated");
                    }
                    Err(format!("the driver fails three times in a row: {}", last))
                }
            }
        },
    );
}

// ---- C06 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Point {
    Neg,
    Double,
    Generator,
    Zero,
    /// the same element of another session's proof
    Other(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    Key(Change),
    M(Change),
    SwapKeyM,
    /// position among the answered ones
    FlipChallenge(u8, u8),
    SetChallenge(u8, u32),
    /// challenges of 2^N and more with the same low bits
    HighChallenge(u8, u16, u8),
    SwapIdx(u8, u8),
    Rotate(u8),
    Reverse,
    UnansweredIdx(u8, u8),
    Dup(u8, u8),
    /// replace the answer of a repeated challenge by the other occurrence's index
    DupSameChallenge(u8),
    AllSame(u8),
    /// an index beyond the list of challenges, congruent to the proved one
    Beyond(u8, u8),
    Truncate(u8),
    DropOne(u8),
    Extend(u8),
    Empty,
    Hash(Change),
    A(Point),
    B(Point),
    C(Point),
    /// a proof of three neutral elements, of three generators
    Trivial(bool),
    OtherProof(u8),
    OtherStatement(u8),
    OtherParameters,
}

fn mutation() -> BoxedStrategy<Mutation> {
    let point = || prop_oneof![Just(Point::Neg), Just(Point::Double), Just(Point::Generator), Just(Point::Zero), any::<u8>().prop_map(Point::Other)];
    prop_oneof![
        3 => change().prop_map(Mutation::Key),
        3 => change().prop_map(Mutation::M),
        1 => Just(Mutation::SwapKeyM),
        3 => (any::<u8>(), 0u8..N as u8).prop_map(|(a, b)| Mutation::FlipChallenge(a, b)),
        2 => (any::<u8>(), 0u32..1 << N).prop_map(|(a, b)| Mutation::SetChallenge(a, b)),
        1 => (any::<u8>(), 1u16..100, prop_oneof![2 => Just(0u8), 1 => 0u8..37]).prop_map(|(a, b, c)| Mutation::HighChallenge(a, b, c)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::SwapIdx(a, b)),
        1 => (1u8..50).prop_map(Mutation::Rotate),
        1 => Just(Mutation::Reverse),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::UnansweredIdx(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::Dup(a, b)),
        2 => any::<u8>().prop_map(Mutation::DupSameChallenge),
        1 => any::<u8>().prop_map(Mutation::AllSame),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutation::Beyond(a, b)),
        2 => (0u8..50).prop_map(Mutation::Truncate),
        2 => any::<u8>().prop_map(Mutation::DropOne),
        1 => any::<u8>().prop_map(Mutation::Extend),
        1 => Just(Mutation::Empty),
        4 => change().prop_map(Mutation::Hash),
        1 => point().prop_map(Mutation::A),
        1 => point().prop_map(Mutation::B),
        1 => point().prop_map(Mutation::C),
        1 => any::<bool>().prop_map(Mutation::Trivial),
        1 => any::<u8>().prop_map(Mutation::OtherProof),
        1 => any::<u8>().prop_map(Mutation::OtherStatement),
        1 => Just(Mutation::OtherParameters),
    ]
    .boxed()
}

static PROVED: OnceLock<Mutex<HashMap<String, Cell<Arc<Result<Proved, String>>>>>> = OnceLock::new();

/// Session number `i` of this seed (deterministic up to the prover's own randomness).
fn proved(seed: u64, i: u8, dir: &std::path::Path) -> Arc<Result<Proved, String>> {
    cached(PROVED.get_or_init(Default::default), format!("{}/{}", seed, i), || {
        let mut p = Prng(seed.wrapping_mul(31).wrapping_add(i as u64));
        let mut f = |e: bool| if e { Fe::of_u64(p.below(3)) } else { Fe([p.next(), p.next(), p.next(), p.next()]) };
        let s = Sess {
            setup: if i % 4 == 3 { 3 } else { 2 },
            key: f(i % 5 == 4),
            m: f(i % 5 == 3),
            seed: seed.wrapping_mul(1000).wrapping_add(i as u64),
            surplus: if i % 3 == 0 { 5 } else { 0 },
            holes: if i % 6 == 5 { 300 } else { 10 + i as u16 },
            tie: [0, 0, 1, 2, 0, 3][i as usize % 6],
            edge_cells: i % 4 == 1,
            edges: i % 3,
            repeats: if i % 2 == 1 { 3 } else { 0 },
        };
        let live = Live::new(&s, dir)?;
        catch(|| live.prove())
    })
}

fn mutate_g<G: AffineCurve>(v: G, k: &Point, other: G) -> G {
    match k {
        Point::Neg => -v,
        Point::Double => (v.into_projective() + v.into_projective()).into_affine(),
        Point::Generator => G::prime_subgroup_generator(),
        Point::Zero => G::zero(),
        Point::Other(_) => other,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MutCase {
    seed: u64,
    sess: u8,
    muts: Vec<Mutation>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cheat {
    /// other preimages at some positions, hash of the preimages used
    WrongX(Vec<(u8, Fe)>),
    NearX(u8, Change),
    SwapX(u8, u8),
    /// honest preimages but a false hash, proved and verified with it
    FalseHash(Change),
    /// preimages found for another key or m
    OtherKey(Change),
    OtherM(Change),
    /// everything proved for one key or m, verified with another
    ProveKey(Change),
    ProveM(Change),
    FalseChallenge(u8, u8),
    /// one good answer counted for every required response
    AllSame(u8),
    Twice(u8, u8),
    Fewer(u8),
    /// constants other than those of the parameters
    OtherConstants(u64),
}

fn cheat() -> BoxedStrategy<Cheat> {
    prop_oneof![
        2 => prop::collection::vec((any::<u8>(), fe()), 1..4).prop_map(Cheat::WrongX),
        2 => (any::<u8>(), change()).prop_map(|(a, b)| Cheat::NearX(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Cheat::SwapX(a, b)),
        2 => change().prop_map(Cheat::FalseHash),
        1 => change().prop_map(Cheat::OtherKey),
        1 => change().prop_map(Cheat::OtherM),
        1 => change().prop_map(Cheat::ProveKey),
        1 => change().prop_map(Cheat::ProveM),
        2 => (any::<u8>(), 0u8..N as u8).prop_map(|(a, b)| Cheat::FalseChallenge(a, b)),
        1 => any::<u8>().prop_map(Cheat::AllSame),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Cheat::Twice(a, b)),
        1 => (0u8..50).prop_map(Cheat::Fewer),
        1 => any::<u64>().prop_map(Cheat::OtherConstants),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CheatCase {
    sess: Sess,
    cheat: Cheat,
}

pub fn c06(c: &mut Check) {
    c.hang_cpu_s = 300;
    c.shrink_iters = 40;
    let (seed, sessions) = (c.seed, c.n(12, 60) as u8);
    c.explore(
        "changed statement or proof",
        "one or two changes of key, m, answered challenges, indices (swapped, duplicated, dropped, added, unanswered), hash, proof elements, parameters, around an accepted proof; the verifier must panic; non-trivial: what is verified differs from what was proved (or an index is counted twice)",
        c.n(6000, 60000),
        move || {
            (0..sessions, prop::collection::vec(mutation(), 1..3)).prop_map(move |(sess, muts)| MutCase { seed, sess, muts }).boxed()
        },
        |v: &MutCase, o: &mut Obs| {
            let pr = proved(v.seed, v.sess, &o.scratch);
            let pr = (*pr).as_ref().map_err(|e| format!("no honest proof to start from: {}", e))?;
            let l = &pr.live;
            let (mut key, mut m, mut ch, mut idx, mut hash) = (l.key, l.m, l.ch.clone(), l.idx.clone(), l.hash);
            let (mut proof, mut pvk) = (pr.proof.clone(), pr.pvk.clone());
            let pos = |k: u8, idx: &Vec<usize>| if idx.is_empty() { None } else { Some(k as usize % idx.len()) };
            let (mut touched, mut elements) = (false, 0);
            for mu in &v.muts {
                o.label(format!("{:?}", mu).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string());
                match mu {
                    Mutation::Key(x) => key = x.of(key),
                    Mutation::M(x) => m = x.of(m),
                    Mutation::SwapKeyM => std::mem::swap(&mut key, &mut m),
                    Mutation::FlipChallenge(k, b) => {
                        if let Some(q) = pos(*k, &idx).filter(|q| idx[*q] < ch.len()) {
                            ch[idx[q]] ^= 1 << b;
                        }
                    }
                    Mutation::SetChallenge(k, y) => {
                        if let Some(q) = pos(*k, &idx).filter(|q| idx[*q] < ch.len()) {
                            ch[idx[q]] = *y as usize;
                        }
                    }
                    Mutation::HighChallenge(k, y, h) => {
                        if let Some(q) = pos(*k, &idx).filter(|q| idx[*q] < ch.len()) {
                            ch[idx[q]] = ch[idx[q]].wrapping_add((*y as usize) << (N + *h as usize));
                        }
                    }
                    Mutation::SwapIdx(a, b) => {
                        if let (Some(a), Some(b)) = (pos(*a, &idx), pos(*b, &idx)) {
                            idx.swap(a, b);
                        }
                    }
                    Mutation::Rotate(k) => {
                        if let Some(q) = pos(*k, &idx) {
                            idx.rotate_left(q);
                        }
                    }
                    Mutation::Reverse => idx.reverse(),
                    Mutation::UnansweredIdx(k, w) => {
                        let free: Vec<usize> = (0..ch.len()).filter(|i| !idx.contains(i)).collect();
                        if let (Some(q), false) = (pos(*k, &idx), free.is_empty()) {
                            idx[q] = free[*w as usize % free.len()];
                        }
                    }
                    Mutation::Dup(a, b) => {
                        if let (Some(a), Some(b)) = (pos(*a, &idx), pos(*b, &idx)) {
                            idx[a] = idx[b];
                        }
                    }
                    Mutation::DupSameChallenge(k) => {
                        let pairs: Vec<(usize, usize)> =
                            (0..idx.len()).flat_map(|a| (0..a).map(move |b| (a, b))).filter(|(a, b)| ch.get(idx[*a]).is_some() && ch.get(idx[*a]) == ch.get(idx[*b])).collect();
                        if !pairs.is_empty() {
                            let (a, b) = pairs[*k as usize % pairs.len()];
                            idx[a] = idx[b];
                        }
                    }
                    Mutation::AllSame(k) => {
                        if let Some(q) = pos(*k, &idx) {
                            idx = vec![idx[q]; idx.len()];
                        }
                    }
                    Mutation::Beyond(k, w) => {
                        if let Some(q) = pos(*k, &idx) {
                            idx[q] += match w % 5 {
                                0 => ch.len(),
                                1 => 256usize.max(ch.len().next_power_of_two()),
                                2 => 1 << 16,
                                3 => 1 << 32,
                                _ => ch.len() * (1 + *w as usize),
                            };
                        }
                    }
                    Mutation::Truncate(k) => idx.truncate(*k as usize),
                    Mutation::DropOne(k) => {
                        if let Some(q) = pos(*k, &idx) {
                            idx.remove(q);
                        }
                    }
                    Mutation::Extend(k) => {
                        let i = *k as usize % ch.len();
                        idx.push(i);
                    }
                    Mutation::Empty => idx.clear(),
                    Mutation::Hash(x) => hash = x.of(hash),
                    Mutation::A(k) | Mutation::B(k) | Mutation::C(k) => {
                        let other = match k {
                            Point::Other(j) => proved(v.seed, (v.sess + 1 + j % 3) % 12, &o.scratch),
                            _ => proved(v.seed, v.sess, &o.scratch),
                        };
                        let q = (*other).as_ref().map_err(|e| e.clone())?;
                        match mu {
                            Mutation::A(_) => proof.a = mutate_g(proof.a, k, q.proof.a),
                            Mutation::B(_) => proof.b = mutate_g(proof.b, k, q.proof.b),
                            _ => proof.c = mutate_g(proof.c, k, q.proof.c),
                        }
                        elements += 1;
                    }
                    Mutation::Trivial(zero) => {
                        let k = if *zero { Point::Zero } else { Point::Generator };
                        proof = Proof { a: mutate_g(proof.a, &k, proof.a), b: mutate_g(proof.b, &k, proof.b), c: mutate_g(proof.c, &k, proof.c) };
                        touched = true;
                    }
                    Mutation::OtherProof(j) => {
                        let other = proved(v.seed, (v.sess + 1 + j % 3) % 12, &o.scratch);
                        proof = (*other).as_ref().map_err(|e| e.clone())?.proof.clone();
                        touched = true;
                    }
                    Mutation::OtherStatement(j) => {
                        let other = proved(v.seed, (v.sess + 1 + j % 3) % 12, &o.scratch);
                        let q = &(*other).as_ref().map_err(|e| e.clone())?.live;
                        (key, m, ch, idx, hash) = (q.key, q.m, q.ch.clone(), q.idx.clone(), q.hash);
                        touched = true;
                    }
                    Mutation::OtherParameters => {
                        let i = if std::ptr::eq(&*l.st, &*setup(2)) { 3 } else { 2 };
                        pvk = ark_groth16::prepare_verifying_key(&setup(i).pk.vk);
                        touched = true;
                    }
                }
            }
            if elements > 1 || (touched && v.muts.len() > 1) {
                // two changed proof elements can cancel out; foreign parts can match each other: no verdict
                o.label("no verdict: combined with foreign parts");
                return Ok(());
            }
            let dup = (0..idx.len()).any(|a| idx[..a].contains(&idx[a]));
            let ys = |ch: &Vec<usize>, idx: &Vec<usize>| idx.iter().map(|i| ch.get(*i).copied()).collect::<Vec<_>>();
            let same = (key, m, hash) == (l.key, l.m, l.hash) && ys(&ch, &idx) == ys(&l.ch, &l.idx) && (proof.a, proof.b, proof.c) == (pr.proof.a, pr.proof.b, pr.proof.c) && !touched;
            if same && !dup {
                o.label("unchanged statement");
                return Ok(());
            }
            o.nontrivial();
            o.label_if(same && dup, "same statement, index counted twice");
            if v.sess % 2 == 0 {
                // what was proved has been verified before
                o.label("honest proof verified before");
                accepts(&pr.pvk, &pr.proof, l.key, l.m, &l.ch, &l.idx, l.hash).map_err(|e| format!("an honest proof is rejected: {}", e))?;
            }
            if accepts(&pvk, &proof, key, m, &ch, &idx, hash).is_ok() {
                return Err(format!("accepted after {:?}", v.muts));
            }
            Ok(())
        },
    );
    c.shrink_iters = 12;
    c.explore(
        "dishonest prover",
        "the prover is run on values that do not satisfy the statement (wrong, swapped or foreign preimages, false hash, key, m, challenge or constants, one answer counted several times, too few answers) and the result is verified against the claimed statement; non-trivial: the statement is false or an index is counted twice",
        c.n(64, 1500),
        || (sess(4), cheat()).prop_map(|(sess, cheat)| CheatCase { sess, cheat }).boxed(),
        |v: &CheatCase, o: &mut Obs| {
            let mut l = Live::new(&v.sess, &o.scratch)?;
            let pos = |k: &u8| *k as usize % K;
            // what is given to the prover (p*) and to the verifier (l)
            let (mut pkey, mut pm) = (l.key, l.m);
            let mut st_df = l.st.df.clone();
            match &v.cheat {
                Cheat::WrongX(w) => {
                    for (k, f) in w {
                        l.xs[pos(k)] = f.fr();
                    }
                }
                Cheat::NearX(k, f) => l.xs[pos(k)] = f.of(l.xs[pos(k)]),
                Cheat::SwapX(a, b) => l.xs.swap(pos(a), pos(b)),
                Cheat::OtherKey(f) => l.key = f.of(l.key),
                Cheat::OtherM(f) => l.m = f.of(l.m),
                Cheat::ProveKey(f) => pkey = f.of(l.key),
                Cheat::ProveM(f) => pm = f.of(l.m),
                Cheat::FalseChallenge(k, b) => {
                    let q = l.idx[pos(k)];
                    l.ch[q] ^= 1 << b;
                }
                Cheat::AllSame(k) => {
                    let q = pos(k);
                    l.idx = vec![l.idx[q]; K];
                    l.xs = vec![l.xs[q]; K];
                }
                Cheat::Twice(a, b) => {
                    let (a, b) = (pos(a), pos(b));
                    l.idx[a] = l.idx[b];
                    l.xs[a] = l.xs[b];
                }
                Cheat::Fewer(k) => {
                    l.idx.truncate(*k as usize);
                    l.xs.truncate(*k as usize);
                }
                Cheat::OtherConstants(s) => st_df[pos(&(*s as u8)) % MIMC5_DF_ROUNDS] += Fr::from(1u64),
                Cheat::FalseHash(_) => (),
            }
            if matches!(v.cheat, Cheat::OtherKey(_)) {
                pkey = l.key;
            }
            if matches!(v.cheat, Cheat::OtherM(_)) {
                pm = l.m;
            }
            l.hash = ref_multi(&l.xs, l.key, &l.st.hash, 5);
            if let Cheat::FalseHash(f) = &v.cheat {
                l.hash = f.of(l.hash);
            }
            let ys: Vec<usize> = l.idx.iter().map(|i| l.ch[*i]).collect();
            let dup = (0..l.idx.len()).any(|a| l.idx[..a].contains(&l.idx[a]));
            if l.idx.len() == K && !dup && relation(&l.st, l.key, l.m, &l.xs, &ys, l.hash) && (pkey, pm) == (l.key, l.m) && st_df == l.st.df {
                o.label("no verdict: the statement is true");
                return Ok(());
            }
            o.nontrivial();
            o.label(format!("{:?}", v.cheat).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string());
            let r = catch(|| response_2(l.st.pk.clone(), pkey, &l.xs, pm, &st_df, &l.ch, &l.idx, l.hash, &l.st.hash));
            let (pvk, proof) = match r {
                Ok(x) => x,
                Err(_) => {
                    o.label("the prover itself refuses");
                    return Ok(());
                }
            };
            if accepts(&pvk, &proof, l.key, l.m, &l.ch, &l.idx, l.hash).is_ok() {
                return Err(format!("accepted a proof made from false values ({:?})", v.cheat));
            }
            Ok(())
        },
    );
}
