//! C18 (Merkle commitment), C20 (published data), C21 (layout helpers), C22 (challenges and random files).
use crate::gen::*;
use pbt::{catch, Check, Obs, Prng};
use proptest::prelude::*;
use rs_merkle::{algorithms::Sha256, Hasher};
use rug::integer::IsPrime;
use rug::Integer;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fs::OpenOptions;
use storage_crate::proof_of_storage::common::*;
use storage_crate::proof_of_storage::merkle_tree::*;
use storage_crate::proof_of_storage::postorage::*;
use storage_crate::proof_of_storage::prover::*;
use storage_crate::proof_of_storage::verifier::*;

// ---- C18 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    leaf: usize,
    leaves: usize,
    data: Data,
    /// bytes of the file beyond the committed data
    extra: u16,
    ask: Vec<u16>,
    other: Vec<u16>,
    pos: u32,
    xor: u8,
}

fn tree(max: usize) -> BoxedStrategy<Tree> {
    (
        prop_oneof![8 => 1usize..5, 12 => 5usize..200, 4 => prop_oneof![Just(63usize), Just(64), Just(4032)], 1 => 4033usize..70000],
        prop_oneof![3 => 1usize..10, 2 => 1usize..=max],
        data(),
        prop_oneof![3 => Just(0u16), 1 => 1u16..300],
        prop_oneof![
            12 => (proptest::collection::vec(any::<u16>(), 1..8), proptest::collection::vec(any::<u16>(), 8..16)),
            3 => (proptest::collection::vec(any::<u16>(), 8..80), proptest::collection::vec(any::<u16>(), 80..200)),
            // every leaf
            1 => Just(((0..2048).collect(), vec![])),
        ],
        prop_oneof![3 => any::<u32>(), 1 => Just(0u32), 1 => Just(u32::MAX)],
        1u8..=255,
    )
        .prop_map(|(leaf, leaves, data, extra, (ask, other), pos, xor)| Tree { leaf, leaves, data, extra, ask, other, pos, xor })
        .boxed()
}

fn pick(v: &[u16], n: usize) -> Vec<usize> {
    v.iter().map(|x| *x as usize % n).collect::<BTreeSet<_>>().into_iter().collect()
}

/// An independent Merkle root: an odd node moves up unchanged.
fn ref_root(leaves: &[[u8; 32]]) -> [u8; 32] {
    let mut l = leaves.to_vec();
    while l.len() > 1 {
        l = l.chunks(2).map(|c| if c.len() == 2 { Sha256::hash(&[c[0], c[1]].concat()) } else { c[0] }).collect();
    }
    l[0]
}

fn merkle(v: &Tree, o: &mut Obs) -> Result<(), String> {
    let len = v.leaf * v.leaves;
    let mut file = v.data.get(len + v.extra as usize);
    let path = o.path("data");
    std::fs::write(&path, &file).unwrap();
    let blocks = split(&file[..len], v.leaf);
    let want: Vec<[u8; 32]> = blocks.iter().map(|b| Sha256::hash(b)).collect();
    o.nontrivial_if(v.leaves > 1);
    o.label_if(v.leaves.count_ones() != 1, "not a power of two");
    let (leaves, t, root) = generate_merkle_tree_from_file(&path, len, v.leaf);
    let (leaves2, t2, root2) = generate_merkle_tree_from_data(&blocks);
    if leaves != want {
        let i = (0..want.len()).find(|i| leaves.get(*i) != Some(&want[*i]));
        return Err(format!("{} leaves for {} blocks of {} bytes; leaf {:?} is not the hash of its block", leaves.len(), v.leaves, v.leaf, i));
    }
    if leaves2 != want || root2 != root {
        return Err("the trees built from the file and from its blocks differ".into());
    }
    if root != ref_root(&want) {
        return Err("the root does not cover the leaves".into());
    }
    let ask = pick(&v.ask, v.leaves);
    for t in [&t, &t2] {
        catch(|| verify_merkle_proof(generate_merkle_proof(&ask, t), root, &ask, &leaves)).map_err(|e| format!("proof for leaves {:?} of {} rejected: {}", ask, v.leaves, e))?;
    }
    let must_fail = |what: &str, r: [u8; 32], idx: &[usize], l: &Vec<[u8; 32]>| {
        if catch(|| verify_merkle_proof(generate_merkle_proof(&ask, &t), r, idx, l)).is_ok() {
            return Err(format!("proof for leaves {:?} of {} accepted with {}", ask, v.leaves, what));
        }
        Ok(())
    };
    let bit = v.pos as usize % 256;
    let mut r = root;
    r[bit / 8] ^= 1 << (bit % 8);
    must_fail("another root", r, &ask, &leaves)?;
    // every challenged leaf on its own
    o.label_if(ask.len() == v.leaves && v.leaves > 1, "all leaves");
    o.label_if(ask.len() > 7, "many leaves");
    for i in ask.iter().step_by(1 + ask.len() / 16) {
        let mut l = leaves.clone();
        l[*i][bit / 8] ^= v.xor;
        must_fail(&format!("another leaf {}", i), root, &ask, &l)?;
    }
    let distinct = leaves.iter().collect::<HashSet<_>>().len() == leaves.len();
    let mut idx: Vec<usize> = vec![];
    for x in pick(&v.other, v.leaves) {
        if idx.len() < ask.len() {
            idx.push(x);
        }
    }
    if distinct && idx.len() == ask.len() && idx != ask {
        o.label("other indices");
        must_fail(&format!("indices {:?}", idx), root, &idx, &leaves)?;
    }
    // one changed byte of the data changes its leaf and the root
    let i = v.pos as usize % len;
    file[i] ^= v.xor;
    let changed = o.path("changed");
    std::fs::write(&changed, &file).unwrap();
    let (l3, t3, root3) = generate_merkle_tree_from_file(&changed, len, v.leaf);
    if root3 == root || (0..v.leaves).any(|j| (l3[j] != leaves[j]) != (j == i / v.leaf)) {
        return Err(format!("changing byte {} (leaf {}) changes the wrong leaves or not the root", i, i / v.leaf));
    }
    if catch(|| verify_merkle_proof(generate_merkle_proof(&ask, &t3), root, &ask, &l3)).is_ok() {
        return Err("a proof from changed data is accepted against the original root".into());
    }
    let count = ask.len();
    catch(|| merkle_tree_proof(&path, &path, len, v.leaf, count)).map_err(|e| format!("equal files are rejected: {}", e))?;
    if catch(|| merkle_tree_proof(&path, &changed, len, v.leaf, count)).is_ok() {
        return Err(format!("files differing in byte {} are accepted as the same", i));
    }
    if catch(|| merkle_tree_proof(&changed, &path, len, v.leaf, count)).is_ok() {
        return Err(format!("files differing in byte {} are accepted as the same", i));
    }
    // a file that ends too early, before some data
    let last = (0..len).rev().find(|i| file[*i] != 0);
    if let Some(last) = last {
        let short = o.path("short");
        for cut in [0, last, v.pos as usize % (last + 1)] {
            std::fs::write(&short, &file[..cut]).unwrap();
            o.steps += 1;
            if catch(|| merkle_tree_proof(&changed, &short, len, v.leaf, count)).is_ok() {
                return Err(format!("the first {} of {} bytes are accepted as the whole file", cut, len));
            }
        }
    }
    // the file itself rewritten in place, with the times of the old one
    if generate_merkle_tree_from_file(&path, len, v.leaf).2 == root3 {
        return Err(format!("the root does not change with byte {}", i));
    }
    let times = std::fs::metadata(&path).unwrap();
    std::fs::write(&path, &file).unwrap();
    let f = std::fs::OpenOptions::new().write(true).open(&path).unwrap();
    f.set_times(std::fs::FileTimes::new().set_modified(times.modified().unwrap()).set_accessed(times.accessed().unwrap())).unwrap();
    let (l4, _, root4) = generate_merkle_tree_from_file(&path, len, v.leaf);
    if root4 != root3 || l4 != l3 {
        return Err(format!("the tree of a file rewritten in place (byte {}) is not that of its new contents", i));
    }
    Ok(())
}

pub fn c18(c: &mut Check) {
    c.explore(
        "large blocks",
        "1..6 blocks of 0.1..3 MB, one or two of up to 20 MB; non-trivial: more than one leaf",
        c.n(24, 200),
        || (tree(6), 100_000usize..3_000_000, 0u8..9).prop_map(|(mut t, leaf, few)| { t.leaves = 1 + t.leaves % if few < 5 { 2 } else { 6 }; t.leaf = if few == 0 { 4 * leaf + 8_000_000 } else { leaf }; t }).boxed(),
        merkle,
    );
    c.explore(
        "trees",
        "1..90 blocks of 1..4032 bytes: leaves, root, proofs for 1..80 or all leaves, altered root, leaf, indices and data, truncated files, a file rewritten in place; non-trivial: more than one leaf",
        c.n(7500, 40000),
        || tree(90),
        merkle,
    );
    c.explore("large trees", "up to 1500 blocks; non-trivial: more than one leaf", c.n(120, 800), || tree(1500), merkle);
    c.explore(
        "very large trees",
        "2000..70000 blocks of 1..40 bytes; non-trivial: always",
        c.n(10, 80),
        || (tree(6), prop_oneof![3 => 2000usize..20000, 2 => 20000usize..70000, 1 => Just(65537usize)], 1usize..40, any::<u32>()).prop_map(|(mut t, n, leaf, p)| { t.leaves = n; t.leaf = leaf; if p % 2 == 0 { t.pos = p % (leaf * n) as u32 } else { t.pos = (leaf * n) as u32 - 1 - p % (leaf * n / 8) as u32 }; t }).boxed(),
        merkle,
    );
    c.explore(
        "sealed identifiers",
        "the published tree over the identifiers of sealed blocks: leaf i is the hash of the identifier of sealed block i, proofs verify, a changed sealed block is noticed; non-trivial: more than one block",
        c.n(900, 4000),
        || (cfg(Dim { units: (1, 4), blocks: (1, 16), seal: (1, 2), vde: (0, 2), budget: 60 }), proptest::collection::vec(any::<u16>(), 1..6), any::<u32>()).boxed(),
        |(v, ask, pos): &(Cfg, Vec<u16>, u32), o: &mut Obs| {
            o.nontrivial_if(v.blocks > 1);
            let p = v.para();
            let (a, b) = (o.path("a"), o.path("b"));
            std::fs::write(&a, v.content()).unwrap();
            copy_and_pad(&a, &b, p.data_l, p.unit_l);
            let ids = seal(&p, &b, &v.modulus(), &v.iv()).0;
            let mut sealed = std::fs::read(&b).unwrap();
            let (leaves, t, root) = generate_merkle_tree_from_data(&ids);
            let of = |d: &[u8]| split(d, p.block_pl).iter().map(|x| Sha256::hash(&hash(x))).collect::<Vec<_>>();
            if leaves != of(&sealed) {
                return Err("the leaves are not the hashes of the sealed blocks' identifiers".into());
            }
            let ask = pick(ask, v.blocks);
            catch(|| verify_merkle_proof(generate_merkle_proof(&ask, &t), root, &ask, &leaves)).map_err(|e| format!("proof rejected: {}", e))?;
            let i = ask[*pos as usize % ask.len()] * p.block_pl + *pos as usize % p.block_pl;
            sealed[i] ^= 1;
            let l = of(&sealed);
            if catch(|| verify_merkle_proof(generate_merkle_proof(&ask, &t), root, &ask, &l)).is_ok() {
                return Err("a changed sealed block is accepted".into());
            }
            Ok(())
        },
    );
}

// ---- C20 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Save {
    /// number of bits; built-in moduli for values above 4095
    bits: u16,
    seed: u64,
    iv: Data,
    iv_len: u32,
    loads: u8,
}

/// The IVs of three preparations.
pub fn probe_iv(arg: &str, _: &std::path::Path) -> Vec<String> {
    (0..3).map(|_| prepare_params(arg.parse().unwrap()).1.iter().map(|b| format!("{:02x}", b)).collect()).collect()
}

pub fn c20(c: &mut Check) {
    c.explore(
        "histories",
        "1..8 saves of keys of 0..4095 bits and IVs of 0..600, seldom up to 200000 bytes to one of two paths, each followed by 0..2 loads of both; the paths may hold older content; non-trivial: several saves to one path, one shorter than an earlier one",
        c.n(16000, 120000),
        || {
            let s = (prop_oneof![1 => 0u16..3, 3 => 3u16..700, 1 => 700u16..4096, 2 => 5000u16..5003], any::<u64>(), data(), prop_oneof![300 => Just(128u32), 100 => Just(0), 200 => 1u32..600, 8 => 600u32..66000, 2 => 65530u32..200_000], 0u8..3)
                .prop_map(|(bits, seed, iv, iv_len, loads)| Save { bits, seed, iv, iv_len, loads });
            (proptest::collection::vec((any::<bool>(), s), 1..9), any::<bool>()).boxed()
        },
        |(ops, old): &(Vec<(bool, Save)>, bool), o: &mut Obs| {
            let paths = [o.path("p0"), o.path("p1")];
            for p in &paths {
                let _ = std::fs::remove_file(p);
                if *old {
                    std::fs::write(p, Prng(5).bytes(2000)).unwrap();
                }
            }
            let mut model: [Option<(Integer, Vec<u8>)>; 2] = [None, None];
            for (i, (second, s)) in ops.iter().enumerate() {
                let k = *second as usize;
                let key = match s.bits {
                    5000..=5002 => Key::BuiltIn.get([64, 128, 256][s.bits as usize - 5000]),
                    b => {
                        let mut x = int(&Prng(s.seed).bytes(b as usize / 8 + 1));
                        x.keep_bits_mut(b as u32);
                        x
                    }
                };
                let iv = s.iv.get(s.iv_len as usize);
                o.nontrivial_if(model[k].as_ref().map_or(false, |(a, b)| a.significant_bits() > key.significant_bits() || b.len() > iv.len()));
                let before = std::fs::metadata(&paths[k]).ok();
                save_data(&paths[k], &key, &iv);
                model[k] = Some((key, iv));
                // the clock may not have moved since the last save
                if let (true, Some(m)) = (s.seed % 2 == 0, before) {
                    let f = OpenOptions::new().write(true).open(&paths[k]).unwrap();
                    f.set_times(std::fs::FileTimes::new().set_modified(m.modified().unwrap()).set_accessed(m.accessed().unwrap())).unwrap();
                }
                for _ in 0..s.loads + u8::from(i + 1 == ops.len()) {
                    for j in 0..2 {
                        if let Some(want) = &model[j] {
                            o.steps += 1;
                            let got = load_data(&paths[j]);
                            if got != *want {
                                return Err(format!("after {} saves, loading returns a {}-bit key and {} IV bytes instead of those saved last ({} bits, {} bytes)", i + 1, got.0.significant_bits(), got.1.len(), want.0.significant_bits(), want.1.len()));
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    );
    c.explore(
        "preparation",
        "prepare_params of unit lengths 64, 128, 256, several times each: exact size, prime, = 3 mod 4, IVs of 128 bytes that differ in every call and in all but few positions; non-trivial: always",
        c.n(180, 600),
        || (prop_oneof![Just(64usize), Just(128), Just(256)], 2usize..6).boxed(),
        |(l, n): &(usize, usize), o: &mut Obs| {
            o.nontrivial();
            o.label(format!("{} bytes", l));
            let mut ivs: Vec<Vec<u8>> = vec![];
            for _ in 0..*n {
                let (key, iv) = prepare_params(*l);
                if key.significant_bits() as usize != 8 * l || key.mod_u(4) != 3 || key.is_probably_prime(30) == IsPrime::No {
                    return Err(format!("the key for {}-byte units is not a {}-bit prime = 3 mod 4: {}", l, 8 * l, key));
                }
                if iv.len() != 128 {
                    return Err(format!("IV of {} bytes", iv.len()));
                }
                for other in &ivs {
                    let same = iv.iter().zip(other).filter(|(a, b)| a == b).count();
                    // 128 fair bytes agree in more than 30 places with probability below 2^-140
                    if same > 30 {
                        return Err(format!("two IVs agree in {} of 128 bytes", same));
                    }
                }
                if iv.iter().collect::<HashSet<_>>().len() < 40 {
                    return Err("an IV repeats few byte values".into());
                }
                ivs.push(iv);
            }
            Ok(())
        },
    );
    c.enumerate(
        "IV distribution",
        "256 IVs of 128 bytes: every byte value occurs, every position and every difference or sum of two positions takes many values; non-trivial: always",
        vec![64usize, 128, 256],
        |l: &usize, o: &mut Obs| {
            o.nontrivial();
            let ivs: Vec<Vec<u8>> = (0..256).map(|_| prepare_params(*l).1).collect();
            if ivs.concat().iter().collect::<HashSet<_>>().len() != 256 {
                return Err("some byte value never occurs".into());
            }
            for i in 0..128 {
                let k = ivs.iter().map(|v| v[i]).collect::<HashSet<_>>().len();
                if k < 90 {
                    return Err(format!("position {} takes only {} values in 256 IVs", i, k));
                }
            }
            // no byte is a function of another: differences and sums of two positions of 256 IVs take about 162 values
            for i in 0..128 {
                for j in 0..i {
                    let x = ivs.iter().map(|v| v[i] ^ v[j]).collect::<HashSet<_>>().len();
                    let s = ivs.iter().map(|v| v[i].wrapping_sub(v[j])).collect::<HashSet<_>>().len();
                    let t = ivs.iter().map(|v| v[i].wrapping_add(v[j])).collect::<HashSet<_>>().len();
                    if x.min(s).min(t) < 90 {
                        return Err(format!("bytes {} and {} of an IV depend on each other", j, i));
                    }
                }
            }
            Ok(())
        },
    );
    c.enumerate(
        "no linear relation",
        "the bits of two successive IVs: no sum of some of them modulo 2 is always the same; non-trivial: always",
        vec![64usize, 128, 256],
        |l: &usize, o: &mut Obs| {
            o.nontrivial();
            let rows: Vec<_> = (0..2148).map(|_| pbt::bits_of(&[prepare_params(*l).1, prepare_params(*l).1].concat())).collect();
            if rows.iter().any(|r| r.len() != 2048) {
                return Err("an IV is not 128 bytes long".into());
            }
            match pbt::linear_relations(&rows) {
                0 => Ok(()),
                k => Err(format!("{} linear relations between the bits of two IVs", k)),
            }
        },
    );
    c.enumerate(
        "other processes and threads",
        "the IVs of three preparations in each of two other processes, two other threads and here all differ; non-trivial: always",
        vec![64usize, 128, 256],
        |l: &usize, o: &mut Obs| {
            o.nontrivial();
            let d = std::path::PathBuf::from(o.path("probe"));
            o.steps += pbt::all_fresh("iv", probe_iv, &l.to_string(), &d, 2, 2)? as u64;
            Ok(())
        },
    );
    c.assume("IV freshness is judged statistically with false-alarm probability below 2^-60 per run, as the code draws from the operating system's generator");
}

// ---- C21 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lay {
    unit: usize,
    units: usize,
    data: Data,
    extra: u16,
    old: (Option<u16>, Option<u16>, Option<u16>),
}

/// MD5 after RFC 1321.
fn ref_md5(m: &[u8]) -> Vec<u8> {
    let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
    let s = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let mut st = [0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476];
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend((8 * m.len() as u64).to_le_bytes());
    for ch in d.chunks(64) {
        let w: Vec<u32> = ch.chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
        let [mut a, mut b, mut c, mut e] = st;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & e), i),
                1 => ((e & b) | (!e & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ e, (3 * i + 5) % 16),
                _ => (c ^ (b | !e), 7 * i % 16),
            };
            let t = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(w[g]);
            a = e;
            e = c;
            c = b;
            b = b.wrapping_add(t.rotate_left(s[i / 16][i % 4]));
        }
        for (x, y) in st.iter_mut().zip([a, b, c, e]) {
            *x = x.wrapping_add(y);
        }
    }
    st.iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn c21(c: &mut Check) {
    c.explore(
        "padding",
        "1..300 units of 1..300 bytes, targets holding nothing, less or more than the new content, originals longer than the configured length: exact padded content, exact inverse, sources untouched; non-trivial: more than one unit",
        c.n(24000, 180000),
        || {
            let old = || proptest::option::of(prop_oneof![1 => 0u16..100, 1 => 100u16..20000]);
            (prop_oneof![2 => 1usize..5, 3 => 5usize..300, 2 => prop_oneof![Just(63usize), Just(127), Just(255)]], prop_oneof![3 => 1usize..40, 1 => 40usize..300], data(), prop_oneof![3 => Just(0u16), 1 => 1u16..300], (old(), old(), old()))
                .prop_map(|(unit, units, data, extra, old)| Lay { unit, units, data, extra, old })
                .boxed()
        },
        |v: &Lay, o: &mut Obs| {
            o.nontrivial_if(v.units > 1);
            let len = v.unit * v.units;
            let all = v.data.get(len + v.extra as usize);
            let (a, b, d) = (o.path("a"), o.path("b"), o.path("c"));
            std::fs::write(&a, &all).unwrap();
            for (p, old) in [(&b, v.old.0), (&d, v.old.1)] {
                let _ = std::fs::remove_file(p);
                if let Some(n) = old {
                    o.label("older content");
                    std::fs::write(p, Prng(n as u64).bytes(n as usize)).unwrap();
                }
            }
            copy_and_pad(&a, &b, len, v.unit);
            let want = pad(&all[..len], v.unit);
            let got = std::fs::read(&b).unwrap();
            if got != want {
                return Err(format!("padding {} units of {} bytes gives {} bytes, not the units each followed by a zero", v.units, v.unit, got.len()));
            }
            // arbitrary padding bytes do not reach the compressed file
            let mut sealed = want.clone();
            if v.extra % 2 == 1 {
                sealed.iter_mut().enumerate().filter(|(i, _)| i % (v.unit + 1) == v.unit).for_each(|(i, x)| *x = i as u8);
                std::fs::write(&b, &sealed).unwrap();
            }
            copy_and_compress(&b, &d, len, v.unit, v.unit + 1);
            if std::fs::read(&d).unwrap() != all[..len] {
                return Err(format!("compressing {} units of {} bytes does not return the data", v.units, v.unit));
            }
            if std::fs::read(&a).unwrap() != all || std::fs::read(&b).unwrap() != sealed {
                return Err("a source file was changed".into());
            }
            let block = all[..len].to_vec();
            let units = to_units(&block, v.unit);
            if units != split(&block, v.unit) || com_units(&units) != block {
                return Err(format!("splitting {} bytes into units of {} and joining them", len, v.unit));
            }
            // joining takes units of any lengths
            let odd: Vec<Vec<u8>> = all.chunks(v.unit + 1).map(|x| x.to_vec()).chain([vec![], vec![7]]).collect();
            if com_units(&odd) != odd.concat() {
                return Err("joining units of different lengths".into());
            }
            Ok(())
        },
    );
    c.enumerate(
        "no data, many units",
        "nothing to pad or compress over older content; 65000..200000 units split and joined; non-trivial: always",
        {
            let mut v: Vec<(usize, usize, usize)> = vec![];
            for unit in [1usize, 2, 63, 64] {
                for old in [0usize, 1, 100, 5000] {
                    v.push((unit, 0, old));
                }
            }
            for units in [65535usize, 65536, 65537, 131071, 200_000 + c.seed as usize % 97] {
                v.push((1, units, 0));
                v.push((3, units, units));
            }
            v
        },
        |(unit, units, old): &(usize, usize, usize), o: &mut Obs| {
            o.nontrivial();
            let len = unit * units;
            let data = Prng(*old as u64 + 1).bytes(len);
            let (a, b, d) = (o.path("a"), o.path("b"), o.path("c"));
            std::fs::write(&a, &data).unwrap();
            std::fs::write(&b, Prng(2).bytes(*old)).unwrap();
            std::fs::write(&d, Prng(3).bytes(*old)).unwrap();
            copy_and_pad(&a, &b, len, *unit);
            if std::fs::read(&b).unwrap() != pad(&data, *unit) {
                return Err(format!("padding {} units of {} bytes over {} older bytes", units, unit, old));
            }
            copy_and_compress(&b, &d, len, *unit, unit + 1);
            if std::fs::read(&d).unwrap() != data {
                return Err(format!("compressing {} units of {} bytes over {} older bytes", units, unit, old));
            }
            let u = to_units(&data, *unit);
            if u != split(&data, *unit) || com_units(&u) != data {
                return Err(format!("splitting {} bytes into {} units and joining them", len, units));
            }
            Ok(())
        },
    );
    c.enumerate(
        "reading far into a file",
        "sparse file of 6 GB: blocks written around 2^31, 2^32 and beyond are read back; non-trivial: the file system allows such a file",
        vec![(1usize << 31) - 5, 1 << 31, (1 << 32) - 7, 1 << 32, (1 << 32) + 4096 * 63 + 1, 5_999_999_000],
        |at: &usize, o: &mut Obs| {
            use std::os::unix::fs::FileExt;
            let p = o.path("sparse");
            let _ = std::fs::remove_file(&p);
            let f = OpenOptions::new().read(true).write(true).create(true).open(&p).unwrap();
            let d = Prng(*at as u64).bytes(500);
            if f.set_len(6_000_000_000).is_ok() && f.write_all_at(&d, *at as u64).is_ok() {
                o.nontrivial();
                let mut f = OpenOptions::new().read(true).open(&p).unwrap();
                let want = |k: usize, l: usize| (k..k + l).map(|i| if i < *at || i >= at + 500 { 0 } else { d[i - at] }).collect::<Vec<u8>>();
                for (k, l) in [(*at, 500), (at - 300, 600), (at + 77, 64), (at % (1 << 32), 100), (*at, 0)] {
                    if read_file(&mut f, k, l) != want(k, l) {
                        let _ = std::fs::remove_file(&p);
                        return Err(format!("reading {} bytes at {}", l, k));
                    }
                }
            }
            let _ = std::fs::remove_file(&p);
            Ok(())
        },
    );
    c.explore(
        "large pieces",
        "3..40 MB: reads of 1..8 MB and more at any position, BLAKE3 and MD5 of them, XOR, splitting and joining; non-trivial: always",
        c.n(10, 100),
        || (prop_oneof![4 => 3_000_000usize..12_000_000, 1 => 12_000_000usize..40_000_000], any::<u64>(), any::<u32>(), 0usize..9_000_000).boxed(),
        |(n, seed, at, less): &(usize, u64, u32, usize), o: &mut Obs| {
            o.nontrivial();
            let d = Prng(*seed).bytes(*n);
            let p = o.path("r");
            std::fs::write(&p, &d).unwrap();
            let mut f = OpenOptions::new().read(true).open(&p).unwrap();
            let l = n - (*less).min(n - 1_000_000);
            let a = *at as usize % (n - l + 1);
            let got = read_file(&mut f, a, l);
            let _ = std::fs::remove_file(&p);
            if got != d[a..a + l] {
                let k = (0..l).find(|k| got.get(*k) != Some(&d[a + k]));
                return Err(format!("reading {} bytes at {} of {}: byte {:?} is wrong", l, a, n, k));
            }
            if blake3_hash(&got) != hash(&got) {
                return Err(format!("BLAKE3 of {} bytes", l));
            }
            if md5_hash(&got) != ref_md5(&got) {
                return Err(format!("MD5 of {} bytes", l));
            }
            let want: Vec<u8> = (0..*n).map(|i| if i < l { d[i] ^ got[i] } else { d[i] }).collect();
            if vecu8_xor(&d, &got) != want || vecu8_xor(&got, &d) != want {
                return Err(format!("XOR of {} and {} bytes", n, l));
            }
            let block = got[..l / 4096 * 4096].to_vec();
            let units = to_units(&block, 4096);
            if units != split(&block, 4096) || com_units(&units) != block {
                return Err(format!("splitting {} bytes into units of 4096 and joining them", block.len()));
            }
            Ok(())
        },
    );
    c.explore(
        "reading",
        "sequences of 1..6 reads of any position and length inside a file of up to 3000000 bytes through one handle; non-trivial: a read that is neither empty nor at the start",
        c.n(24000, 180000),
        || (prop_oneof![30 => 1usize..300, 20 => 300usize..20000, 10 => 20000usize..200000, 1 => 200000usize..3000000], any::<u64>(), proptest::collection::vec(any::<(u32, u32)>(), 1..7)).boxed(),
        |(n, seed, reads): &(usize, u64, Vec<(u32, u32)>), o: &mut Obs| {
            let d = Prng(*seed).bytes(*n);
            let p = o.path("r");
            std::fs::write(&p, &d).unwrap();
            let mut f = OpenOptions::new().read(true).open(&p).unwrap();
            for (a, b) in reads {
                let a = *a as usize % (n + 1);
                let l = *b as usize % (n - a + 1);
                o.nontrivial_if(a > 0 && l > 0);
                o.steps += 1;
                if read_file(&mut f, a, l) != d[a..a + l] {
                    return Err(format!("reading {} bytes at {} of {}", l, a, n));
                }
            }
            if std::fs::read(&p).unwrap() != d {
                return Err("reading changed the file".into());
            }
            Ok(())
        },
    );
    c.explore(
        "bytes",
        "XOR of strings of 0..6000 bytes of equal and different lengths, a string with itself, with a prefix of itself, with zeros; MD5 and BLAKE3 of up to 400000 bytes, lengths around the chunk sizes included; non-trivial: not both empty",
        c.n(60000, 300000),
        || {
            let l = || prop_oneof![20 => Just(0usize), 80 => 1usize..300, 1 => 300usize..6000];
            let h = prop_oneof![60 => 0usize..300, 40 => prop_oneof![Just(55usize), Just(56), Just(63), Just(64), Just(65), Just(119), Just(120), Just(1023), Just(1024), Just(1025), Just(2048), Just(3073)], 20 => 300usize..5000, 1 => 5000usize..400000];
            (l(), l(), any::<bool>(), any::<u64>(), h).boxed()
        },
        |(a, b, same, seed, h): &(usize, usize, bool, u64, usize), o: &mut Obs| {
            let mut g = Prng(*seed);
            let (x, y) = (g.bytes(*a), g.bytes(if *same { *a } else { *b }));
            o.nontrivial_if(x.len() + y.len() > 0);
            let xor = |x: &Vec<u8>, y: &Vec<u8>, what: &str| {
                let want: Vec<u8> = (0..x.len().max(y.len())).map(|i| x.get(i).copied().unwrap_or(0) ^ y.get(i).copied().unwrap_or(0)).collect();
                if vecu8_xor(x, y) != want {
                    return Err(format!("XOR of {} and {} bytes ({})", x.len(), y.len(), what));
                }
                Ok(())
            };
            xor(&x, &y, "random")?;
            xor(&y, &x, "exchanged")?;
            xor(&x, &x, "both the same")?;
            xor(&x, &vec![0; *b], "zeros on the right")?;
            xor(&vec![0; *b], &x, "zeros on the left")?;
            let part = x[..(*b).min(x.len())].to_vec();
            xor(&x, &part, "a prefix of it")?;
            xor(&part, &x, "extended by it")?;
            let flat = vec![*seed as u8; *h];
            if md5_hash(&flat) != ref_md5(&flat) || blake3_hash(&flat) != hash(&flat) {
                return Err(format!("digest of {} bytes {}", h, *seed as u8));
            }
            let m = g.bytes(*h);
            if md5_hash(&m) != ref_md5(&m) {
                return Err(format!("MD5 of {} bytes", h));
            }
            if blake3_hash(&m) != hash(&m) {
                return Err(format!("BLAKE3 of {} bytes", h));
            }
            Ok(())
        },
    );
    c.enumerate(
        "built-in configurations",
        "every configuration gen_posdata knows; non-trivial: always",
        vec![1usize, 4, 16, 64],
        |l: &usize, o: &mut Obs| {
            o.nontrivial();
            let p = gen_posdata(*l);
            let ok = p.unit_pl == p.unit_l + 1
                && p.block_l % p.unit_l == 0
                && p.block_pl % p.unit_pl == 0
                && p.block_l / p.unit_l == p.block_pl / p.unit_pl
                && p.data_l % p.block_l == 0
                && p.data_l == 63 * 16 * 1024 * l
                && p.big_block_l % p.unit_l == 0
                && p.big_block_l / p.unit_l == p.big_block_pl / p.unit_pl
                && p.big_block_pl % p.unit_pl == 0
                && p.seal_rounds > 0
                && p.vde_rounds > 0
                && p.leaves_to_prove_count <= p.data_l / p.block_l;
            if !ok {
                return Err(format!("configuration {}: data {}, block {}/{}, unit {}/{}, big block {}/{}", l, p.data_l, p.block_l, p.block_pl, p.unit_l, p.unit_pl, p.big_block_l, p.big_block_pl));
            }
            if prepare_params(p.unit_pl).0.significant_bits() as usize != 8 * p.unit_pl {
                return Err(format!("configuration {}: no key of {} bytes", l, p.unit_pl));
            }
            Ok(())
        },
    );
}

// ---- C22 --------------------------------------------------------------------------------------

/// 12 challenges from 2^60 numbers and a file of 64 random bytes, three times.
pub fn probe_challenges(_: &str, dir: &std::path::Path) -> Vec<String> {
    let p = dir.join("random").to_str().unwrap().to_string();
    let mut res = vec![];
    for _ in 0..3 {
        res.extend(create_challenges(12, (5, 5 + (1 << 60))).iter().map(|x| format!("challenge {}", x)));
        create_random_file(&p, 64).unwrap();
        res.push(format!("file {}", Integer::from_digits(&std::fs::read(&p).unwrap(), rug::integer::Order::Lsf).to_string_radix(16)));
    }
    res
}

pub fn c22(c: &mut Check) {
    c.enumerate(
        "other processes and threads",
        "three draws of 12 challenges out of 2^60 and three random files of 64 bytes in each of two other processes, two other threads and here all differ; non-trivial: always",
        vec![0u8],
        |_: &u8, o: &mut Obs| {
            o.nontrivial();
            let d = std::path::PathBuf::from(o.path("probe"));
            o.steps += pbt::all_fresh("challenges", probe_challenges, "", &d, 2, 2)? as u64;
            Ok(())
        },
    );
    c.explore(
        "coverage",
        "ranges [a, a + r), r in 2..60, 1..r-1 challenges, enough calls for every number to occur except with probability below 2^-70: count, order, range, distinctness, coverage, even frequencies, not always the same; non-trivial: always",
        c.n(2500, 16000),
        || (0usize..1 << 40, 2usize..60, any::<u32>()).prop_map(|(a, r, k)| (a, r, 1 + k as usize % (r - 1))).boxed(),
        |(a, r, n): &(usize, usize, usize), o: &mut Obs| {
            o.nontrivial();
            let calls = 60 * r / n + 60;
            let mut seen = vec![0u32; *r];
            let mut sets = HashSet::new();
            for _ in 0..calls {
                let v = create_challenges(*n, (*a, a + r));
                o.steps += 1;
                valid(&v, *n, *a, a + r)?;
                v.iter().for_each(|x| seen[x - a] += 1);
                sets.insert(v);
            }
            if let Some(k) = seen.iter().position(|s| *s == 0) {
                return Err(format!("{} calls for {} numbers in [{}, {}) never return {}", calls, n, a, a + r, a + k));
            }
            if sets.len() == 1 {
                return Err(format!("{} calls all return the same challenges", calls));
            }
            // every number is drawn in n of r calls on average; Chernoff with a margin for the few thousand numbers looked at
            let (want, sd) = ((calls * n) as f64 / *r as f64, (calls as f64 * (*n as f64 / *r as f64) * (1.0 - *n as f64 / *r as f64)).sqrt());
            if let Some(k) = seen.iter().position(|s| (*s as f64 - want).abs() > 11.0 * sd + 20.0) {
                return Err(format!("{} calls for {} numbers in [{}, {}) return {} {} times, {:.0} expected", calls, n, a, a + r, a + k, seen[k], want));
            }
            Ok(())
        },
    );
    c.explore(
        "pairs",
        "ranges of 3..14 numbers, 1..r-1 challenges, 3000 calls: any two numbers are drawn together, and one after the other in consecutive calls, as often as independent even draws would; non-trivial: always",
        c.n(200, 2000),
        || (0usize..1 << 40, 3usize..14, any::<u32>()).prop_map(|(a, r, k)| (a, r, 1 + k as usize % (r - 1))).boxed(),
        |(a, r, n): &(usize, usize, usize), o: &mut Obs| {
            o.nontrivial();
            let calls = 3000usize;
            let (mut pair, mut next) = (vec![vec![0u32; *r]; *r], vec![vec![0u32; *r]; *r]);
            let mut last: Vec<usize> = vec![];
            for _ in 0..calls {
                let v = create_challenges(*n, (*a, a + r));
                o.steps += 1;
                valid(&v, *n, *a, a + r)?;
                for x in &v {
                    v.iter().for_each(|y| pair[x - a][y - a] += 1);
                    last.iter().for_each(|y| next[x - a][y - a] += 1);
                }
                last = v;
            }
            let (n, r) = (*n as f64, *r as f64);
            let (p2, q2) = (n * (n - 1.0) / r / (r - 1.0), n * n / r / r);
            for x in 0..r as usize {
                for y in 0..r as usize {
                    for (k, p, what) in [(pair[x][y], p2, "together"), (next[x][y], q2, "in consecutive calls")] {
                        let (want, sd) = (calls as f64 * p, (calls as f64 * p * (1.0 - p)).sqrt());
                        // consecutive calls overlap, so their counts vary a little more than independent ones
                        if (x != y || what != "together") && (k as f64 - want).abs() > 15.0 * sd + 20.0 {
                            return Err(format!("{} calls for {} of {} numbers: {} and {} {} {} times, {:.0} expected", calls, n, r, a + x, a + y, what, k, want));
                        }
                    }
                }
            }
            Ok(())
        },
    );
    c.explore(
        "even draws from large ranges",
        "ranges of 200..2^62 numbers, 20,000 challenges over 400 calls: every sixteenth of the range, every residue modulo 2..17 of the distance to its start and every one of its low bits occurs as often as in even draws; non-trivial: always",
        c.n(150, 1500),
        || (prop_oneof![0usize..1 << 40, Just(0usize)], prop_oneof![200usize..70000, 70000usize..1 << 33, 1usize << 33..1 << 62, (8u32..62).prop_map(|k| 1usize << k)]).boxed(),
        |(a, r): &(usize, usize), o: &mut Obs| {
            o.nontrivial();
            let n = 50.min(r / 4);
            let calls = 20000 / n;
            let mut all: Vec<u64> = vec![];
            for _ in 0..calls {
                let v = create_challenges(n, (*a, a + r));
                valid(&v, n, *a, a + r)?;
                all.extend(v.iter().map(|x| (x - a) as u64));
                o.steps += 1;
            }
            let total = all.len() as f64;
            let even = |what: &str, share: &dyn Fn(u64) -> f64, of: &dyn Fn(u64) -> u64, k: u64| {
                let mut c = vec![0u32; k as usize];
                all.iter().for_each(|x| c[of(*x) as usize] += 1);
                for j in 0..k {
                    let p = share(j);
                    if (c[j as usize] as f64 - total * p).abs() > 11.0 * (total * p * (1.0 - p)).sqrt() + 20.0 {
                        return Err(format!("challenges of [{}, {}), {} {}: {} of {}, {:.0} expected", a, a + r, what, j, c[j as usize], all.len(), total * p));
                    }
                }
                Ok(())
            };
            let len = *r as u64;
            let part = |j: u64| (j as u128 * len as u128).div_ceil(16) as u64;
            even("sixteenth", &|j| (part(j + 1) - part(j)) as f64 / len as f64, &|x| (x as u128 * 16 / len as u128) as u64, 16)?;
            for k in 2..=17u64 {
                even(&format!("remainder by {}", k), &|j| ((len - j).div_ceil(k)) as f64 / len as f64, &|x| x % k, k)?;
            }
            for b in 1..len.ilog2() {
                // numbers below len whose bit b is set
                let (full, rest) = (len >> (b + 1) << b, (len & ((1 << (b + 1)) - 1)).saturating_sub(1 << b));
                let q = (full + rest) as f64 / len as f64;
                even(&format!("bit {}", b), &|j| if j == 1 { q } else { 1.0 - q }, &|x| x >> b & 1, 2)?;
            }
            Ok(())
        },
    );
    c.explore(
        "close pairs",
        "150 calls for 20..500 challenges from a range of 1 to 8 times the square: pairs at every distance up to 64 are as frequent as in even draws; non-trivial: always",
        c.n(60, 600),
        || (0usize..1 << 40, prop_oneof![20usize..500, 100usize..500], 1usize..8).boxed(),
        |(a, n, k): &(usize, usize, usize), o: &mut Obs| {
            o.nontrivial();
            let (calls, r) = (150, k * n * n);
            let mut at = [0u32; 65];
            for _ in 0..calls {
                let v = create_challenges(*n, (*a, a + r));
                valid(&v, *n, *a, a + r)?;
                o.steps += 1;
                for (i, x) in v.iter().enumerate() {
                    v[i + 1..].iter().map(|y| y - x).take_while(|d| *d <= 64).for_each(|d| at[d] += 1);
                }
            }
            for d in 1..=64 {
                let want = (calls * n * (n - 1)) as f64 * (r - d) as f64 / (r as f64 * (r - 1) as f64);
                if (at[d] as f64 - want).abs() > 11.0 * want.sqrt() + 25.0 {
                    return Err(format!("{} calls for {} of {} numbers: {} pairs at distance {}, {:.0} expected", calls, n, r, at[d], d, want));
                }
            }
            Ok(())
        },
    );
    c.explore(
        "counts",
        "0..300 challenges from ranges of any size up to 2^60 anywhere in the integers, the empty and the whole range included: exact count, increasing, in range; two draws of at least 8 from at least 2^32 numbers differ; non-trivial: at least one challenge",
        c.n(60000, 300000),
        || {
            (prop_oneof![8 => 0usize..1 << 60, 1 => 0usize..3, 1 => Just(usize::MAX)], prop_oneof![60 => 1usize..40, 60 => 40usize..400, 30 => 400usize..1 << 33, 30 => 1usize << 33..1 << 60, 1 => Just(0)], any::<u32>(), 0u8..4)
                .prop_map(|(a, r, k, e)| {
                    let m = r.min(300);
                    // up to the largest integer
                    let a = a.min(usize::MAX - r);
                    (a, r, match e { 0 => m, 1 => m.min(1), _ => k as usize % (m + 1) })
                })
                .boxed()
        },
        |(a, r, n): &(usize, usize, usize), o: &mut Obs| {
            o.nontrivial_if(*n > 0);
            o.label_if(n == r, "whole range");
            let v = create_challenges(*n, (*a, a + r));
            valid(&v, *n, *a, a + r)?;
            if *r >= 1 << 32 && *n >= 8 && create_challenges(*n, (*a, a + r)) == v {
                return Err("two calls return the same challenges".into());
            }
            if *r >= 1 << 40 && *n >= 20 {
                // 20 fair draws fall into one half of the range with probability 2^-19, one eighth of it 2^-57
                o.label("spread");
                let (lo, hi) = (v[0] - a, v[n - 1] - a);
                if hi - lo < r / 8 {
                    return Err(format!("{} challenges of [{}, {}) lie within {}..={}", n, a, a + r, v[0], v[n - 1]));
                }
            }
            Ok(())
        },
    );
    c.explore(
        "files",
        "random files of 0..3000 bytes over nothing, shorter or longer content: exact length, two files of at least 32 bytes differ nearly everywhere; non-trivial: at least 32 bytes",
        c.n(1500, 8000),
        || (prop_oneof![1 => 0usize..3, 4 => 3usize..3000], proptest::option::of(0usize..6000)).boxed(),
        |(n, old): &(usize, Option<usize>), o: &mut Obs| {
            o.nontrivial_if(*n >= 32);
            let p = o.path("f");
            let _ = std::fs::remove_file(&p);
            if let Some(k) = old {
                std::fs::write(&p, vec![0xEE; *k]).unwrap();
            }
            let mut last: Option<Vec<u8>> = None;
            for _ in 0..2 {
                create_random_file(&p, *n).map_err(|e| e.to_string())?;
                let d = std::fs::read(&p).unwrap();
                if d.len() != *n {
                    return Err(format!("{} bytes instead of {}", d.len(), n));
                }
                if let Some(l) = &last {
                    let same = d.iter().zip(l).filter(|(a, b)| a == b).count();
                    // binomial with p = 1/256
                    if same > n / 256 * 3 + 24 {
                        return Err(format!("two random files of {} bytes agree in {} places", n, same));
                    }
                }
                last = Some(d);
            }
            Ok(())
        },
    );
    c.enumerate(
        "no linear relation",
        "the bits of two successive files of 128 bytes, of forty successive challenges out of 2^25 and of four out of 2^62: no sum of some of them modulo 2 is always the same; non-trivial: always",
        vec![0u32, 25, 62],
        |b: &u32, o: &mut Obs| {
            o.nontrivial();
            let p = o.path("f");
            let row = || -> Vec<bool> {
                if *b == 0 {
                    let one = || { create_random_file(&p, 128).unwrap(); std::fs::read(&p).unwrap() };
                    return pbt::bits_of(&[one(), one()].concat());
                }
                (0..if *b == 25 { 40 } else { 4 }).flat_map(|_| create_challenges(1, (0, 1 << b))).flat_map(|x| (0..*b).map(move |i| x >> i & 1 == 1)).collect()
            };
            let width = row().len();
            let rows: Vec<_> = (0..width + 100).map(|_| row()).collect();
            if rows.iter().any(|r| r.len() != width) {
                return Err("calls return different numbers of values".into());
            }
            match pbt::linear_relations(&rows) {
                0 => Ok(()),
                k => Err(format!("{} linear relations between the bits of {}", k, if *b == 0 { "two random files" } else { "successive challenges" })),
            }
        },
    );
    c.explore(
        "byte distribution",
        "random files of 16384..40000 bytes: every byte value occurs in every one of the first, middle and last 8192 bytes, and no shift up to 1000 makes the file agree with itself; non-trivial: always",
        c.n(48, 300),
        || (16384usize..40000).boxed(),
        |n: &usize, o: &mut Obs| {
            o.nontrivial();
            let p = o.path("f");
            create_random_file(&p, *n).map_err(|e| e.to_string())?;
            let d = std::fs::read(&p).unwrap();
            if d.len() != *n {
                return Err(format!("{} bytes instead of {}", d.len(), n));
            }
            // a value is missing from 16384 fair bytes with probability 256 * 2^-92
            if d.iter().collect::<HashSet<_>>().len() != 256 {
                return Err("some byte value never occurs".into());
            }
            for part in [&d[..4096], &d[n / 2..n / 2 + 4096], &d[n - 4096..]] {
                if part.iter().collect::<HashSet<_>>().len() < 200 {
                    return Err("part of the file repeats few byte values".into());
                }
            }
            for s in 1..1000 {
                let same = (s..*n).filter(|i| d[*i] == d[*i - s]).count();
                if same > n / 64 {
                    return Err(format!("the file repeats itself after {} bytes in {} places", s, same));
                }
            }
            Ok(())
        },
    );
    c.explore(
        "long files",
        "two random files of 0.2..2.3 MB: exact length, no 16 bytes occur twice in them; non-trivial: always",
        c.n(8, 64),
        || (200_000usize..2_300_000, proptest::option::of(0usize..3_000_000)).boxed(),
        long_files,
    );
    c.enumerate("longer file", "two random files of 9 MB: exact length, no 16 bytes occur twice in them; non-trivial: always", vec![(9_000_000 + c.seed as usize % 9973, None)], long_files);
    c.assume("the generators draw from the operating system; distribution checks have a false-alarm probability below 2^-50 per run");
}

fn long_files((n, old): &(usize, Option<usize>), o: &mut Obs) -> Result<(), String> {
    o.nontrivial();
    let p = o.path("f");
    if let Some(k) = old {
        std::fs::write(&p, vec![0xEE; *k]).unwrap();
    }
    let mut all = vec![];
    for _ in 0..2 {
        create_random_file(&p, *n).map_err(|e| e.to_string())?;
        let d = std::fs::read(&p).unwrap();
        if d.len() != *n {
            return Err(format!("{} bytes instead of {}", d.len(), n));
        }
        all.extend(d);
    }
    let num = |i: usize| u128::from_le_bytes(all[i..i + 16].try_into().unwrap());
    let kept: HashMap<u128, usize> = (0..all.len() / 16).map(|k| (num(16 * k), 16 * k)).collect();
    for i in 0..all.len() - 15 {
        if kept.get(&num(i)).map_or(false, |k| *k != i) {
            return Err(format!("the same 16 bytes occur twice in random files of {} bytes, at distance {}", n, i.abs_diff(kept[&num(i)])));
        }
    }
    Ok(())
}

fn valid(v: &[usize], n: usize, a: usize, b: usize) -> Result<(), String> {
    if v.len() != n {
        return Err(format!("{} challenges instead of {} from [{}, {})", v.len(), n, a, b));
    }
    if let Some(x) = v.iter().find(|x| **x < a || **x >= b) {
        return Err(format!("challenge {} outside [{}, {})", x, a, b));
    }
    if v.windows(2).any(|w| w[0] >= w[1]) {
        return Err(format!("challenges from [{}, {}) are not increasing: {:?}", a, b, v));
    }
    Ok(())
}
