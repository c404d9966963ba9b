//! C14 (round trip), C15 (single blocks), C16 (parallel), C17 (tampering), C19 (sealed bytes).
use crate::gen::*;
use pbt::{catch, Check, Obs, Prng};
use proptest::prelude::*;
use rug::Integer;
use serde::{Deserialize, Serialize};
use std::fs::OpenOptions;
use std::sync::Mutex;
use storage_crate::proof_of_storage::common::gen_posdata;
use storage_crate::proof_of_storage::postorage::*;
use storage_crate::proof_of_storage::prover::*;
use storage_crate::proof_of_storage::verifier::*;

pub type Units = Vec<Vec<u8>>;

struct Files {
    origin: String,
    sealed: String,
    unsealed: String,
    public: String,
}

fn files(o: &Obs) -> Files {
    Files { origin: o.path("origin"), sealed: o.path("sealed"), unsealed: o.path("unsealed"), public: o.path("public") }
}

fn read(p: &str) -> Result<Vec<u8>, String> {
    std::fs::read(p).map_err(|e| format!("{}: {}", p, e))
}

fn write(p: &str, d: &[u8]) {
    std::fs::write(p, d).unwrap();
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("{} bytes instead of {}", a.len(), b.len());
    }
    match (0..a.len()).find(|i| a[*i] != b[*i]) {
        Some(i) => format!("byte {} of {} is {} instead of {}", i, a.len(), a[i], b[i]),
        None => "equal".into(),
    }
}

/// Replace the contents of a file and keep its times.
fn rewrite(path: &str, data: &[u8]) {
    let t = std::fs::metadata(path).unwrap();
    write(path, data);
    let f = std::fs::OpenOptions::new().write(true).open(path).unwrap();
    f.set_times(std::fs::FileTimes::new().set_modified(t.modified().unwrap()).set_accessed(t.accessed().unwrap())).unwrap();
}

/// A sealed file on disk together with everything needed to judge it.
struct Sealed {
    p: PosPara,
    key: Integer,
    iv: Vec<u8>,
    f: Files,
    content: Vec<u8>,
    padded: Vec<u8>,
    bytes: Vec<u8>,
    ids: Vec<Vec<u8>>,
}

fn make(c: &Cfg, o: &Obs) -> Result<Sealed, String> {
    let (p, key, iv, f) = (c.para(), c.modulus(), c.iv(), files(o));
    let content = c.content();
    write(&f.origin, &content);
    copy_and_pad(&f.origin, &f.sealed, p.data_l, p.unit_l);
    let ids = seal(&p, &f.sealed, &key, &iv).0;
    let bytes = read(&f.sealed)?;
    let padded = pad(&content, p.unit_l);
    if bytes.len() != padded.len() {
        return Err(format!("the sealed file has {} bytes instead of {}", bytes.len(), padded.len()));
    }
    Ok(Sealed { p, key, iv, f, content, padded, bytes, ids })
}

impl Sealed {
    fn n(&self) -> usize {
        self.p.data_l / self.p.block_l
    }
    fn block<'a>(&self, data: &'a [u8], b: usize) -> &'a [u8] {
        &data[b * self.p.block_pl..(b + 1) * self.p.block_pl]
    }
    fn units(&self, data: &[u8], b: usize) -> Units {
        split(self.block(data, b), self.p.unit_pl)
    }
    fn prev(&self, b: usize) -> Vec<u8> {
        if b == 0 {
            vec![]
        } else {
            hash(self.block(&self.bytes, b - 1))
        }
    }
    fn deps(&self, b: usize) -> Vec<usize> {
        long_of(&self.p, b, &self.prev(b))
    }
}

fn labels(c: &Cfg, o: &mut Obs) {
    o.label(format!("long mode {}", c.mode_l));
    o.label(format!("short mode {}", c.mode_s));
    o.label(if [8, 16, 32, 64, 128, 256].contains(&c.unit_pl) { format!("{}-byte units", c.unit_pl) } else { "units of another length".to_string() });
    o.label_if(c.seal_rounds > 3, "more than 3 seal rounds");
    o.label_if(c.vde_rounds > 4, "more than 4 delay rounds");
    o.label_if(c.vde_rounds > 255, "more than 255 delay rounds");
    o.label_if(c.blocks > 256, "more than 256 blocks");
    o.label_if(c.blocks > 65536, "more than 65536 blocks");
    o.label_if(c.units > 256, "more than 256 units");
    o.label_if(c.units > 65536, "more than 65536 units");
    o.label_if(c.units * c.unit_pl > 65536, "blocks of more than 65536 bytes");
    o.label_if(c.seal_rounds > 1, "several seal rounds");
    o.label_if(c.cnt_l == 0, "growing number of long-range dependencies");
}

fn rich(c: &Cfg) -> bool {
    c.seal_rounds > 0 && c.units * c.blocks > 1
}

// ---- C14 --------------------------------------------------------------------------------------

fn cycle(c: &Cfg, o: &mut Obs) -> Result<(), String> {
    labels(c, o);
    o.nontrivial_if(rich(c));
    let s = make(c, o)?;
    o.steps += 1;
    if read(&s.f.origin)? != s.content {
        return Err("sealing changed the original file".into());
    }
    if rich(c) && s.bytes == s.padded {
        return Err("sealing left the file as it was".into());
    }
    unseal(&s.p, &s.f.sealed, &s.key, &s.iv);
    let back = read(&s.f.sealed)?;
    if back != s.padded {
        return Err(format!("unsealing does not restore the padded data: {}", first_diff(&back, &s.padded)));
    }
    copy_and_compress(&s.f.sealed, &s.f.unsealed, s.p.data_l, s.p.unit_l, s.p.unit_pl);
    let got = read(&s.f.unsealed)?;
    if got != s.content {
        return Err(format!("the restored file differs: {}", first_diff(&got, &s.content)));
    }
    if read(&s.f.origin)? != s.content || read(&s.f.sealed)? != s.padded {
        return Err("restoring changed another file".into());
    }
    Ok(())
}

fn open(p: &str) -> std::fs::File {
    OpenOptions::new().read(true).append(true).create(true).open(p).unwrap()
}

/// The drivers that choose key and IV themselves.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Drive {
    cfgs: Vec<Cfg>,
    unseal: bool,
    save: bool,
}

static CWD: Mutex<()> = Mutex::new(());

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Whole {
    cfg: Cfg,
    save: bool,
    parallel: usize,
    leaves: usize,
}

fn whole(p: PosPara, save: bool, parallel: usize, o: &mut Obs) -> Result<(), String> {
    let _g = CWD.lock().unwrap_or_else(|e| e.into_inner());
    std::fs::create_dir_all("src/proof_of_storage/data").map_err(|e| e.to_string())?;
    let path = |d: &[&str; 4]| d.join("/");
    // whole-file flow: create, seal, unseal, compare the trees
    test_postorage(p.clone(), save, true, true, true, false, parallel);
    let origin = read(&path(&ORIGIN_DATA_DIR))?;
    if origin.len() != p.data_l {
        return Err(format!("the created file has {} bytes instead of {}", origin.len(), p.data_l));
    }
    if read(&path(&UNSEALED_DATA_DIR))? != origin {
        return Err("the driver does not restore the file".into());
    }
    o.steps += 1;
    // single-block flow: seal once, check blocks afterwards, then restore what is left
    test_postorage(p.clone(), save, true, false, false, p.data_l / p.block_l >= 10, parallel);
    if p.data_l / p.block_l >= 10 {
        test_postorage(p.clone(), save, false, false, false, true, parallel);
    }
    let origin2 = read(&path(&ORIGIN_DATA_DIR))?;
    if origin2 == origin && origin.len() > 64 {
        return Err("two created files are the same".into());
    }
    let (key, iv) = load_data(&path(&TARGET_DIR));
    let sealed = path(&SEALED_DATA_DIR);
    unseal(&p, &sealed, &key, &iv);
    copy_and_compress(&sealed, &path(&UNSEALED_DATA_DIR), p.data_l, p.unit_l, p.unit_pl);
    if read(&path(&UNSEALED_DATA_DIR))? != origin2 {
        return Err("the published key and IV do not restore the file".into());
    }
    test_postorage(p, save, false, false, true, false, parallel);
    Ok(())
}

/// Small layouts with many rounds of sealing or of the delay function.
fn many_rounds() -> BoxedStrategy<Cfg> {
    let d = Dim { units: (1, 4), blocks: (1, 4), seal: (1, 1), vde: (1, 1), budget: 1000 };
    let r = prop_oneof![3 => (4usize..61, 0usize..3), 2 => (1usize..3, 5usize..60), 1 => (Just(1usize), 250usize..700)];
    (cfg(d), r)
        .prop_map(|(mut v, (seal, vde))| {
            v.unit_pl = v.unit_pl.min(64);
            v.seal_rounds = seal;
            v.vde_rounds = vde;
            if vde > 100 {
                v.unit_pl = v.unit_pl.min(16);
                v.blocks = v.blocks.min(2);
            }
            v
        })
        .boxed()
}

/// Blocks of 64 KiB and more, as in the larger shipped configurations.
fn big_blocks() -> BoxedStrategy<Cfg> {
    let d = Dim { units: (1, 1), blocks: (1, 3), seal: (1, 2), vde: (0, 0), budget: 1000 };
    (cfg(d), prop_oneof![Just(65536usize), Just(131072), Just(262144), 65000usize..300_000], 0usize..3, any::<bool>())
        .prop_map(|(mut v, size, more, shipped)| {
            if shipped || v.unit_pl < 64 {
                v.unit_pl = v.unit_pl.max(64);
            }
            v.units = (size / v.unit_pl + more).min(5000);
            v.cnt_l = v.cnt_l.min(8);
            v.cnt_s = v.cnt_s.min(8);
            v
        })
        .boxed()
}

/// Many dependencies per unit: dozens of blocks, hundreds of units, or both.
fn many_deps() -> BoxedStrategy<Cfg> {
    (cfg(SMALL), 0u8..7, prop_oneof![33usize..121, 121usize..330], 100usize..451, any::<u16>())
        .prop_map(|(mut v, k, cl, cs, r)| {
            let r = r as usize;
            if k == 6 {
                // more than 65536 bytes of dependencies for one unit
                (v.unit_pl, v.seal_rounds, v.vde_rounds) = (256, 1, 0);
                (v.mode_s, v.cnt_s) = (1, 258 + r % 100);
                (v.units, v.blocks) = (v.cnt_s * 2 + 2, 1);
                return v;
            }
            let k = k % 3;
            v.unit_pl = v.unit_pl.min(128);
            v.seal_rounds = 1;
            v.vde_rounds %= 2;
            if k != 1 {
                v.cnt_l = cl;
                v.blocks = cl + 2 + r % 20;
                v.units = 1 + r % 3;
            }
            if k != 0 {
                v.cnt_s = cs;
                v.units = cs + 2 + r % 100;
                v.blocks = if k == 1 { 1 + r % 2 } else { v.cnt_l = 33; 36 };
            }
            if k == 2 {
                v.cnt_s = 20;
                v.units = 30;
            }
            v
        })
        .boxed()
}

const SMALL: Dim = Dim { units: (1, 9), blocks: (1, 14), seal: (0, 3), vde: (0, 4), budget: 250 };

pub fn c14(c: &mut Check) {
    c.explore(
        "cycles",
        "1..3 pad/seal/unseal/compress cycles over the same paths (which may hold older content), every mode and count, 1..9 units, 1..14 blocks, 0..3 seal and 0..4 delay rounds; non-trivial: something is sealed with more than one unit",
        c.n(1600, 30000),
        || (proptest::collection::vec(cfg(SMALL), 1..=3), any::<bool>()).boxed(),
        |(cs, old): &(Vec<Cfg>, bool), o: &mut Obs| {
            let f = files(o);
            for p in [&f.origin, &f.sealed, &f.unsealed] {
                let _ = std::fs::remove_file(p);
                if *old {
                    write(p, &Prng(3).bytes(20_000));
                }
            }
            o.label_if(cs.len() > 1, "several cycles");
            cs.iter().enumerate().try_for_each(|(i, v)| cycle(v, o).map_err(|e| format!("cycle {}: {}", i, e)))
        },
    );
    c.explore(
        "wide",
        "layouts beyond one-byte indices: 257..700 blocks, 650..900 blocks with growing deterministic dependencies, 257..900 units; 0..2 delay rounds; non-trivial: as above",
        c.n(64, 600),
        || {
            (cfg(SMALL), 0u8..4, any::<u32>(), 0usize..=2, 1usize..=2)
                .prop_map(|(mut v, k, r, vde, seal)| {
                    let r = r as usize;
                    v.vde_rounds = vde;
                    v.seal_rounds = seal;
                    v.unit_pl = v.unit_pl.min(64);
                    v.cnt_l = v.cnt_l.min(12);
                    v.cnt_s = v.cnt_s.min(40);
                    match k {
                        0 => {
                            v.mode_l = 0;
                            v.blocks = 257 + r % 440;
                            v.units = 1 + r % 2;
                        }
                        1 => {
                            v.mode_l = 3;
                            v.blocks = 650 + r % 250;
                            v.units = 1 + r % 2;
                        }
                        2 => {
                            v.mode_s = 0;
                            v.blocks = 1 + r % 3;
                            v.units = 257 + r % 650;
                        }
                        _ => {
                            v.blocks = 1 + r % 3;
                            v.units = 257 + r % 650;
                        }
                    }
                    v
                })
                .boxed()
        },
        |v: &Cfg, o: &mut Obs| cycle(v, o),
    );
    c.explore(
        "many rounds",
        "up to 60 seal rounds and 700 delay rounds on small layouts; non-trivial: as above",
        c.n(200, 3000),
        many_rounds,
        |v: &Cfg, o: &mut Obs| cycle(v, o),
    );
    c.explore(
        "many dependencies",
        "33..330 long-range or 100..450 short-range dependencies per unit, every mode; non-trivial: as above",
        c.n(48, 600),
        many_deps,
        |v: &Cfg, o: &mut Obs| cycle(v, o),
    );
    c.explore(
        "big blocks",
        "blocks of 65000..300000 bytes, 1..3 of them; non-trivial: as above",
        c.n(24, 400),
        big_blocks,
        |v: &Cfg, o: &mut Obs| cycle(v, o),
    );
    c.enumerate(
        "index width boundaries",
        "255, 256, 257 blocks or units, every combination of modes; non-trivial: as above",
        {
            let mut v = vec![];
            for k in [255usize, 256, 257] {
                for wide in [false, true] {
                    for mode_l in 0..4 {
                        for mode_s in 0..3 {
                            let (units, blocks) = if wide { (k, 2) } else { (2, k) };
                            let s = 1000 * k as u64 + 100 * wide as u64 + 10 * mode_l as u64 + mode_s as u64 + 77777 * c.seed;
                            v.push(Cfg { unit_pl: 64, units, blocks, seal_rounds: 1, vde_rounds: 0, mode_l, cnt_l: (s % 7) as usize, mode_s, cnt_s: (s % 11) as usize, data: Data::Random(s), key: Key::BuiltIn, iv: (s, 128) });
                        }
                    }
                }
            }
            v
        },
        |v: &Cfg, o: &mut Obs| cycle(v, o),
    );
    c.explore(
        "three-byte indices",
        "65537 and more blocks or units, hash-driven and deterministic modes, no delay rounds; non-trivial: as above",
        c.n(8, 64),
        || {
            (any::<u64>(), any::<bool>(), 0usize..=3, 0usize..=2, 1usize..12, 0u32..9000)
                .prop_map(|(s, wide, mode_l, mode_s, cnt, r)| {
                    let many = 65537 + r as usize;
                    let (units, blocks) = if wide { (many, 1 + r as usize % 2) } else { (1, many) };
                    // the growing rule is quadratic in the number of blocks
                    let mode_l = if !wide && mode_l == 3 { 0 } else { mode_l };
                    Cfg { unit_pl: 64, units, blocks, seal_rounds: 1, vde_rounds: 0, mode_l, cnt_l: cnt, mode_s, cnt_s: cnt, data: Data::Random(s), key: Key::BuiltIn, iv: (s, 128) }
                })
                .boxed()
        },
        |v: &Cfg, o: &mut Obs| cycle(v, o),
    );
    c.explore(
        "driver",
        "seal_and_unseal over the same paths, 1..3 times, with and without the final unsealing and logging; the saved key and IV restore a file left sealed; non-trivial: as above",
        c.n(300, 5000),
        || {
            (proptest::collection::vec(cfg(SMALL), 1..=3), any::<bool>(), any::<bool>())
                .prop_map(|(mut cfgs, unseal, save)| {
                    // the driver chooses the modulus itself, for these unit lengths
                    cfgs.iter_mut().for_each(|c| c.unit_pl = if c.unit_pl >= 128 { c.unit_pl } else { 64 });
                    Drive { cfgs, unseal, save }
                })
                .boxed()
        },
        |d: &Drive, o: &mut Obs| {
            let f = files(o);
            for p in [&f.origin, &f.sealed, &f.unsealed, &f.public] {
                let _ = std::fs::remove_file(p);
            }
            for v in &d.cfgs {
                o.nontrivial_if(rich(v));
                let (p, content) = (v.para(), v.content());
                write(&f.origin, &content);
                let (mut run, mut stat) = (open(&o.path("run")), open(&o.path("stat")));
                seal_and_unseal(&p, &f.origin, &f.sealed, &f.unsealed, &f.public, &mut run, d.save, d.unseal, &mut stat);
                o.steps += 1;
                let (key, iv) = load_data(&f.public);
                if !d.unseal {
                    if read(&f.sealed)?.len() != v.padded().len() {
                        return Err("wrong length of the sealed file".into());
                    }
                    unseal(&p, &f.sealed, &key, &iv);
                    copy_and_compress(&f.sealed, &f.unsealed, p.data_l, p.unit_l, p.unit_pl);
                }
                if read(&f.unsealed)? != content {
                    return Err(format!("the driver does not restore the file (unsealing {})", d.unseal));
                }
                if read(&f.origin)? != content {
                    return Err("the driver changed the original file".into());
                }
            }
            Ok(())
        },
    );
    c.explore(
        "whole driver",
        "test_postorage on its own paths in a scratch directory: the whole-file flow, the single-block flow with 0..4 workers, restoring with the published key and IV, comparing the trees; non-trivial: at least 10 blocks (single-block flow included)",
        c.n(60, 1000),
        || {
            let d = Dim { units: (1, 5), blocks: (4, 20), seal: (1, 2), vde: (0, 2), budget: 150 };
            (cfg(d), any::<bool>(), 0usize..5, 1usize..8).prop_map(|(mut cfg, save, parallel, leaves)| {
                // the lengths prepare_params has moduli for
                cfg.unit_pl = match cfg.unit_pl { 128 => 128, 256 => 256, _ => 64 };
                Whole { cfg, save, parallel, leaves }
            }).boxed()
        },
        |v: &Whole, o: &mut Obs| {
            o.nontrivial_if(v.cfg.blocks >= 10);
            let mut p = v.cfg.para();
            p.leaves_to_prove_count = v.leaves.min(v.cfg.blocks);
            whole(p, v.save, v.parallel, o)
        },
    );
    // the shipped configurations; their delay and seal rounds are shortened (at most as given)
    let shipped: Vec<(usize, usize, usize)> =
        if c.thorough() { vec![(1, 2, 10), (4, 2, 2), (16, 2, 0), (64, 2, 0)] } else { vec![(1, 1, 1), (4, 2, 0), (16, 1, 0)] };
    c.hang_cpu_s = c.n(600, 6000) as u64;
    c.enumerate(
        "shipped configurations",
        "the built-in configurations through the driver, with fewer seal and delay rounds; non-trivial: always",
        shipped,
        |(l, seal, vde): &(usize, usize, usize), o: &mut Obs| {
            o.nontrivial();
            let mut p = gen_posdata(*l);
            p.seal_rounds = p.seal_rounds.min(*seal);
            p.vde_rounds = p.vde_rounds.min(*vde);
            whole(p, false, 4, o)
        },
    );
}

// ---- C15 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ask {
    cfg: Cfg,
    /// requested blocks (modulo the number of blocks), in this order
    asks: Vec<u16>,
    range: (u16, u16, u16),
    parallel: usize,
}

const ASK: Dim = Dim { units: (1, 7), blocks: (1, 24), seal: (0, 3), vde: (0, 3), budget: 200 };

fn ask(d: Dim) -> BoxedStrategy<Ask> {
    (cfg(d), proptest::collection::vec(any::<u16>(), 1..14), any::<(u16, u16, u16)>(), 0usize..6)
        .prop_map(|(cfg, asks, range, parallel)| Ask { cfg, asks, range, parallel })
        .boxed()
}

fn prepare_list(s: &Sealed, idx: &[usize]) -> (Vec<Units>, Vec<Vec<u8>>, Vec<Vec<Units>>) {
    let mut r = (vec![], vec![], vec![]);
    for i in idx {
        let (b, h, d) = single_unseal_prepare(&s.f.sealed, *i, &s.p);
        r.0.push(b);
        r.1.push(h);
        r.2.push(d);
    }
    r
}

fn single(a: &Ask, o: &mut Obs) -> Result<(), String> {
    labels(&a.cfg, o);
    let s = make(&a.cfg, o)?;
    let n = s.n();
    let idx: Vec<usize> = a.asks.iter().map(|x| *x as usize % n).collect();
    o.nontrivial_if(rich(&a.cfg) && idx.iter().any(|i| *i > 0));
    let (blocks, prevs, deps) = prepare_list(&s, &idx);
    for (k, i) in idx.iter().enumerate() {
        if blocks[k] != s.units(&s.bytes, *i) {
            return Err(format!("preparing block {} does not return its sealed units", i));
        }
        if prevs[k] != s.prev(*i) {
            return Err(format!("preparing block {} does not return the hash of the preceding sealed block", i));
        }
        let want: Vec<Units> = s.deps(*i).iter().map(|d| s.units(&s.bytes, *d)).collect();
        if deps[k] != want {
            return Err(format!("preparing block {} returns other dependency blocks than {:?}", i, s.deps(*i)));
        }
    }
    let mut work = blocks.clone();
    let got = batch_unseal(&s.p, &idx, &mut work, &prevs, &deps, &s.key, &s.iv);
    o.steps += 1;
    if got.len() != idx.len() {
        return Err(format!("{} blocks returned for {}", got.len(), idx.len()));
    }
    for (k, i) in idx.iter().enumerate() {
        if got[k] != s.units(&s.padded, *i) {
            return Err(format!("unsealing only block {} of {} does not return the original block", i, n));
        }
        catch(|| batch_verify(&s.f.origin, *i, &got[k], s.p.block_l, s.p.unit_l)).map_err(|e| format!("comparison rejects block {}: {}", i, e))?;
    }
    catch(|| batch_unseal_and_verify(&s.p, &s.f.origin, &idx, &blocks, &prevs, &deps, &s.key, &s.iv))
        .map_err(|e| format!("verification rejects untouched blocks {:?}: {}", idx, e))?;
    // a range of blocks; its end need not be on a block boundary
    let first = a.range.0 as usize % n;
    let last = first + a.range.1 as usize % (n - first);
    let cut = a.range.2 as usize % s.p.block_pl;
    let (ri, rb, rp, rd) = batch_unseal_prepare(&s.f.sealed, first * s.p.block_pl, (last + 1) * s.p.block_pl - cut, &s.p);
    let want: Vec<usize> = (first..=last).collect();
    if ri != want {
        return Err(format!("range of blocks {}..={} prepared as {:?}", first, last, ri));
    }
    let one = prepare_list(&s, &want);
    if (&rb, &rp, &rd) != (&one.0, &one.1, &one.2) {
        return Err(format!("preparing blocks {}..={} as a range and one by one differs", first, last));
    }
    let mut work = rb.clone();
    let got = batch_unseal(&s.p, &ri, &mut work, &rp, &rd, &s.key, &s.iv);
    for (k, i) in ri.iter().enumerate() {
        if got[k] != s.units(&s.padded, *i) {
            return Err(format!("unsealing blocks {}..={} does not return block {}", first, last, i));
        }
    }
    catch(|| batch_unseal_and_verify(&s.p, &s.f.origin, &ri, &rb, &rp, &rd, &s.key, &s.iv))
        .map_err(|e| format!("verification rejects untouched blocks {:?}: {}", ri, e))?;
    if n >= 10 {
        o.label("driver");
        save_data(&s.f.public, &s.key, &s.iv);
        catch(|| test_unseal_single_and_verify(&s.p, &s.f.public, &s.f.origin, &s.f.sealed, a.parallel))
            .map_err(|e| format!("the driver rejects untouched storage: {}", e))?;
    }
    if read(&s.f.sealed)? != s.bytes || read(&s.f.origin)? != s.content {
        return Err("checking single blocks changed a file".into());
    }
    if a.range.2 % 4 == 0 {
        // the same paths with other data under another IV, as old as before
        o.label("sealed again");
        let times = |p: &str| std::fs::metadata(p).unwrap().modified().unwrap();
        let old = [times(&s.f.origin), times(&s.f.sealed)];
        let mut c = a.cfg.clone();
        c.iv.0 ^= 0x5555;
        c.data = Data::Random(a.range.0 as u64);
        let s = make(&c, o)?;
        for (p, t) in [&s.f.origin, &s.f.sealed].iter().zip(old) {
            std::fs::OpenOptions::new().write(true).open(p).unwrap().set_modified(t).unwrap();
        }
        let (blocks, prevs, deps) = prepare_list(&s, &idx);
        let mut work = blocks.clone();
        let got = batch_unseal(&s.p, &idx, &mut work, &prevs, &deps, &s.key, &s.iv);
        for (k, i) in idx.iter().enumerate() {
            if got[k] != s.units(&s.padded, *i) {
                return Err(format!("after sealing other data over the same paths, unsealing only block {} does not return the new block", i));
            }
        }
        catch(|| batch_unseal_and_verify(&s.p, &s.f.origin, &idx, &blocks, &prevs, &deps, &s.key, &s.iv))
            .map_err(|e| format!("verification rejects blocks {:?} sealed over older ones: {}", idx, e))?;
        let two = batch_unseal_prepare(&s.f.sealed, first * s.p.block_pl, (last + 1) * s.p.block_pl, &s.p);
        let one = prepare_list(&s, &two.0);
        if (&two.1, &two.2, &two.3) != (&one.0, &one.1, &one.2) || two.1.iter().zip(&two.0).any(|(b, i)| *b != s.units(&s.bytes, *i)) {
            return Err(format!("after sealing over the same paths, preparing blocks {}..={} returns something else", first, last));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    units: usize,
    blocks: usize,
    block: u32,
    mode_l: usize,
    cnt_l: usize,
    seed: u64,
    at: u32,
}

fn far() -> BoxedStrategy<Far> {
    (9000usize..20000, 4300usize..9000, any::<u32>(), 0usize..4, 1usize..6, any::<u64>(), any::<u32>())
        .prop_map(|(units, blocks, block, mode_l, cnt_l, seed, at)| Far { units, blocks, block, mode_l, cnt_l, seed, at })
        .boxed()
}

impl Far {
    fn para(&self) -> PosPara {
        let c = Cfg { unit_pl: 64, units: self.units, blocks: self.blocks, seal_rounds: 1, vde_rounds: 0, mode_l: self.mode_l, cnt_l: self.cnt_l, mode_s: 1, cnt_s: 1, data: Data::Random(0), key: Key::BuiltIn, iv: (0, 128) };
        c.para()
    }
    /// Mostly beyond 2^31 or 2^32 bytes.
    fn block(&self, len: usize) -> usize {
        let lo = (if self.block % 3 == 0 { 1usize << 31 } else { 1 << 32 }) / len;
        (lo + 1 + self.block as usize / 3 % (self.blocks - 1)).min(self.blocks - 1 - self.block as usize % 50)
    }
}

fn sparse(path: &str, len: usize) -> Option<std::fs::File> {
    let _ = std::fs::remove_file(path);
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len(len as u64).ok().map(|_| f)
}

/// Blocks far into a sealed file, too large to be sealed here: only what preparing them reads is written.
fn far_prepare(v: &Far, o: &mut Obs) -> Result<(), String> {
    use std::os::unix::fs::FileExt;
    let p = v.para();
    let path = o.path("far");
    let Some(f) = sparse(&path, v.blocks * p.block_pl) else {
        o.label("skipped: no such file possible");
        return Ok(());
    };
    let i = v.block(p.block_pl);
    o.nontrivial_if(i * p.block_pl > 1 << 31);
    o.label_if(i * p.block_pl > 1 << 32, "beyond 4 GB");
    o.label(format!("mode {}", v.mode_l));
    let content = |k: usize| Prng(v.seed ^ (k as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15)).bytes(p.block_pl);
    let put = |k: usize| f.write_all_at(&content(k), (k * p.block_pl) as u64).unwrap();
    put(i - 1);
    put(i);
    let prev = hash(&content(i - 1));
    let deps = long_of(&p, i, &prev);
    deps.iter().for_each(|k| put(*k));
    let (b, h, d) = single_unseal_prepare(&path, i, &p);
    let many = batch_unseal_prepare(&path, i * p.block_pl, (i + 1) * p.block_pl, &p);
    let _ = std::fs::remove_file(&path);
    if b != split(&content(i), p.unit_pl) {
        return Err(format!("preparing block {} of {} bytes does not return its sealed units", i, p.block_pl));
    }
    if h != prev {
        return Err(format!("preparing block {} of {} bytes does not return the hash of the preceding block", i, p.block_pl));
    }
    if d != deps.iter().map(|k| split(&content(*k), p.unit_pl)).collect::<Vec<_>>() {
        return Err(format!("preparing block {} of {} bytes returns other dependency blocks than {:?}", i, p.block_pl, deps));
    }
    if many != (vec![i], vec![b], vec![h], vec![d]) {
        return Err(format!("preparing block {} of {} bytes as a range differs", i, p.block_pl));
    }
    Ok(())
}

/// The comparison with a block far into the original.
fn far_compare(v: &Far, o: &mut Obs) -> Result<(), String> {
    use std::os::unix::fs::FileExt;
    let mut p = v.para();
    p.seal_rounds = 0;
    let path = o.path("far");
    let Some(f) = sparse(&path, v.blocks * p.block_l) else {
        o.label("skipped: no such file possible");
        return Ok(());
    };
    let i = v.block(p.block_l);
    o.nontrivial_if(i * p.block_l > 1 << 31);
    o.label_if(i * p.block_l > 1 << 32, "beyond 4 GB");
    let mut data = Prng(v.seed).bytes(p.block_l);
    let ask = |data: &[u8]| {
        let units = split(&pad(data, p.unit_l), p.unit_pl);
        let a = catch(|| batch_verify(&path, i, &units, p.block_l, p.unit_l)).is_ok();
        let b = catch(|| batch_unseal_and_verify(&p, &path, &vec![i], &vec![units.clone()], &vec![vec![0; 32]], &vec![vec![]], &Key::BuiltIn.get(64), &vec![0; 128])).is_ok();
        (a, b)
    };
    // everything else is zero
    let zero = ask(&vec![0; p.block_l]);
    f.write_all_at(&data, (i * p.block_l) as u64).unwrap();
    let same = ask(&data);
    let stale = ask(&vec![0; p.block_l]);
    let at = v.at as usize % data.len();
    data[at] ^= 1 + (v.seed % 255) as u8;
    let other = ask(&data);
    let _ = std::fs::remove_file(&path);
    for (what, got, want) in [("zeros against zeros", zero, true), ("the original", same, true), ("zeros against the original", stale, false), ("a changed byte", other, false)] {
        if got != (want, want) {
            return Err(format!("block {} of {} bytes, {}: batch_verify, batch_unseal_and_verify accept: {:?}", i, p.block_l, what, got));
        }
    }
    Ok(())
}

fn far_layout() -> Far {
    Far { units: 16000, blocks: 8000, block: 7, mode_l: 1, cnt_l: 2, seed: 1, at: 0 }
}

/// Prepares a block of a sparse sealed file of 8 GB.
pub fn probe_prepare(_: &str, dir: &std::path::Path) -> Vec<String> {
    let p = far_layout().para();
    let path = dir.join("far");
    let path = path.to_str().unwrap();
    if sparse(path, 8000 * p.block_pl).is_some() {
        single_unseal_prepare(path, 5000, &p);
        batch_unseal_prepare(path, 5000 * p.block_pl, 5001 * p.block_pl, &p);
    }
    vec![]
}

/// Compares with a block of a sparse original of 8 GB.
pub fn probe_compare(_: &str, dir: &std::path::Path) -> Vec<String> {
    let mut p = far_layout().para();
    p.seal_rounds = 0;
    let path = dir.join("far");
    let path = path.to_str().unwrap();
    if sparse(path, 8000 * p.block_l).is_some() {
        let units = vec![vec![0u8; p.unit_pl]; 16000];
        batch_verify(path, 5000, &units, p.block_l, p.unit_l);
        batch_unseal_and_verify(&p, path, &vec![5000], &vec![units], &vec![vec![0; 32]], &vec![vec![]], &Key::BuiltIn.get(64), &vec![0; 128]);
    }
    vec![]
}

fn skip_if(whole: bool, f: fn(&Far, &mut Obs) -> Result<(), String>) -> impl Fn(&Far, &mut Obs) -> Result<(), String> + Sync {
    move |v, o| {
        if whole {
            o.label("skipped: whole files are kept in memory");
            return Ok(());
        }
        f(v, o)
    }
}

pub fn c15(c: &mut Check) {
    let whole = pbt::out_of_memory("far blocks");
    c.explore(
        "far blocks",
        "blocks of 0.5..1.3 MB up to 11 GB into a sparse sealed file: prepared alone and as a range; non-trivial: more than 2 GB into the file",
        c.n(24, 240),
        far,
        skip_if(whole, far_prepare),
    );
    c.explore(
        "requests",
        "any layout and mode, 1..13 requested blocks in any order with repetitions, a range, the driver for 10 and more blocks; non-trivial: something is sealed and a block other than the first is requested",
        c.n(3000, 25000),
        || ask(ASK),
        single,
    );
    c.explore(
        "many rounds",
        "up to 60 seal rounds and 700 delay rounds on small layouts; non-trivial: as above",
        c.n(150, 2000),
        || (many_rounds(), proptest::collection::vec(any::<u16>(), 1..3), any::<(u16, u16, u16)>(), 0usize..6).prop_map(|(cfg, asks, range, parallel)| Ask { cfg, asks, range, parallel }).boxed(),
        single,
    );
    c.explore(
        "big blocks",
        "blocks of 65000..300000 bytes, 1..3 of them; non-trivial: as above",
        c.n(24, 300),
        || (big_blocks(), proptest::collection::vec(any::<u16>(), 1..4), any::<(u16, u16, u16)>(), 0usize..6).prop_map(|(cfg, asks, range, parallel)| Ask { cfg, asks, range, parallel }).boxed(),
        single,
    );
    c.explore(
        "wide",
        "256..600 blocks, often exactly 256 or 257, or 257..700 units; non-trivial: as above",
        c.n(80, 500),
        || {
            (ask(ASK), any::<bool>(), any::<u16>())
                .prop_map(|(mut a, blocks, r)| {
                    let v = &mut a.cfg;
                    v.unit_pl = v.unit_pl.min(64);
                    v.vde_rounds = 1;
                    v.seal_rounds = 1;
                    v.cnt_l = v.cnt_l.min(12);
                    v.cnt_s = v.cnt_s.min(12);
                    if blocks {
                        // right after the boundary the index width of hash-driven dependencies depends on the exact number
                        v.blocks = if r % 4 == 0 { 256 + r as usize / 4 % 2 } else { 257 + r as usize % 350 };
                        v.units = 1 + r as usize % 2;
                        if r % 3 == 0 {
                            v.mode_l = 0;
                        }
                    } else {
                        v.blocks = 1 + r as usize % 3;
                        v.units = 257 + r as usize % 450;
                    }
                    a
                })
                .boxed()
        },
        single,
    );
}

// ---- C16 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Par {
    ask: Ask,
    threads: Vec<usize>,
}

fn workers(v: &Par, o: &mut Obs) -> Result<(), String> {
    labels(&v.ask.cfg, o);
    let s = make(&v.ask.cfg, o)?;
    let idx: Vec<usize> = v.ask.asks.iter().map(|x| *x as usize % s.n()).collect();
    let (blocks, prevs, deps) = prepare_list(&s, &idx);
    let mut work = blocks.clone();
    let want = batch_unseal(&s.p, &idx, &mut work, &prevs, &deps, &s.key, &s.iv);
    o.nontrivial_if(rich(&v.ask.cfg) && idx.len() > 1 && v.threads.iter().any(|t| *t > 1));
    o.label_if(v.threads.iter().any(|t| *t > idx.len()), "more workers than blocks");
    o.label_if(v.threads.iter().any(|t| *t < idx.len() && *t > 1), "fewer workers than blocks");
    let (b2, p2, d2, i2) = (blocks.clone(), prevs.clone(), deps.clone(), idx.clone());
    for t in &v.threads {
        o.steps += 1;
        let got = batch_unseal_parallel(&s.p, &idx, &blocks, &prevs, &deps, &s.key, &s.iv, *t);
        if got != want {
            let k = (0..want.len()).find(|k| got.get(*k) != Some(&want[*k]));
            return Err(format!("{} workers on blocks {:?}: result {:?} differs from sequential unsealing", t, idx, k));
        }
    }
    if want.iter().zip(&idx).any(|(w, i)| *w != s.units(&s.padded, *i)) {
        return Err("unsealed blocks differ from the original".into());
    }
    if (b2, p2, d2, i2) != (blocks, prevs, deps, idx) {
        return Err("parallel unsealing changed its inputs".into());
    }
    Ok(())
}

pub fn c16(c: &mut Check) {
    c.explore(
        "workers",
        "1..20 requested blocks in any order with repetitions, several worker counts of 1..16 each, against sequential unsealing and the original; non-trivial: more than one block, more than one worker, something sealed",
        c.n(1000, 15000),
        || {
            let d = Dim { units: (1, 6), blocks: (1, 20), seal: (0, 3), vde: (0, 3), budget: 150 };
            (ask(d), proptest::collection::vec(any::<u16>(), 1..21), proptest::collection::vec(prop_oneof![1usize..5, 5usize..17], 1..5))
                .prop_map(|(mut ask, asks, threads)| {
                    ask.asks = asks;
                    Par { ask, threads }
                })
                .boxed()
        },
        workers,
    );
    c.explore(
        "many rounds, big blocks",
        "up to 60 seal rounds and 700 delay rounds on small layouts, blocks of 65000..300000 bytes, 1..5 requested blocks; non-trivial: as above",
        c.n(120, 2000),
        || {
            (prop_oneof![6 => many_rounds(), 1 => big_blocks()], proptest::collection::vec(any::<u16>(), 1..6), proptest::collection::vec(1usize..9, 1..3))
                .prop_map(|(cfg, asks, threads)| Par { ask: Ask { cfg, asks, range: (0, 0, 0), parallel: 0 }, threads })
                .boxed()
        },
        workers,
    );
    c16_more(c);
}

/// Prepared blocks of any content, so that their unsealing can take any time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch {
    cfg: Cfg,
    idx: Vec<u16>,
    /// number of dependency blocks of each requested block
    deps: Vec<u8>,
    threads: Vec<usize>,
}

fn unequal(v: &Batch, o: &mut Obs) -> Result<(), String> {
    labels(&v.cfg, o);
    let (p, key, iv) = (v.cfg.para(), v.cfg.modulus(), v.cfg.iv());
    let mut g = Prng(v.cfg.iv.0 ^ 0x5555);
    let block = |g: &mut Prng| -> Units { (0..v.cfg.units).map(|_| bytes(&(int(&g.bytes(v.cfg.unit_pl)) % &key), v.cfg.unit_pl)).collect() };
    let idx: Vec<usize> = v.idx.iter().map(|x| *x as usize).collect();
    let blocks: Vec<Units> = idx.iter().map(|_| block(&mut g)).collect();
    let prevs: Vec<Vec<u8>> = idx.iter().map(|i| if *i == 0 { vec![] } else { g.bytes(32) }).collect();
    let pool: Vec<Units> = (0..4).map(|_| block(&mut g)).collect();
    let deps: Vec<Vec<Units>> =
        v.deps.iter().map(|n| (0..*n).map(|_| pool[g.below(4) as usize].clone()).collect()).collect();
    let mut work = blocks.clone();
    let want = batch_unseal(&p, &idx, &mut work, &prevs, &deps, &key, &iv);
    o.nontrivial_if(rich(&v.cfg) && idx.len() > 1 && v.threads.iter().any(|t| *t > 1));
    for t in &v.threads {
        o.steps += 1;
        let got = batch_unseal_parallel(&p, &idx, &blocks, &prevs, &deps, &key, &iv, *t);
        if got != want {
            let k = (0..want.len()).find(|k| got.get(*k) != Some(&want[*k]));
            return Err(format!("{} workers on {} blocks: result {:?} differs from sequential unsealing", t, idx.len(), k));
        }
    }
    Ok(())
}

fn prepared(blocks: std::ops::Range<usize>, max_threads: usize, rounds: (usize, usize)) -> BoxedStrategy<Batch> {
    let d = Dim { units: (1, 4), blocks: (1, 1), seal: (1, 2), vde: (0, 2), budget: 1000 };
    let seal = prop_oneof![3 => Just(0usize), 1 => 3usize..12];
    (cfg(d), proptest::collection::vec((0u16..400, prop_oneof![2 => Just(0u8), 2 => 1u8..5, 1 => 5u8..120]), blocks), proptest::collection::vec(prop_oneof![20 => 1..=max_threads, 1 => 65usize..400, 1 => prop::sample::select(vec![64usize, 65, 96, 100, 127, 128, 200, 255, 256, 257])], 1..3), rounds.0..=rounds.1, seal)
        .prop_map(move |(mut cfg, v, threads, r, seal)| {
            if seal > 0 && rounds.1 < 1000 {
                cfg.seal_rounds = seal;
            }
            // undoing a round is one squaring; about the same time for every unit length
            cfg.vde_rounds = r * 64 * 64 / (cfg.unit_pl * cfg.unit_pl).max(64 * 64);
            Batch { cfg, idx: v.iter().map(|x| x.0).collect(), deps: v.iter().map(|x| x.1).collect(), threads }
        })
        .boxed()
}

fn c16_more(c: &mut Check) {
    c.explore(
        "unequal blocks",
        "2..200 prepared blocks of arbitrary content whose unsealing takes unequal time (0..120 dependency blocks), 1..64, seldom 400 workers, against sequential unsealing; non-trivial: more than one worker",
        c.n(600, 9000),
        || prepared(2..200, 64, (0, 40)),
        unequal,
    );
    c.explore(
        "slow blocks",
        "2..12 prepared blocks that take up to half a second each, 1..16, seldom 400 workers, against sequential unsealing; non-trivial: more than one worker",
        c.n(16, 300),
        || prepared(2..12, 16, (20_000, 120_000)),
        unequal,
    );
}

// ---- C17 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    Sealed,
    Dependency,
    Previous,
    Iv,
    Original,
    /// another block's sealed units in place of this one's
    Swap,
    /// one byte of the sealed file, before preparation
    File,
    /// one byte of the original file, before comparison
    OriginalFile,
    /// the original block's data in another order
    Rearranged,
    /// the sealed file or the original ends within the block
    Cut,
    OriginalCut,
}

/// The same bytes (or bytes of the same sum or XOR) in another arrangement.
fn rearrange(d: &mut [u8], l: usize, kind: u32, a: usize, b: usize, x: u8) -> &'static str {
    let n = d.len();
    let (i, j) = (a % n, b % n);
    let units = n / l;
    match kind % 6 {
        0 => {
            let (u, w) = (a % units, b % units);
            for k in 0..l {
                d.swap(u * l + k, w * l + k);
            }
            "two units swapped"
        }
        1 => {
            d.swap(i, j);
            "two bytes swapped"
        }
        2 => {
            let u = a % units * l;
            d.swap(u + b % l, u + (a + b / l) % l);
            "two bytes of a unit swapped"
        }
        3 => {
            d[i] = d[i].wrapping_add(x);
            d[j] = d[j].wrapping_sub(x);
            "one byte increased, another decreased"
        }
        4 => {
            d[i] ^= x;
            d[j] ^= x;
            "the same change of two bytes"
        }
        _ => {
            if b % 2 == 0 {
                d.rotate_left(l * (a % units))
            } else {
                d.rotate_left(i)
            }
            "rotated"
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    cfg: Cfg,
    block: u16,
    others: Vec<u16>,
    what: Tamper,
    pos: u32,
    xor: u8,
}

fn bad(layout: BoxedStrategy<Cfg>) -> BoxedStrategy<Bad> {
    let what = prop_oneof![
        3 => Just(Tamper::Sealed), 2 => Just(Tamper::Dependency), 2 => Just(Tamper::Previous), 2 => Just(Tamper::Iv),
        2 => Just(Tamper::Original), 1 => Just(Tamper::Swap), 3 => Just(Tamper::File), 1 => Just(Tamper::OriginalFile), 1 => Just(Tamper::Rearranged),
        1 => Just(Tamper::Cut), 1 => Just(Tamper::OriginalCut)
    ];
    // ends of units and blocks more often than by chance
    let pos = prop_oneof![4 => any::<u32>(), 1 => Just(0u32), 2 => (0u32..4).prop_map(|k| u32::MAX - k)];
    (layout, any::<u16>(), proptest::collection::vec(any::<u16>(), 0..4), what, pos, prop_oneof![1u8..=255, Just(1), Just(128)])
        .prop_map(|(mut cfg, block, others, what, pos, xor)| {
            // without a delay round a change stays within its byte, and padding is not compared
            cfg.seal_rounds = cfg.seal_rounds.max(1);
            cfg.vde_rounds = cfg.vde_rounds.max(1);
            Bad { cfg, block, others, what, pos, xor }
        })
        .boxed()
}

/// u32::MAX - k means the k-th last.
fn at(pos: u32, len: usize) -> usize {
    let back = u32::MAX - pos;
    if back < 4 {
        len - 1 - (back as usize).min(len - 1)
    } else {
        pos as usize % len
    }
}

struct Prepared {
    idx: Vec<usize>,
    blocks: Vec<Units>,
    prevs: Vec<Vec<u8>>,
    deps: Vec<Vec<Units>>,
    iv: Vec<u8>,
}

/// The three ways of verifying; each has to give the same verdict on every listed block.
fn verdicts(s: &Sealed, x: &Prepared) -> Vec<(&'static str, bool)> {
    let mut r = vec![];
    r.push(("batch_unseal_and_verify", catch(|| batch_unseal_and_verify(&s.p, &s.f.origin, &x.idx, &x.blocks, &x.prevs, &x.deps, &s.key, &x.iv)).is_ok()));
    let mut work = x.blocks.clone();
    r.push((
        "batch_unseal, batch_verify",
        catch(|| {
            let got = batch_unseal(&s.p, &x.idx, &mut work, &x.prevs, &x.deps, &s.key, &x.iv);
            for (k, i) in x.idx.iter().enumerate() {
                batch_verify(&s.f.origin, *i, &got[k], s.p.block_l, s.p.unit_l);
            }
        })
        .is_ok(),
    ));
    r.push((
        "batch_unseal_parallel, batch_verify",
        catch(|| {
            let got = batch_unseal_parallel(&s.p, &x.idx, &x.blocks, &x.prevs, &x.deps, &s.key, &x.iv, 3);
            for (k, i) in x.idx.iter().enumerate() {
                batch_verify(&s.f.origin, *i, &got[k], s.p.block_l, s.p.unit_l);
            }
        })
        .is_ok(),
    ));
    r
}

fn tamper(v: &Bad, o: &mut Obs) -> Result<(), String> {
    labels(&v.cfg, o);
    let s = make(&v.cfg, o)?;
    let n = s.n();
    let b = v.block as usize % n;
    // the attacked block somewhere among others
    let mut idx: Vec<usize> = v.others.iter().map(|x| *x as usize % n).collect();
    let k = v.pos as usize % (idx.len() + 1);
    idx.insert(k, b);
    let list = |idx: Vec<usize>| {
        let (blocks, prevs, deps) = prepare_list(&s, &idx);
        Prepared { idx, blocks, prevs, deps, iv: s.iv.clone() }
    };
    let mut x = list(idx);
    if v.pos & 64 != 0 {
        // everything has been read and judged before
        o.label("judged before the change, too");
        for (name, ok) in verdicts(&s, &x) {
            if !ok {
                return Err(format!("{} rejects untouched blocks {:?}", name, x.idx));
            }
        }
        prepare_list(&s, &(0..n.min(12)).collect::<Vec<_>>());
    }
    let place;
    match v.what {
        Tamper::Sealed => {
            let i = at(v.pos, s.p.block_pl);
            x.blocks[k][i / s.p.unit_pl][i % s.p.unit_pl] ^= v.xor;
            place = format!("byte {} of sealed block {}", i, b);
        }
        Tamper::Dependency => {
            if x.deps[k].is_empty() {
                return Ok(());
            }
            let d = v.pos as usize % x.deps[k].len();
            let i = at(v.pos, s.p.block_pl);
            x.deps[k][d][i / s.p.unit_pl][i % s.p.unit_pl] ^= v.xor;
            place = format!("byte {} of dependency {} of block {}", i, d, b);
        }
        Tamper::Previous => {
            if b == 0 {
                return Ok(());
            }
            let i = at(v.pos, x.prevs[k].len());
            x.prevs[k][i] ^= v.xor;
            place = format!("byte {} of the hash of the block before {}", i, b);
        }
        Tamper::Iv => {
            if !x.idx.contains(&0) {
                x.idx = vec![0];
                let (blocks, prevs, deps) = prepare_list(&s, &x.idx);
                x = Prepared { idx: vec![0], blocks, prevs, deps, iv: s.iv.clone() };
            }
            match v.pos % 4 {
                0 => x.iv.push(v.xor),
                1 if !x.iv.is_empty() => {
                    x.iv.pop();
                }
                _ if !x.iv.is_empty() => {
                    let i = at(v.pos, x.iv.len());
                    x.iv[i] ^= v.xor;
                }
                _ => x.iv.push(v.xor),
            }
            place = "the IV".to_string();
        }
        Tamper::Original => {
            let mut d = s.content.clone();
            let i = b * s.p.block_l + at(v.pos, s.p.block_l);
            d[i] ^= v.xor;
            rewrite(&s.f.origin, &d);
            place = format!("byte {} of the original", i);
        }
        Tamper::Rearranged => {
            let mut d = s.content.clone();
            let l = s.p.block_l;
            let r = at(v.pos, l);
            let how = rearrange(&mut d[b * l..(b + 1) * l], s.p.unit_l, v.pos >> 24, r, v.pos as usize >> 8, v.xor);
            if d == s.content {
                return Ok(());
            }
            rewrite(&s.f.origin, &d);
            place = format!("block {} of the original ({})", b, how);
        }
        Tamper::Swap => {
            let other = (b + 1 + v.pos as usize % n) % n;
            if s.block(&s.bytes, other) == s.block(&s.bytes, b) {
                return Ok(());
            }
            x.blocks[k] = s.units(&s.bytes, other);
            place = format!("sealed block {} presented as block {}", other, b);
        }
        Tamper::File | Tamper::OriginalFile | Tamper::Cut | Tamper::OriginalCut => {
            let of = matches!(v.what, Tamper::OriginalFile | Tamper::OriginalCut);
            let cut = matches!(v.what, Tamper::Cut | Tamper::OriginalCut);
            let (path, old, len) = if of { (&s.f.origin, &s.content, s.p.block_l) } else { (&s.f.sealed, &s.bytes, s.p.block_pl) };
            let mut d = old.clone();
            let mut i = b * len + at(v.pos, len);
            if cut {
                // sometimes whole units
                if v.xor % 2 == 0 {
                    i -= i % if of { s.p.unit_l } else { s.p.unit_pl };
                }
                d[i..n * len].fill(0);
                d.truncate(i);
            } else {
                d[i] ^= v.xor;
            }
            rewrite(path, &d);
            o.nontrivial();
            o.label(format!("{:?}", v.what));
            let place = format!("{} {} of the {}", if cut { "everything from byte" } else { "byte" }, i, if of { "original" } else { "sealed file" });
            // which blocks must be rejected, and which have nothing to do with the change
            let lost = |j: usize| match old[j * len..(j + 1) * len] {
                _ if !cut => (j == b, j == b),
                // what is missing may be taken for zeros
                ref t => (t[i.saturating_sub(j * len).min(len)..].iter().any(|x| *x != 0), j >= b),
            };
            for j in 0..n {
                let uses: Vec<usize> = if of { vec![j] } else { [j].into_iter().chain((j > 0).then(|| j - 1)).chain(s.deps(j)).collect() };
                let (hit, near) = (uses.iter().any(|u| lost(*u).0), uses.iter().any(|u| lost(*u).1));
                let verdict = catch(|| prepare_list(&s, &[j])).map(|(blocks, prevs, deps)| verdicts(&s, &Prepared { idx: vec![j], blocks, prevs, deps, iv: s.iv.clone() }));
                o.steps += 1;
                for (name, ok) in verdict.unwrap_or(vec![("preparation", false)]) {
                    if ok == hit && (ok || !near) {
                        return Err(format!("{}: {} {}; block {} is {}", name, place, if cut { "missing" } else { "changed" }, j, if ok { "accepted" } else { "rejected" }));
                    }
                }
            }
            return Ok(());
        }
    }
    o.nontrivial();
    o.label(format!("{:?}", v.what));
    o.steps += 1;
    for (name, ok) in verdicts(&s, &x) {
        if ok {
            return Err(format!("{} accepts: {} changed (blocks {:?})", name, place, x.idx));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DriverBad {
    cfg: Cfg,
    block: u16,
    pos: u32,
    xor: u8,
    /// 0: sealed file, 1: original, 2: published IV
    what: u8,
    parallel: usize,
}

/// The driver verifies the first ten blocks; it has to notice a change in any of them.
fn tamper_driver(v: &DriverBad, o: &mut Obs) -> Result<(), String> {
    labels(&v.cfg, o);
    let s = make(&v.cfg, o)?;
    let n = s.n();
    if n < 10 {
        return Ok(());
    }
    let b = v.block as usize % n;
    let mut iv = s.iv.clone();
    if v.pos & 64 != 0 {
        save_data(&s.f.public, &s.key, &iv);
        catch(|| test_unseal_single_and_verify(&s.p, &s.f.public, &s.f.origin, &s.f.sealed, v.parallel)).map_err(|e| format!("the driver rejects untouched storage: {}", e))?;
    }
    let hit = match v.what {
        0 | 1 => {
            let (path, mut d, len) = if v.what == 1 { (&s.f.origin, s.content.clone(), s.p.block_l) } else { (&s.f.sealed, s.bytes.clone(), s.p.block_pl) };
            d[b * len + at(v.pos, len)] ^= v.xor;
            rewrite(path, &d);
            b < 10
        }
        _ => {
            if iv.is_empty() {
                iv.push(v.xor);
            } else {
                let i = at(v.pos, iv.len());
                iv[i] ^= v.xor;
            }
            true
        }
    };
    o.nontrivial_if(hit);
    let kind = ["sealed file", "original", "IV"][v.what as usize % 3];
    o.label(kind);
    o.label(if v.parallel == 0 { "sequential" } else { "parallel" });
    save_data(&s.f.public, &s.key, &iv);
    let ok = catch(|| test_unseal_single_and_verify(&s.p, &s.f.public, &s.f.origin, &s.f.sealed, v.parallel));
    match (hit, ok) {
        (true, Ok(())) => Err(format!("the driver accepts although the {} was changed (block {} of {})", kind, b, n)),
        (false, Err(e)) => Err(format!("the driver rejects although only block {} of the {} was changed: {}", b, kind, e)),
        _ => Ok(()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Compare {
    unit_pl: usize,
    units: usize,
    blocks: usize,
    block: u16,
    data: Data,
    /// (unit, byte, xor) changes of the unsealed block; byte unit_pl - 1 is padding
    edits: Vec<(u16, u32, u8)>,
    /// flip a byte of every unit in turn
    sweep: bool,
    /// arrangements of the data, see `rearrange`
    moves: Vec<(u8, u32, u32, u8)>,
}

pub fn c17(c: &mut Check) {
    c.explore(
        "tampering",
        "one alteration of a sealed block, a dependency block, the preceding hash, the IV, the original (a byte, or the order of its data), or of one of the files before preparation (a byte changed, or everything after some byte missing), in all three verification paths, among other untouched blocks; blocks the alteration cannot reach stay accepted; non-trivial: an alteration was made",
        c.n(2500, 40000),
        || bad(cfg(Dim { units: (1, 6), blocks: (1, 16), seal: (1, 3), vde: (1, 3), budget: 150 })),
        tamper,
    );
    c.explore(
        "tampering, larger layouts",
        "the same with up to 60 seal and 700 delay rounds, 300 and more units per block, hundreds of dependencies, blocks of 65000..300000 bytes; non-trivial: an alteration was made",
        c.n(200, 3000),
        || {
            let wide = (cfg(SMALL), 257usize..600).prop_map(|(mut v, units)| {
                v.unit_pl = v.unit_pl.min(64);
                v.vde_rounds = 1;
                v.seal_rounds = 1;
                v.cnt_l = v.cnt_l.min(6);
                v.cnt_s = v.cnt_s.min(12);
                v.blocks = 1 + v.blocks % 3;
                v.units = units;
                v
            });
            bad(prop_oneof![4 => many_rounds(), 2 => wide, 2 => many_deps(), 1 => big_blocks()].boxed())
        },
        tamper,
    );
    c.explore(
        "tampering, many blocks",
        "the same with 20..300 blocks judged at a time; non-trivial: an alteration was made",
        c.n(80, 1200),
        || {
            let small = cfg(Dim { units: (1, 3), blocks: (1, 60), seal: (1, 2), vde: (1, 2), budget: 120 });
            (bad(small), proptest::collection::vec(any::<u16>(), 20..300)).prop_map(|(mut b, others)| {
                b.cfg.unit_pl = b.cfg.unit_pl.min(64);
                b.others = others;
                b
            }).boxed()
        },
        tamper,
    );
    c.explore(
        "driver",
        "one changed byte of the sealed file, the original or the published IV before the driver verifies the first ten of 10..14 blocks, sequentially or in parallel; non-trivial: the change is one the driver has to notice",
        c.n(600, 8000),
        || {
            let d = Dim { units: (1, 4), blocks: (10, 14), seal: (1, 3), vde: (1, 3), budget: 150 };
            let pos = prop_oneof![4 => any::<u32>(), 1 => Just(0u32), 2 => (0u32..4).prop_map(|k| u32::MAX - k)];
            (cfg(d), any::<u16>(), pos, prop_oneof![1u8..=255, Just(1), Just(128)], prop_oneof![4 => Just(0u8), 2 => Just(1), 1 => Just(2)], 0usize..5)
                .prop_map(|(cfg, block, pos, xor, what, parallel)| DriverBad { cfg, block, pos, xor, what, parallel })
                .boxed()
        },
        tamper_driver,
    );
    let whole = pbt::out_of_memory("far originals");
    c.explore(
        "far blocks",
        "blocks of 0.5..1.3 MB up to 11 GB into a sparse original: equal data is accepted, zeros or a changed byte are not; non-trivial: more than 2 GB into the file",
        c.n(24, 240),
        far,
        skip_if(whole, far_compare),
    );
    c.explore(
        "comparison",
        "batch_verify on an original block with 0..3 changed bytes anywhere, or with the same data in another arrangement (units or bytes exchanged, rotated, changes of equal sum or XOR): accepted exactly when no data byte differs; sometimes a byte of every unit is changed in turn; non-trivial: some byte changed",
        c.n(6000, 80000),
        || {
            let edit = (any::<u16>(), prop_oneof![3 => any::<u32>(), 1 => Just(0u32), 2 => (0u32..4).prop_map(|k| u32::MAX - k)], prop_oneof![Just(1u8), 1u8..=255]);
            let shape = prop_oneof![
                30 => (prop_oneof![3 => Just(64usize), 1 => Just(128), 1 => Just(256), 2 => 2usize..12], 1usize..12),
                6 => (prop_oneof![Just(64usize), Just(8), 2usize..300], 12usize..400),
                1 => (prop_oneof![Just(64usize), Just(128), Just(256)], 1000usize..5000),
            ];
            (shape, 1usize..6, any::<u16>(), data(), proptest::collection::vec(edit, 0..4), proptest::bool::weighted(0.02), proptest::collection::vec((any::<u8>(), any::<u32>(), any::<u32>(), 1u8..=255), 0..4))
                .prop_map(|((unit_pl, units), blocks, block, data, edits, sweep, moves)| Compare { unit_pl, units, blocks, block, data, edits, sweep, moves })
                .boxed()
        },
        |v: &Compare, o: &mut Obs| {
            let l = v.unit_pl - 1;
            let content = v.data.get(l * v.units * v.blocks);
            let path = o.path("origin");
            write(&path, &content);
            let b = v.block as usize % v.blocks;
            let padded = pad(&content[b * l * v.units..(b + 1) * l * v.units], l);
            let mut got = split(&padded, v.unit_pl);
            let clean = got.clone();
            for (u, i, x) in &v.edits {
                got[*u as usize % v.units][at(*i, v.unit_pl)] ^= x;
            }
            let pos = v.edits.first().map_or(7, |e| e.1 as usize);
            let same = got.iter().zip(&clean).all(|(a, b)| a[..l] == b[..l]);
            o.nontrivial_if(got != clean);
            o.label(if same { "to accept" } else { "to reject" });
            o.label_if(got != clean && same, "only padding changed");
            let ok = catch(|| batch_verify(&path, b, &got, l * v.units, l));
            match (same, ok) {
                (true, Err(e)) => Err(format!("rejects a block with the original data: {}", e)),
                (false, Ok(())) => Err("accepts a block that differs from the original".into()),
                _ => Ok(()),
            }?;
            for (kind, a, b2, x) in &v.moves {
                let mut d = content[b * l * v.units..(b + 1) * l * v.units].to_vec();
                let how = rearrange(&mut d, l, *kind as u32, *a as usize, *b2 as usize, *x);
                let same = d == content[b * l * v.units..(b + 1) * l * v.units];
                let got = split(&pad(&d, l), v.unit_pl);
                o.steps += 1;
                if !same {
                    o.nontrivial();
                    o.label(how);
                }
                match (same, catch(|| batch_verify(&path, b, &got, l * v.units, l))) {
                    (true, Err(e)) => return Err(format!("rejects a block with the original data: {}", e)),
                    (false, Ok(())) => return Err(format!("accepts a block that differs from the original ({})", how)),
                    _ => (),
                }
            }
            if v.sweep {
                o.label("every unit changed in turn");
                let mut got = clean.clone();
                for u in 0..v.units {
                    o.steps += 1;
                    got[u][(pos + u) % l] ^= 1;
                    if catch(|| batch_verify(&path, b, &got, l * v.units, l)).is_ok() {
                        return Err(format!("accepts a block that differs from the original in byte {} of unit {} of {}", (pos + u) % l, u, v.units));
                    }
                    got[u][(pos + u) % l] ^= 1;
                }
            }
            Ok(())
        },
    );
}

// ---- C19 --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bind {
    cfg: Cfg,
    block: u16,
    pos: u32,
    xor: u8,
    iv: u8,
}

pub fn c19(c: &mut Check) {
    let bind = |d: Dim| {
        (cfg(d), any::<u16>(), prop_oneof![3 => any::<u32>(), 1 => Just(0u32), 1 => Just(u32::MAX)], 1u8..=255, any::<u8>())
            .prop_map(|(cfg, block, pos, xor, iv)| Bind { cfg, block, pos, xor, iv })
            .boxed()
    };
    c.explore(
        "sealed bytes",
        "sealed file and identifiers against an independent sealing, sealing twice, sealing with another IV (every block changes), with one changed byte (that block and all later ones change, no earlier one); non-trivial: more than one unit",
        c.n(1200, 20000),
        || bind(Dim { units: (1, 8), blocks: (1, 16), seal: (1, 3), vde: (0, 3), budget: 120 }),
        |v: &Bind, o: &mut Obs| {
            labels(&v.cfg, o);
            o.nontrivial_if(rich(&v.cfg));
            let s = make(&v.cfg, o)?;
            let n = s.n();
            let (want, ids) = ref_seal(&s.p, &s.padded, &s.key, &s.iv);
            if s.bytes != want {
                return Err(format!("sealed file differs from the definition: {}", first_diff(&s.bytes, &want)));
            }
            if s.ids != ids {
                return Err("the returned identifiers are not the hashes of the sealed blocks".into());
            }
            let again = |content: &[u8], iv: &Vec<u8>| {
                write(&s.f.origin, content);
                copy_and_pad(&s.f.origin, &s.f.sealed, s.p.data_l, s.p.unit_l);
                let ids = seal(&s.p, &s.f.sealed, &s.key, iv).0;
                (std::fs::read(&s.f.sealed).unwrap(), ids)
            };
            o.steps += 4;
            if again(&s.content, &s.iv) != (s.bytes.clone(), s.ids.clone()) {
                return Err("sealing the same data twice differs".into());
            }
            let mut iv = s.iv.clone();
            if iv.is_empty() || v.iv % 8 == 0 {
                iv.push(v.iv);
            } else {
                let i = at(v.pos, iv.len());
                iv[i] ^= v.xor;
            }
            let other = again(&s.content, &iv);
            for j in 0..n {
                if s.block(&other.0, j) == s.block(&s.bytes, j) || other.1[j] == s.ids[j] {
                    return Err(format!("another IV leaves sealed block {} as it was", j));
                }
            }
            let b = v.block as usize % n;
            let mut d = s.content.clone();
            let i = b * s.p.block_l + at(v.pos, s.p.block_l);
            d[i] ^= v.xor;
            let other = again(&d, &s.iv);
            for j in 0..n {
                if (s.block(&other.0, j) != s.block(&s.bytes, j)) != (j >= b) {
                    return Err(format!("changing byte {} of the original, in block {}, {} sealed block {}", i, b, if j < b { "changes" } else { "does not change" }, j));
                }
                if (other.1[j] != s.ids[j]) != (j >= b) {
                    return Err(format!("identifier of block {} after changing block {}", j, b));
                }
            }
            Ok(())
        },
    );
    c.explore(
        "wide",
        "257..500, sometimes 2100 blocks or 257..600 units, or up to 330 long-range and 450 short-range dependencies, or no or up to 60 seal and 700 delay rounds, or blocks of 65000..300000 bytes, against the independent sealing; non-trivial: always",
        c.n(240, 2000),
        || {
            let wide =
            (cfg(SMALL), any::<bool>(), any::<u16>(), 1usize..3)
                .prop_map(|(mut v, blocks, r, seal)| {
                    v.unit_pl = v.unit_pl.min(64);
                    v.vde_rounds = 1;
                    v.seal_rounds = seal;
                    v.cnt_l = v.cnt_l.min(12);
                    v.cnt_s = v.cnt_s.min(30);
                    let r = r as usize;
                    (v.units, v.blocks) = if blocks { (1 + r % 2, 257 + r % 250) } else { (257 + r % 350, 1 + r % 3) };
                    if blocks && r % 4 == 0 {
                        // many blocks of short units
                        (v.unit_pl, v.units, v.blocks) = (v.unit_pl.min(16), 1, 500 + r / 4 % 1600);
                    }
                    v
                });
            let none = (cfg(SMALL), 0usize..3).prop_map(|(mut v, vde)| { v.seal_rounds = 0; v.vde_rounds = vde; v });
            prop_oneof![4 => wide, 6 => many_deps(), 8 => many_rounds(), 1 => big_blocks(), 1 => none].boxed()
        },
        |v: &Cfg, o: &mut Obs| {
            labels(v, o);
            o.nontrivial();
            let s = make(v, o)?;
            let (want, ids) = ref_seal(&s.p, &s.padded, &s.key, &s.iv);
            if s.bytes != want {
                return Err(format!("sealed file differs from the definition: {}", first_diff(&s.bytes, &want)));
            }
            if s.ids != ids {
                return Err("the returned identifiers are not the hashes of the sealed blocks".into());
            }
            Ok(())
        },
    );
}
