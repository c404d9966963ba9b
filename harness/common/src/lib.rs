//! Small property-based-testing runner on top of proptest's strategies.
//!
//! A check is a sequence of *explorations*. Each exploration draws cases from a proptest
//! strategy, sharded over threads; every random choice comes from an RNG seeded with
//! (VERIF_SEED, property, exploration, shard). A failing case is shrunk with proptest's value
//! trees and written to a replay file that runs without the generators.
//!
//! The check runs in a child process, so that an abort or stack overflow in the code under test is
//! attributed to the case that caused it (journal + confirmation by replay) instead of
//! ending the check. A case that burns more CPU time than its limit, or leaves the whole
//! process without any CPU progress for a minute, did not return and is reported as such;
//! plain wall-clock exhaustion is an error, never a violation.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Observations about one case.
#[derive(Default)]
pub struct Obs {
    nontrivial: bool,
    labels: Vec<String>,
    /// executions of the code under test inside this case (for evidence)
    pub steps: u64,
    pub scratch: PathBuf,
}

impl Obs {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, b: bool, l: &str) {
        if b {
            self.labels.push(l.to_string());
        }
    }
    pub fn path(&self, name: &str) -> String {
        self.scratch.join(name).to_str().unwrap().to_string()
    }
}

#[derive(Default, Clone, Serialize, Deserialize)]
struct SubStats {
    rule: String,
    evaluations: u64,
    distinct_nontrivial: u64,
    steps: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    #[serde(skip)]
    seen: HashSet<u64>,
    order: usize,
}

#[derive(Clone, Serialize, Deserialize, Debug)]
pub struct Replay {
    pub property: String,
    pub sub: String,
    pub case: Value,
    #[serde(default)]
    pub why: String,
}

struct Slot {
    tid: AtomicU64,
    active: AtomicBool,
    cpu_at_start: AtomicU64, // clock ticks
}

struct Shared {
    slots: Vec<Slot>,
    limit_ticks: AtomicU64,
    last_limit: AtomicU64,
    dir: PathBuf,
}

pub struct Check {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub hang_cpu_s: u64,
    pub shrink_iters: u32,
    pub shrink_time: Duration,
    pub shards: usize,
    stats: BTreeMap<String, SubStats>,
    replay: Option<Replay>,
    replayed: bool,
    failure: Option<Replay>,
    shared: Arc<Shared>,
    assumptions: Vec<String>,
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
    }));
}

/// Run `f`, turning a panic into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// SplitMix64: deterministic expansion of a generated seed into bulk data.
pub struct Prng(pub u64);
impl Prng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

fn gettid() -> u64 {
    // /proc/thread-self -> <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|s| s.to_string_lossy().to_string()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn ticks_of(path: &str) -> Option<u64> {
    let s = std::fs::read_to_string(path).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn thread_ticks(tid: u64) -> Option<u64> {
    ticks_of(&format!("/proc/self/task/{}/stat", tid))
}

fn truncate_value(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() <= 700 {
        v.clone()
    } else {
        let mut e = 680;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        Value::String(format!("{}... ({} chars)", &s[..e], s.len()))
    }
}

impl Check {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// number of cases for this tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }

    fn set_limit(&self) {
        self.shared.limit_ticks.store(self.hang_cpu_s * 100, Ordering::Relaxed);
        self.shared.last_limit.store(self.hang_cpu_s, Ordering::Relaxed);
    }

    /// Explore `cases` generated cases. `rule` says what makes one non-trivial.
    pub fn explore<T, G, F>(&mut self, sub: &str, rule: &str, cases: usize, gen: G, test: F)
    where
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
        G: Fn() -> BoxedStrategy<T> + Sync,
        F: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
    {
        if self.failure.is_some() {
            return;
        }
        if self.run_replay(sub, &test) || self.replay.is_some() {
            return;
        }
        self.set_limit();
        let shards = self.shards.min(cases.max(1));
        let stop = AtomicBool::new(false);
        let agg: Mutex<SubStats> = Mutex::new(SubStats { rule: rule.to_string(), ..Default::default() });
        let fail: Mutex<Option<(usize, Replay)>> = Mutex::new(None);
        let (id, seed, iters, stime, shared) =
            (self.id.clone(), self.seed, self.shrink_iters, self.shrink_time, self.shared.clone());
        std::thread::scope(|s| {
            for k in 0..shards {
                let (stop, agg, fail, gen, test, id, shared) =
                    (&stop, &agg, &fail, &gen, &test, &id, &shared);
                let body = move || {
                    let mut bytes = [0u8; 32];
                    for (i, c) in bytes.chunks_mut(8).enumerate() {
                        let h = fnv(&[
                            &seed.to_le_bytes(),
                            id.as_bytes(),
                            sub.as_bytes(),
                            &(k as u64).to_le_bytes(),
                            &[i as u8],
                        ]);
                        c.copy_from_slice(&Prng(h).next().to_le_bytes());
                    }
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
                    let cfg = Config { failure_persistence: None, ..Config::default() };
                    let mut runner = TestRunner::new_with_rng(cfg, rng);
                    let strat = gen();
                    let mut local = SubStats::default();
                    let mine = cases / shards + usize::from(k < cases % shards);
                    let slot = Runner::new(shared, k, id, sub);
                    for _ in 0..mine {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut tree = match strat.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => panic!("generator failed: {}", e),
                        };
                        let v = tree.current();
                        let (r, obs, js) = slot.run(&v, test);
                        account(&mut local, sub, &js, &obs);
                        if let Err(e) = r {
                            stop.store(true, Ordering::Relaxed);
                            let (mut best, mut why) = (js, e);
                            let t0 = Instant::now();
                            let mut n = 0;
                            // a generator that cannot cope with a simpler choice ends the shrinking
                            let mut step = |simpler: bool| -> Option<T> {
                                catch(|| {
                                    let moved = if simpler { tree.simplify() } else { tree.complicate() };
                                    moved.then(|| tree.current())
                                })
                                .ok()
                                .flatten()
                            };
                            let mut next = step(true);
                            while let Some(v) = next {
                                n += 1;
                                if n > iters || t0.elapsed() > stime {
                                    break;
                                }
                                let (r, _, js) = slot.run(&v, test);
                                next = step(r.is_err());
                                if let Err(e) = r {
                                    best = js;
                                    why = e;
                                }
                            }
                            let mut f = fail.lock().unwrap();
                            if f.as_ref().map_or(true, |(kk, _)| k < *kk) {
                                *f = Some((
                                    k,
                                    Replay {
                                        property: id.clone(),
                                        sub: sub.to_string(),
                                        case: best,
                                        why,
                                    },
                                ));
                            }
                            break;
                        }
                    }
                    merge(&mut agg.lock().unwrap(), local);
                };
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, body)
                    .unwrap();
            }
        });
        self.finish(sub, agg.into_inner().unwrap(), fail.into_inner().unwrap().map(|x| x.1));
    }

    /// Run a finite list of cases completely (same evidence, no shrinking).
    pub fn enumerate<T, F>(&mut self, sub: &str, rule: &str, cases: Vec<T>, test: F)
    where
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + Sync + 'static,
        F: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
    {
        if self.failure.is_some() {
            return;
        }
        if self.run_replay(sub, &test) || self.replay.is_some() {
            return;
        }
        self.set_limit();
        let stop = AtomicBool::new(false);
        let next = AtomicU64::new(0);
        let agg: Mutex<SubStats> = Mutex::new(SubStats { rule: rule.to_string(), ..Default::default() });
        let fail: Mutex<Option<(usize, Replay)>> = Mutex::new(None);
        let shards = self.shards.min(cases.len().max(1));
        let (id, shared) = (self.id.clone(), self.shared.clone());
        std::thread::scope(|s| {
            for k in 0..shards {
                let (stop, agg, fail, test, id, shared, next, cases) =
                    (&stop, &agg, &fail, &test, &id, &shared, &next, &cases);
                let body = move || {
                    let mut local = SubStats::default();
                    let slot = Runner::new(shared, k, id, sub);
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                        if i >= cases.len() {
                            break;
                        }
                        let (r, obs, js) = slot.run(&cases[i], test);
                        account(&mut local, sub, &js, &obs);
                        if let Err(why) = r {
                            stop.store(true, Ordering::Relaxed);
                            let mut f = fail.lock().unwrap();
                            if f.as_ref().map_or(true, |(kk, _)| i < *kk) {
                                *f = Some((
                                    i,
                                    Replay { property: id.clone(), sub: sub.to_string(), case: js, why },
                                ));
                            }
                            break;
                        }
                    }
                    merge(&mut agg.lock().unwrap(), local);
                };
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, body)
                    .unwrap();
            }
        });
        self.finish(sub, agg.into_inner().unwrap(), fail.into_inner().unwrap().map(|x| x.1));
    }

    fn run_replay<T, F>(&mut self, sub: &str, test: &F) -> bool
    where
        T: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static,
        F: Fn(&T, &mut Obs) -> Result<(), String> + Sync,
    {
        let Some(rep) = self.replay.clone() else { return false };
        if rep.sub != sub {
            return false;
        }
        self.set_limit();
        self.replayed = true;
        let v: T = serde_json::from_value(rep.case.clone()).expect("replay case does not parse");
        let shared = self.shared.clone();
        let id = self.id.clone();
        let out = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    // T need not be Send: rebuild inside the thread
                    let v: T = serde_json::from_value(rep.case.clone()).unwrap();
                    let slot = Runner::new(&shared, 0, &id, sub);
                    let (r, _, js) = slot.run(&v, test);
                    (r, js)
                })
                .unwrap()
                .join()
        });
        drop(v);
        if let Ok((Err(why), js)) = out {
            self.failure =
                Some(Replay { property: self.id.clone(), sub: sub.to_string(), case: js, why });
        }
        true
    }

    fn finish(&mut self, sub: &str, mut st: SubStats, fail: Option<Replay>) {
        st.distinct_nontrivial = st.seen.len() as u64;
        st.order = self.stats.len();
        self.stats.insert(sub.to_string(), st);
        if fail.is_some() {
            self.failure = fail;
        }
    }
}

struct Runner<'a> {
    shared: &'a Shared,
    k: usize,
    id: String,
    sub: String,
    scratch: PathBuf,
}

impl<'a> Runner<'a> {
    fn new(shared: &'a Shared, k: usize, id: &str, sub: &str) -> Self {
        let scratch = shared.dir.join(format!("w{}", k));
        std::fs::create_dir_all(&scratch).unwrap();
        shared.slots[k].tid.store(gettid(), Ordering::SeqCst);
        Runner { shared, k, id: id.into(), sub: sub.into(), scratch }
    }
    fn run<T, F>(&self, v: &T, test: &F) -> (Result<(), String>, Obs, Value)
    where
        T: Serialize,
        F: Fn(&T, &mut Obs) -> Result<(), String>,
    {
        let js = serde_json::to_value(v).expect("case must serialise");
        let rep = Replay {
            property: self.id.clone(),
            sub: self.sub.clone(),
            case: js,
            why: "the process was ended by a signal in this case".into(),
        };
        let _ = std::fs::write(
            self.shared.dir.join(format!("journal-{}.json", self.k)),
            serde_json::to_vec(&rep).unwrap(),
        );
        let mut obs = Obs { scratch: self.scratch.clone(), ..Default::default() };
        let slot = &self.shared.slots[self.k];
        slot.cpu_at_start
            .store(thread_ticks(slot.tid.load(Ordering::Relaxed)).unwrap_or(0), Ordering::SeqCst);
        slot.active.store(true, Ordering::SeqCst);
        let r = match catch(|| test(v, &mut obs)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        };
        slot.active.store(false, Ordering::SeqCst);
        (r, obs, rep.case)
    }
}

fn account(st: &mut SubStats, sub: &str, js: &Value, obs: &Obs) {
    st.evaluations += 1;
    st.steps += obs.steps;
    for l in &obs.labels {
        *st.labels.entry(l.clone()).or_default() += 1;
    }
    if obs.nontrivial {
        let text = js.to_string();
        if st.seen.insert(fnv(&[sub.as_bytes(), text.as_bytes()])) && st.samples.len() < 2 {
            st.samples.push(truncate_value(js));
        }
    }
}

fn merge(a: &mut SubStats, b: SubStats) {
    a.evaluations += b.evaluations;
    a.steps += b.steps;
    for (k, v) in b.labels {
        *a.labels.entry(k).or_default() += v;
    }
    a.seen.extend(b.seen);
    for s in b.samples {
        if a.samples.len() < 2 {
            a.samples.push(s);
        }
    }
}

pub type CheckFn = fn(&mut Check);

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

fn env_tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn scratch_root() -> PathBuf {
    for base in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(base).join(format!("verif-pbt-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() {
            return p;
        }
    }
    panic!("no scratch directory");
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn watchdog(shared: Arc<Shared>) {
    std::thread::spawn(move || {
        let mut idle_since = Instant::now();
        let mut last_cpu = 0;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let limit = shared.limit_ticks.load(Ordering::Relaxed);
            let mut any = false;
            for (k, slot) in shared.slots.iter().enumerate() {
                if !slot.active.load(Ordering::SeqCst) {
                    continue;
                }
                any = true;
                let start = slot.cpu_at_start.load(Ordering::SeqCst);
                if let Some(t) = thread_ticks(slot.tid.load(Ordering::SeqCst)) {
                    if t.saturating_sub(start) > limit && slot.active.load(Ordering::SeqCst) {
                        stuck(&shared, k, &format!(
                            "no result after {} s of CPU time (a normal case needs a small fraction of that)",
                            shared.last_limit.load(Ordering::Relaxed)));
                    }
                }
            }
            // total CPU of the process excluding this thread's own (tiny) share
            let cpu = ticks_of("/proc/self/stat").unwrap_or(0);
            // this thread itself uses well under 5 ticks per minute of polling
            if !any || cpu > last_cpu + 20 {
                last_cpu = cpu;
                idle_since = Instant::now();
            }
            if any && idle_since.elapsed() > Duration::from_secs(60) {
                for (k, slot) in shared.slots.iter().enumerate() {
                    if slot.active.load(Ordering::SeqCst) {
                        stuck(&shared, k, "deadlock: no thread of the process made progress for 60 s");
                    }
                }
            }
        }
    });
}

fn stuck(shared: &Shared, k: usize, why: &str) -> ! {
    let p = shared.dir.join(format!("journal-{}.json", k));
    let mut rep: Replay = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
    rep.why = why.to_string();
    let out = json!({"failure": rep, "stats": {}, "assumptions": []});
    std::fs::write(shared.dir.join("result.json"), out.to_string()).unwrap();
    std::process::exit(1);
}

fn child(table: &[(&str, CheckFn)], id: &str, dir: &Path, replay: Option<Replay>) -> ! {
    install_hook();
    let f = table.iter().find(|(n, _)| *n == id).expect("unknown property").1;
    let shared = Arc::new(Shared {
        slots: (0..SHARDS)
            .map(|_| Slot {
                tid: AtomicU64::new(0),
                active: AtomicBool::new(false),
                cpu_at_start: AtomicU64::new(0),
            })
            .collect(),
        limit_ticks: AtomicU64::new(100 * 100),
        last_limit: AtomicU64::new(100),
        dir: dir.to_path_buf(),
    });
    watchdog(shared.clone());
    let mut c = Check {
        id: id.to_string(),
        tier: env_tier(),
        seed: env_seed(),
        hang_cpu_s: 100,
        shrink_iters: 300,
        shrink_time: Duration::from_secs(60),
        shards: SHARDS,
        stats: BTreeMap::new(),
        replay: replay.clone(),
        replayed: false,
        failure: None,
        shared,
        assumptions: vec![],
    };
    if let Err(e) = catch(|| f(&mut c)) {
        eprintln!("harness error: {}", e);
        std::process::exit(3);
    }
    if replay.is_some() && !c.replayed {
        eprintln!("harness error: the replay names an unknown exploration");
        std::process::exit(3);
    }
    let out = json!({"failure": c.failure, "stats": c.stats, "assumptions": c.assumptions});
    std::fs::write(dir.join("result.json"), out.to_string()).unwrap();
    std::process::exit(if c.failure.is_some() { 1 } else { 0 });
}

fn spawn_child(id: &str, dir: &Path, replay: Option<&Path>) -> std::process::ExitStatus {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("child").arg(id).arg(dir);
    if let Some(r) = replay {
        cmd.arg(r);
    }
    cmd.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null());
    // scratch is also the working directory: relative paths in the code under test stay inside
    let cwd = dir.join("cwd");
    std::fs::create_dir_all(&cwd).unwrap();
    cmd.current_dir(cwd);
    cmd.status().expect("cannot start the check process")
}

fn crashed(st: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11))
}

fn report(id: &str, fail: &Replay) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let h = fnv(&[fail.sub.as_bytes(), fail.case.to_string().as_bytes()]);
    let p = dir.join(format!("{}-{}-{:016x}.json", id, fail.sub.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), h));
    std::fs::write(&p, serde_json::to_string_pretty(fail).unwrap()).unwrap();
    let shown = truncate_value(&fail.case).to_string();
    println!("property {} exploration {}: {}", id, fail.sub, fail.why);
    println!("minimal case: {}", shown);
    println!("VIOLATION property={} replay={}", id, p.display());
    p
}

/// Something a second process does; its result, one item per line, is what `in_process` returns.
pub type ProbeFn = fn(&str, &Path) -> Vec<String>;

/// Run a probe in a process of its own, with `dir` for its files.
pub fn in_process(probe: &str, arg: &str, dir: &Path) -> Result<Vec<String>, String> {
    std::fs::create_dir_all(dir).unwrap();
    let out = dir.join("probe-result");
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["probe", probe, arg])
        .arg(dir)
        .arg(&out)
        .current_dir(dir)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    if !st.success() {
        return Err(format!("a process of its own ends with {}", st));
    }
    Ok(std::fs::read_to_string(out).map_err(|e| e.to_string())?.lines().map(|l| l.to_string()).collect())
}

/// Whether a probe that handles a file of several GB runs out of memory when 1.5 GB is all there is: the code then
/// keeps whole files in memory, which is its right, but files of that size cannot be explored here.
pub fn out_of_memory(probe: &str) -> bool {
    let dir = std::env::current_dir().unwrap().join(format!("memory-{}", probe));
    std::fs::create_dir_all(&dir).unwrap();
    let out = std::process::Command::new("sh")
        .args(["-c", "ulimit -v 1500000; exec \"$@\"", "sh"])
        .arg(std::env::current_exe().unwrap())
        .args(["probe", probe, ""])
        .arg(&dir)
        .arg(dir.join("probe-result"))
        .current_dir(&dir)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .output();
    let _ = std::fs::remove_dir_all(&dir);
    let Ok(out) = out else { return false };
    let text = String::from_utf8_lossy(&out.stderr);
    !out.status.success() && ["OutOfMemory", "out of memory", "memory allocation", "Cannot allocate memory"].iter().any(|w| text.contains(w))
}

/// What a probe gives in several processes, in several threads and here: every item has to be a different one.
pub fn all_fresh(probe: &str, f: ProbeFn, arg: &str, dir: &Path, processes: usize, threads: usize) -> Result<usize, String> {
    let mut all: Vec<(String, Vec<String>)> = vec![];
    for k in 0..processes {
        all.push((format!("process {}", k + 1), in_process(probe, arg, &dir.join(format!("p{}", k)))?));
    }
    for k in 0..threads {
        let (arg, d) = (arg.to_string(), dir.join(format!("t{}", k)));
        std::fs::create_dir_all(&d).unwrap();
        let got = std::thread::spawn(move || f(&arg, &d)).join().map_err(|_| "a thread of its own panics".to_string())?;
        all.push((format!("thread {}", k + 1), got));
    }
    all.push(("this thread".into(), f(arg, dir)));
    let mut seen: BTreeMap<&String, &String> = BTreeMap::new();
    for (who, items) in &all {
        for i in items {
            if let Some(w) = seen.insert(i, who) {
                return Err(format!("{} and {} get the same value {}", w, who, &i[..i.len().min(80)]));
            }
        }
    }
    Ok(seen.len())
}

/// Whether some bits of the rows, or all but one of them, always add up to the same value (over GF(2)): how many
/// such relations there are. `n + 64` rows of n independent fair bits have one with probability 2^-64.
pub fn linear_relations(rows: &[Vec<bool>]) -> usize {
    let width = rows[0].len() + 1;
    let mut m: Vec<Vec<u64>> = rows
        .iter()
        .map(|r| {
            let mut w = vec![0u64; width.div_ceil(64)];
            r.iter().chain([&true]).enumerate().filter(|(_, b)| **b).for_each(|(i, _)| w[i / 64] |= 1 << (i % 64));
            w
        })
        .collect();
    let mut rank = 0;
    for c in 0..width {
        let Some(k) = (rank..m.len()).find(|k| m[*k][c / 64] >> (c % 64) & 1 == 1) else { continue };
        m.swap(rank, k);
        let top = m[rank].clone();
        for r in rank + 1..m.len() {
            if m[r][c / 64] >> (c % 64) & 1 == 1 {
                m[r].iter_mut().zip(&top).skip(c / 64).for_each(|(x, y)| *x ^= y);
            }
        }
        rank += 1;
    }
    width - rank
}

/// The bits of bytes, little-endian.
pub fn bits_of(bytes: &[u8]) -> Vec<bool> {
    bytes.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}

/// Entry point of a harness binary: `run <ID>` or `replay <FILE>`.
pub fn main(table: &[(&str, CheckFn)], probes: &[(&str, ProbeFn)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("probe") => {
            let f = probes.iter().find(|(n, _)| *n == args[2]).expect("unknown probe").1;
            std::fs::write(&args[5], f(&args[3], Path::new(&args[4])).join("\n")).unwrap();
            0
        }
        Some("child") => {
            let rep = args.get(4).map(|p| {
                serde_json::from_slice::<Replay>(&std::fs::read(p).expect("replay file")).expect("replay file")
            });
            child(table, &args[2], Path::new(&args[3]), rep)
        }
        Some("run") => {
            let dir = scratch_root();
            let r = run_parent(&args[2], &dir, None);
            let _ = std::fs::remove_dir_all(&dir);
            r
        }
        Some("replay") => {
            let file = std::fs::canonicalize(&args[2]).expect("replay file");
            let rep: Replay =
                serde_json::from_slice(&std::fs::read(&file).expect("replay file")).expect("replay file");
            let dir = scratch_root();
            let st = spawn_child(&rep.property, &dir, Some(&file));
            let r = if crashed(&st) || st.code() == Some(1) {
                let why = std::fs::read(dir.join("result.json"))
                    .ok()
                    .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
                    .and_then(|v| v["failure"]["why"].as_str().map(|s| s.to_string()))
                    .unwrap_or_else(|| format!("{}", st));
                println!("property {} exploration {}: {}", rep.property, rep.sub, why);
                println!("VIOLATION property={} replay={}", rep.property, file.display());
                1
            } else {
                st.code().unwrap_or(2)
            };
            let _ = std::fs::remove_dir_all(&dir);
            r
        }
        _ => {
            eprintln!("usage: run <ID> | replay <FILE>");
            2
        }
    };
    std::process::exit(code)
}

fn run_parent(id: &str, dir: &Path, _r: Option<&Path>) -> i32 {
    let t0 = Instant::now();
    let st = spawn_child(id, dir, None);
    let mut result: Value = std::fs::read(dir.join("result.json"))
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
        .unwrap_or(Value::Null);
    let mut code = match st.code() {
        Some(c @ (0 | 1)) if !result.is_null() => c,
        _ => 2,
    };
    if crashed(&st) {
        // attribute the crash: replay each journalled case on its own
        let mut js: Vec<PathBuf> = std::fs::read_dir(dir)
            .unwrap()
            .filter_map(|e| e.ok().map(|e| e.path()))
            .filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("journal-"))
            .collect();
        js.sort();
        for (i, j) in js.iter().enumerate() {
            let sub = dir.join(format!("crash{}", i));
            std::fs::create_dir_all(&sub).unwrap();
            let st2 = spawn_child(id, &sub, Some(j));
            if crashed(&st2) {
                let mut rep: Replay = serde_json::from_slice(&std::fs::read(j).unwrap()).unwrap();
                rep.why = format!("the code under test ends the process: {}", st2);
                result = json!({"failure": rep, "stats": {}, "assumptions": []});
                code = 1;
                break;
            }
        }
    }
    if code == 2 {
        eprintln!("check {} did not complete: {}", id, st);
        return 2;
    }
    let failure: Option<Replay> = serde_json::from_value(result["failure"].clone()).ok();
    let stats: BTreeMap<String, SubStats> =
        serde_json::from_value(result["stats"].clone()).unwrap_or_default();
    write_evidence(id, &stats, failure.is_some(), &result["assumptions"], t0.elapsed().as_secs_f64());
    if let Some(f) = failure {
        report(id, &f);
        return 1;
    }
    let total: u64 = stats.values().map(|s| s.evaluations).sum();
    let nt: u64 = stats.values().map(|s| s.distinct_nontrivial).sum();
    println!("OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s", id, total, nt, t0.elapsed().as_secs_f64());
    0
}

fn write_evidence(id: &str, stats: &BTreeMap<String, SubStats>, violated: bool, assumptions: &Value, wall: f64) {
    let mut subs: Vec<(&String, &SubStats)> = stats.iter().collect();
    subs.sort_by_key(|(_, s)| s.order);
    let rule = subs
        .iter()
        .map(|(n, s)| format!("{}: {}", n, s.rule))
        .collect::<Vec<_>>()
        .join(" | ");
    let samples: Vec<Value> = subs
        .iter()
        .flat_map(|(n, s)| s.samples.iter().map(move |v| json!({"exploration": n, "case": v})))
        .collect();
    let per: serde_json::Map<String, Value> = subs
        .iter()
        .map(|(n, s)| {
            (
                n.to_string(),
                json!({"evaluations": s.evaluations, "distinct_nontrivial": s.distinct_nontrivial,
                       "inner_steps": s.steps, "labels": s.labels}),
            )
        })
        .collect();
    let ev = json!({
        "property": id,
        "tier": if env_tier() == Tier::Thorough {"thorough"} else {"quick"},
        "seed": env_seed() as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": subs.iter().map(|s| s.1.evaluations).sum::<u64>(),
            "distinct_nontrivial": subs.iter().map(|s| s.1.distinct_nontrivial).sum::<u64>(),
            "rule": rule,
            "samples": samples,
            "explorations": per,
        },
        "assumptions": if assumptions.is_array() { assumptions.clone() } else { json!([]) },
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": if violated {1} else {0},
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
}
