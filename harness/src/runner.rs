//! Runs the sub-checks of a property under proptest, collects coverage facts, writes evidence and replay files.
use crate::alloc;
use crate::case::Case;
use crate::tape::Tape;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

#[derive(Default, Debug)]
pub struct Meta {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
pub type Res = Result<Meta, String>;
pub type Gen = fn(&mut Tape) -> Case;
pub type Check = fn(&Case) -> Res;

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    pub gen: Gen,
    pub check: Check,
    /// number of cases in the quick tier
    pub quick: u32,
    pub tape: usize,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; static QUIET: Cell<bool> = const { Cell::new(false) }; }
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {msg} ({loc})")));
        } else {
            old(i);
        }
    }));
}
/// Run something that may panic; the panic message becomes the error.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".into()))
}
/// One evaluation of a check on a case: panics anywhere in the library are failures.
pub fn run_check(check: Check, c: &Case) -> Res {
    alloc::reset();
    match quiet(|| check(c)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub calls: u64,
}
pub struct Failure {
    pub sub: &'static str,
    pub case: Case,
    pub message: String,
}

fn seed_bytes(seed: u64, name: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, ch) in out.chunks_mut(8).enumerate() {
        // SplitMix over an FNV hash of the name: stable across toolchains
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in name.bytes().chain(shard.to_le_bytes()).chain([i as u8]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
        h ^= h >> 31;
        ch.copy_from_slice(&h.to_le_bytes());
    }
    out
}
fn hash(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

// ---- the case every shard is working on: a case that never comes back is a violation, too
struct Slot {
    since_ms: AtomicU64, // 0: idle
    tape: Mutex<(&'static str, Option<Gen>, Vec<u64>)>,
}
pub const SHARDS: usize = 8;
static SLOTS: [Slot; SHARDS] = [const { Slot { since_ms: AtomicU64::new(0), tape: Mutex::new(("", None, Vec::new())) } }; SHARDS];
static T0: OnceLock<Instant> = OnceLock::new();
fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// no further cases are generated after this time (milliseconds since the start)
pub static DEADLINE: AtomicU64 = AtomicU64::new(u64::MAX);
pub fn set_deadline(seconds: u64) {
    DEADLINE.store(now_ms() + seconds * 1000, Ordering::Relaxed);
}
/// time for shrinking one failure
const SHRINK_MS: u64 = 15_000;
static CORPUS_SLOT: Mutex<Option<(u64, &'static str, Case)>> = Mutex::new(None);
/// Like run_check, watched for cases that do not come back
pub fn run_corpus_case(sub: &Sub, c: &Case) -> Res {
    *CORPUS_SLOT.lock().unwrap() = Some((now_ms(), sub.name, c.clone()));
    let r = run_check(sub.check, c);
    *CORPUS_SLOT.lock().unwrap() = None;
    r
}
/// A case that has been running for more than `limit` seconds, if any
pub fn stuck(limit: u64) -> Option<(&'static str, Case)> {
    if let Some((since, sub, case)) = &*CORPUS_SLOT.lock().unwrap() {
        if now_ms() > since + limit * 1000 {
            return Some((sub, case.clone()));
        }
    }
    for s in &SLOTS {
        let since = s.since_ms.load(Ordering::Relaxed);
        if since != 0 && now_ms() > since + limit * 1000 {
            let g = s.tape.lock().unwrap();
            if s.since_ms.load(Ordering::Relaxed) == since {
                return Some((g.0, (g.1?)(&mut Tape::new(&g.2))));
            }
        }
    }
    None
}

pub fn replay_text(id: &str, sub: &str, seed: u64, message: &str, case: &Case) -> String {
    let cfg = if crate::num::IS32 { "f32" } else { "f64" };
    format!("# {}\nproperty: {id}\nsubcheck: {sub}\nseed: {seed}\nconfig: {cfg}\nmessage: {}\n{}", case.brief().replace('\n', " "), message.replace('\n', " "), case.encode())
}

fn shard(id: &str, sub: &Sub, seed: u64, shard: u32, cases: u32, trace: Option<&str>) -> (Stats, Option<Failure>) {
    let slot = &SLOTS[shard as usize];
    let stats = RefCell::new(Stats::default());
    let failed = Cell::new(false);
    let cfg = Config { cases, failure_persistence: None, max_shrink_iters: 60_000, max_global_rejects: 0, ..Config::default() };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, sub.name, shard));
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let strat = proptest::collection::vec(proptest::num::u64::ANY, sub.tape);
    let start_calls = alloc::calls();
    let found = Cell::new(0u64);
    let r = runner.run(&strat, |tape| {
        // Out of time: the cases so far count. While shrinking: the smallest failure so far is reported.
        if now_ms() > DEADLINE.load(Ordering::Relaxed) || (failed.get() && now_ms() > found.get() + SHRINK_MS) {
            return Ok(());
        }
        {
            let mut g = slot.tape.lock().unwrap();
            g.0 = sub.name;
            g.1 = Some(sub.gen);
            g.2.clone_from(&tape);
        }
        slot.since_ms.store(now_ms(), Ordering::Relaxed);
        let c = (sub.gen)(&mut Tape::new(&tape));
        if let Some(f) = trace {
            let _ = std::fs::write(f, replay_text(id, sub.name, seed, "the process died on this input", &c));
        }
        let r = run_check(sub.check, &c);
        slot.since_ms.store(0, Ordering::Relaxed);
        match r {
            Ok(m) => {
                if !failed.get() {
                    let mut s = stats.borrow_mut();
                    s.evaluations += 1;
                    for l in c.labels.iter() {
                        *s.labels.entry(l.clone()).or_insert(0) += 1;
                    }
                    for l in m.labels {
                        *s.labels.entry(l.to_string()).or_insert(0) += 1;
                    }
                    if m.nontrivial {
                        s.nontrivial += 1;
                        let e = c.encode();
                        s.distinct.insert(hash(&e));
                        if s.samples.len() < 1 && s.evaluations > 10 {
                            s.samples.push(format!("[{}] {}", sub.name, c.brief()));
                        }
                    }
                }
                Ok(())
            }
            Err(m) => {
                if !failed.get() {
                    stats.borrow_mut().evaluations += 1;
                }
                if !failed.replace(true) {
                    found.set(now_ms());
                }
                Err(TestCaseError::fail(m))
            }
        }
    });
    let mut st = stats.into_inner();
    st.calls = alloc::calls() - start_calls;
    let f = match r {
        Ok(()) => None,
        Err(TestError::Fail(why, tape)) => {
            let case = (sub.gen)(&mut Tape::new(&tape));
            let message = run_check(sub.check, &case).err().unwrap_or(why.message().to_string());
            Some(Failure { sub: sub.name, case, message })
        }
        Err(TestError::Abort(why)) => {
            eprintln!("proptest aborted: {why}");
            std::process::exit(4);
        }
    };
    (st, f)
}

pub struct Outcome {
    pub per_sub: Vec<(&'static str, Stats)>,
    pub failures: Vec<Failure>,
}
impl Outcome {
    /// add the coverage of a further round
    pub fn merge(&mut self, o: Outcome) {
        for ((_, a), (_, s)) in self.per_sub.iter_mut().zip(o.per_sub) {
            a.add(s);
        }
        self.failures.extend(o.failures);
    }
}
impl Stats {
    fn add(&mut self, s: Stats) {
        self.evaluations += s.evaluations;
        self.nontrivial += s.nontrivial;
        self.calls += s.calls;
        self.distinct.extend(s.distinct);
        for (k, v) in s.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        if self.samples.len() < 2 {
            self.samples.extend(s.samples);
        }
    }
}
/// `trace`: write every case to this file before running it, one shard at a time
pub fn run(prop: &Prop, seed: u64, factor: f64, trace: Option<&str>) -> Outcome {
    let mut out = Outcome { per_sub: vec![], failures: vec![] };
    for sub in &prop.subs {
        let total = ((sub.quick as f64 * factor) as u32).max(SHARDS as u32);
        let per = total.div_ceil(SHARDS as u32);
        let res: Vec<(Stats, Option<Failure>)> = std::thread::scope(|s| {
            let start = |i| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || shard(prop.id, sub, seed, i, per, trace)).expect("thread");
            if trace.is_some() {
                (0..SHARDS as u32).map(|i| start(i).join().expect("shard thread")).collect()
            } else {
                let h: Vec<_> = (0..SHARDS as u32).map(start).collect();
                h.into_iter().map(|x| x.join().expect("shard thread")).collect()
            }
        });
        let mut st = Stats::default();
        let mut first = None;
        for (s, f) in res {
            st.add(s);
            if first.is_none() {
                first = f;
            }
        }
        out.per_sub.push((sub.name, st));
        out.failures.extend(first);
    }
    out
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
