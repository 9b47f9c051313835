//! Coverage-guided search for the same checks: libFuzzer bytes -> sub-check and tape -> case -> check.
//! VP_PROP: property; VP_OUT: statistics file, rewritten now and then; VP_REPLAY: where a failing input goes.
//! With VP_ARTIFACT, translates one libFuzzer artifact into a replay file instead.
#![no_main]
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};
use vp::runner::{install_hook, replay_text, run_check, Prop, Sub};
use vp::tape::Tape;

extern "C" {
    fn _exit(code: i32) -> !;
}
struct State {
    prop: Prop,
    out: String,
    replay: String,
    seed: u64,
}
#[derive(Default)]
struct Stats {
    execs: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    per_sub: BTreeMap<&'static str, u64>,
    sample: Option<String>,
    current: Option<(Instant, usize, Vec<u64>)>,
}
static STATE: OnceLock<State> = OnceLock::new();
static STATS: Mutex<Option<Stats>> = Mutex::new(None);

fn env(k: &str) -> String {
    std::env::var(k).unwrap_or_default()
}
fn words(sub: &Sub, data: &[u8]) -> Vec<u64> {
    data.chunks(8)
        .take(sub.tape)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            u64::from_le_bytes(b)
        })
        .collect()
}
fn decode(s: &State, data: &[u8]) -> (usize, Vec<u64>) {
    let i = data[0] as usize % s.prop.subs.len();
    (i, words(&s.prop.subs[i], &data[1..]))
}
fn report(s: &State, sub: &Sub, tape: &[u64], message: &str) -> ! {
    let case = (sub.gen)(&mut Tape::new(tape));
    let _ = std::fs::write(&s.replay, replay_text(s.prop.id, sub.name, s.seed, message, &case));
    println!("VIOLATION property={} replay={}\n  [{}] {message}\n  input: {}", s.prop.id, s.replay, sub.name, case.brief());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) }
}
fn fails(sub: &Sub, tape: &[u64]) -> Option<String> {
    run_check(sub.check, &(sub.gen)(&mut Tape::new(tape))).err()
}
/// truncate, delete, zero and shrink words while the check still fails
fn shrink(sub: &Sub, mut tape: Vec<u64>) -> Vec<u64> {
    let end = Instant::now() + Duration::from_secs(15);
    loop {
        let before = tape.clone();
        let mut n = tape.len();
        while n > 0 && Instant::now() < end {
            let mut t = tape.clone();
            t.truncate(tape.len().saturating_sub(n));
            if fails(sub, &t).is_some() {
                tape = t;
            }
            n /= 2;
        }
        let mut w = 16;
        while w > 0 {
            let mut i = 0;
            while i + w <= tape.len() && Instant::now() < end {
                let mut t = tape.clone();
                t[i..i + w].fill(0);
                if t != tape && fails(sub, &t).is_some() {
                    tape = t;
                }
                let mut t = tape.clone();
                t.drain(i..i + w);
                if fails(sub, &t).is_some() {
                    tape = t;
                } else {
                    i += w;
                }
            }
            w /= 2;
        }
        for i in 0..tape.len() {
            let (mut lo, mut step) = (0u64, 0u32);
            while tape[i] > lo && step < 64 && Instant::now() < end {
                let mut t = tape.clone();
                t[i] = lo + (tape[i] - lo) / 2;
                if fails(sub, &t).is_some() {
                    tape = t;
                } else {
                    lo = t[i] + 1;
                }
                step += 1;
            }
        }
        if tape == before || Instant::now() >= end {
            return tape;
        }
    }
}
fn write_stats(s: &State, st: &Stats) {
    let subs: Vec<String> = st.per_sub.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    let js = format!(
        "{{\"execs\": {}, \"nontrivial\": {}, \"distinct\": {}, \"subs\": {{{}}}, \"sample\": {}}}",
        st.execs,
        st.nontrivial,
        st.distinct.len(),
        subs.join(", "),
        vp::runner::json_str(st.sample.as_deref().unwrap_or(""))
    );
    let tmp = format!("{}.new", s.out);
    let _ = std::fs::write(&tmp, js).and_then(|_| std::fs::rename(&tmp, &s.out));
}

#[no_mangle]
pub extern "C" fn LLVMFuzzerInitialize(_argc: *const i32, _argv: *const *const *const u8) -> i32 {
    install_hook();
    let id = env("VP_PROP");
    let prop = vp::checks::registry().into_iter().find(|p| p.id == id).expect("VP_PROP names a property of this configuration");
    let s = STATE.get_or_init(|| State { prop, out: env("VP_OUT"), replay: env("VP_REPLAY"), seed: env("VERIF_SEED").parse().unwrap_or(1) });
    *STATS.lock().unwrap() = Some(Stats::default());
    let artifact = env("VP_ARTIFACT");
    if !artifact.is_empty() {
        let data = std::fs::read(artifact).expect("artifact");
        if data.is_empty() {
            unsafe { _exit(2) }
        }
        let (i, tape) = decode(s, &data);
        report(s, &s.prop.subs[i], &tape, "the process is killed on this input");
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let g = STATS.lock().unwrap();
        if let Some((t, i, tape)) = &g.as_ref().unwrap().current {
            if t.elapsed() > Duration::from_secs(60) {
                report(s, &s.prop.subs[*i], tape, "an operation has not returned after 60 s");
            }
        }
    });
    0
}

#[no_mangle]
pub extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, len: usize) -> i32 {
    if len == 0 {
        return -1;
    }
    let data = unsafe { std::slice::from_raw_parts(data, len) };
    let s = STATE.get().unwrap();
    let (i, tape) = decode(s, data);
    let sub = &s.prop.subs[i];
    STATS.lock().unwrap().as_mut().unwrap().current = Some((Instant::now(), i, tape.clone()));
    let case = (sub.gen)(&mut Tape::new(&tape));
    let r = run_check(sub.check, &case);
    let mut g = STATS.lock().unwrap();
    let st = g.as_mut().unwrap();
    st.current = None;
    match r {
        Ok(m) => {
            st.execs += 1;
            *st.per_sub.entry(sub.name).or_insert(0) += 1;
            if m.nontrivial {
                st.nontrivial += 1;
                let mut h = DefaultHasher::new();
                case.encode().hash(&mut h);
                st.distinct.insert(h.finish());
                if st.execs > 5000 && st.sample.is_none() {
                    st.sample = Some(format!("[fuzz, {}] {}", sub.name, case.brief()));
                }
            }
            if st.execs % 2048 == 0 {
                write_stats(s, st);
            }
            0
        }
        Err(_) => {
            write_stats(s, st);
            drop(g);
            let tape = shrink(sub, tape);
            let m = fails(sub, &tape).unwrap_or_else(|| "fails only once".into());
            report(s, sub, &tape, &m)
        }
    }
}
