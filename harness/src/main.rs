//! vp run <property> <out.json> | vp replay <file> | vp list
use std::io::Write;
use std::time::Instant;
use vp::case::Case;
use vp::runner::{json_str, replay_text, run, run_check, run_corpus_case, stuck, Failure, Prop};

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or(d.into())
}
fn main() {
    vp::runner::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => cmd_run(&a[2], &a[3]),
        Some("replay") => cmd_replay(&a[2]),
        Some("list") => {
            for p in vp::checks::registry() {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: vp run ID OUT | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

fn cmd_run(id: &str, out: &str) -> i32 {
    let t0 = Instant::now();
    let tier = env("VERIF_TIER", "quick");
    let thorough = tier == "thorough";
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let factor: f64 = env("VP_FACTOR", "60").parse().unwrap();
    // thorough: further rounds with other seeds until this many seconds are used up
    let budget: u64 = env("VP_BUDGET", if thorough { "360" } else { "0" }).parse().unwrap();
    // a run on a slow or busy machine ends here with fewer cases, which the evidence reports
    let deadline: u64 = env("VP_DEADLINE", "450").parse().unwrap();
    vp::runner::set_deadline(deadline.max(budget + 60));
    let replay_dir = env("VP_REPLAYS", "/verif/replays");
    let Some(prop) = vp::checks::registry().into_iter().find(|p| p.id == id) else {
        eprintln!("no property {id} in this configuration");
        return 2;
    };
    let report = {
        let (id, dir) = (id.to_string(), replay_dir.clone());
        move |sub: &str, seed: u64, message: &str, case: &Case| {
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{id}-{}.replay", sub.replace('/', "_"));
            std::fs::write(&path, replay_text(&id, sub, seed, message, case)).expect("write replay");
            println!("VIOLATION property={id} replay={path}");
            println!("  [{sub}] {message}");
            println!("  input: {}", case.brief());
        }
    };
    // Every operation is a bounded computation that takes microseconds: one that does not come back within a
    // minute is a violation. A run that is merely slow as a whole is an error of the check.
    let limit: u64 = env("VP_WATCHDOG", "1500").parse().unwrap();
    let watch = report.clone();
    std::thread::spawn(move || {
        for _ in 0..limit {
            std::thread::sleep(std::time::Duration::from_secs(1));
            if let Some((sub, case)) = stuck(60) {
                watch(sub, seed, "an operation has not returned after 60 s", &case);
                std::process::exit(1);
            }
        }
        eprintln!("watchdog: no answer after {limit} s");
        std::process::exit(3);
    });
    let trace = std::env::var("VP_TRACE").ok();
    let corpus = corpus_failures(&prop, &env("VP_CORPUS", "/verif/corpus"));
    let corpus_runs = corpus.0;
    let mut o = run(&prop, seed, factor, trace.as_deref());
    let mut rounds = 1;
    while o.failures.is_empty() && t0.elapsed().as_secs() < budget {
        o.merge(run(&prop, seed.wrapping_mul(1_000_003).wrapping_add(rounds), factor, trace.as_deref()));
        rounds += 1;
        // keep the memory for the set of distinct cases bounded
        if o.per_sub.iter().map(|(_, s)| s.distinct.len()).sum::<usize>() > 400_000_000 {
            break;
        }
    }
    for f in corpus.1 {
        o.failures.insert(0, f);
    }
    let (mut ev, mut nt, mut calls) = (0, 0, 0);
    let mut samples = vec![];
    let mut labels = String::new();
    for (n, s) in &o.per_sub {
        ev += s.evaluations;
        nt += s.distinct.len();
        calls += s.calls;
        samples.extend(s.samples.iter().take(2).cloned());
        let l: Vec<String> = s.labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
        if !labels.is_empty() {
            labels.push_str(", ");
        }
        labels.push_str(&format!("{}: {{\"cases\": {}, \"nontrivial\": {}, \"classes\": {{{}}}}}", json_str(n), s.evaluations, s.nontrivial, l.join(", ")));
    }
    let mut code = 0;
    for f in &o.failures {
        code = 1;
        report(f.sub, seed, &f.message, &f.case);
    }
    let js = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {ev},\n  \"distinct_nontrivial\": {nt},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"library_calls\": {calls},\n  \"rounds\": {rounds},\n  \"corpus_cases\": {corpus_runs},\n  \"subchecks\": {{{labels}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(id),
        json_str(if tier == "thorough" { "thorough" } else { "quick" }),
        json_str(prop.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        o.failures.len()
    );
    if let Some(d) = std::path::Path::new(out).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::File::create(out).and_then(|mut f| f.write_all(js.as_bytes())).expect("write evidence");
    println!("{id}: {ev} cases, {nt} distinct non-trivial, {} violation(s), {:.1} s", o.failures.len(), t0.elapsed().as_secs_f64());
    code
}

/// Replays the committed inputs of this property (and configuration) that once failed.
fn corpus_failures(p: &Prop, dir: &str) -> (usize, Vec<Failure>) {
    let mut files: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    let (mut n, mut out) = (0, vec![]);
    for f in files {
        let Ok(s) = std::fs::read_to_string(&f) else {
            continue;
        };
        let sub = s.lines().find_map(|l| l.strip_prefix("subcheck: ")).unwrap_or("");
        let cfg = s.lines().find_map(|l| l.strip_prefix("config: ")).unwrap_or("f64");
        let (Some(k), true) = (p.subs.iter().find(|x| x.name == sub), (cfg == "f32") == vp::num::IS32) else {
            continue;
        };
        let c = Case::decode(&s).expect("parse corpus file");
        n += 1;
        if let Err(message) = run_corpus_case(k, &c) {
            out.push(Failure { sub: k.name, case: c, message });
        }
    }
    (n, out)
}

fn cmd_replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("read replay");
    let field = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string();
    let (id, sub) = (field("property"), field("subcheck"));
    let c = Case::decode(&s).expect("parse replay");
    let Some(p) = vp::checks::registry().into_iter().find(|p| p.id == id) else {
        eprintln!("no property {id} in this configuration (replay says config {})", field("config"));
        return 2;
    };
    let Some(k) = p.subs.iter().find(|x| x.name == sub) else {
        eprintln!("no subcheck {sub}");
        return 2;
    };
    match run_check(k.check, &c) {
        Ok(_) => {
            println!("replay {file}: property {id} holds on this input");
            0
        }
        Err(m) => {
            println!("VIOLATION property={id} replay={file}\n  [{sub}] {m}\n  input: {}", c.brief());
            1
        }
    }
}
