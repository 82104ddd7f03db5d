mod canon;
mod case;
mod doc;
mod dts;
mod edit;
mod minimise;
mod model;
mod oracle;
mod out;
mod project;
mod props;
mod rng;
mod schema;
mod sim;

use case::{Case, Obs};
use props::Viol;
use rng::{hash_bytes, mix};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sim::Lab;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A violation that anyone can run again.
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    tag: String,
    text: String,
    found_with_seed: u64,
    /// One per simulated run: hash over every step, operation and result.
    fingerprints: Vec<String>,
    case: Case,
}

fn fingerprint(o: &Obs) -> String {
    let mut h = mix(o.run.hash ^ o.run.steps.rotate_left(17) ^ hash_bytes(&o.run.stdout));
    for (f, t) in &o.after {
        h = mix(h ^ hash_bytes(f.as_bytes()) ^ hash_bytes(t).rotate_left(9));
    }
    format!("{h:016x}:{:?}", o.run.end.clone().unwrap_or(sim::End::Signal(0)))
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}
fn qlc() -> PathBuf {
    std::env::var_os("QLCDST_QLC")
        .map(PathBuf::from)
        .unwrap_or_else(|| root().join(".build/qlc-target/x86_64-unknown-linux-gnu/debug/qlc"))
}
fn lib() -> PathBuf {
    std::env::var_os("QLCDST_LIB").map(PathBuf::from).unwrap_or_else(|| root().join(".build/libqlcsim.so"))
}

/// The scratch directory all simulated projects live in; removed on every way out.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        for base in ["/dev/shm", "/tmp"] {
            for k in 0..64 {
                let p = PathBuf::from(format!("{base}/qlcdst-{}-{k}", std::process::id()));
                if std::fs::create_dir(&p).is_ok() {
                    return Scratch(p);
                }
            }
        }
        eprintln!("no scratch directory");
        std::process::exit(2);
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    runs: u64,
    nontrivial: HashSet<u64>,
    interleavings: HashSet<u64>,
    states: HashSet<u64>,
    simns: u128,
    steps: u64,
    switches: u64,
    counters: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    flavours: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    doubles: u64,
    disturbed: u64,
    documents: u64,
    samples: Vec<Value>,
}

fn apart(a: &[case::Obs], b: &[case::Obs]) -> Option<String> {
    a.iter().zip(b).find_map(|(a, b)| {
        if !a.run.same(&b.run) {
            Some(a.run.differs(&b.run))
        } else if a.after != b.after {
            Some("the files left behind".into())
        } else {
            None
        }
    })
}
impl Tally {
    fn merge(&mut self, o: Tally) {
        self.evaluations += o.evaluations;
        self.runs += o.runs;
        self.nontrivial.extend(o.nontrivial);
        self.interleavings.extend(o.interleavings);
        self.states.extend(o.states);
        self.simns += o.simns;
        self.steps += o.steps;
        self.switches += o.switches;
        self.doubles += o.doubles;
        self.disturbed += o.disturbed;
        self.documents += o.documents;
        for (a, b) in [
            (&mut self.counters, o.counters),
            (&mut self.faults, o.faults),
            (&mut self.flavours, o.flavours),
            (&mut self.ends, o.ends),
        ] {
            for (k, v) in b {
                *a.entry(k).or_default() += v;
            }
        }
        self.samples.extend(o.samples);
        self.samples.truncate(6);
    }
    fn add(&mut self, prop: &str, c: &Case, obs: &[Obs]) {
        self.evaluations += 1;
        *self.flavours.entry(c.flavour.clone()).or_default() += 1;
        if let Some(k) = props::nontrivial(prop, c, obs) {
            self.nontrivial.insert(k);
        }
        for o in obs {
            self.interleavings.insert(o.run.cshash);
            self.states.insert(mix(o.run.hash ^ hash_bytes(&o.run.stdout)));
            self.simns += o.run.simns as u128;
            self.steps += o.run.steps;
            self.switches += o.run.switches;
            self.documents += o.proj.sources().len() as u64;
            for (k, v) in &o.run.counters {
                *self.counters.entry(k.clone()).or_default() += v;
            }
            for (i, r) in o.env.rules.iter().enumerate() {
                let n = o.run.fired.get(i).copied().unwrap_or(0);
                if n > 0 {
                    let k = if r.act == "errno" { format!("{} errno {}", r.cls, r.arg) } else { format!("{} {}", r.cls, r.act) };
                    *self.faults.entry(k).or_default() += n;
                }
            }
            if o.run.end == Some(sim::End::Crash) {
                *self.faults.entry("process crash".into()).or_default() += 1;
            }
            *self.ends.entry(format!("{:?}", o.run.end.clone().unwrap())).or_default() += 1;
        }
        for s in &c.steps {
            match s {
                case::Step::Tear { .. } => *self.faults.entry("power loss with unsynced data".into()).or_default() += 1,
                case::Step::Spoil { .. } => *self.faults.entry("outputs of earlier runs changed by hand".into()).or_default() += 1,
                case::Step::Overlap { n, grants } => {
                    *self.faults.entry("runs at the same time".into()).or_default() += *n as u64;
                    *self.faults.entry("switches between processes decided by the seed".into()).or_default() += grants.len() as u64;
                    self.interleavings.insert(hash_bytes(format!("{grants:?}").as_bytes()));
                }
                case::Step::Run { env, .. } if env.tty || !env.vars.is_empty() => {
                    *self.faults.entry("terminals and colour settings in the environment".into()).or_default() += 1
                }
                case::Step::Edit { .. } => *self.faults.entry("tree edited between runs".into()).or_default() += 1,
                _ => {}
            }
        }
        if self.samples.len() < 2 {
            let o = obs.last().unwrap();
            self.samples.push(json!({
                "seed": c.seed, "flavour": c.flavour, "args": o.proj.args, "documents": o.proj.sources(),
                "environment": o.env, "end": format!("{:?}", o.run.end), "steps": o.run.steps, "switches": o.run.switches,
                "simulated_ns": o.run.simns, "schedule_hash": format!("{:016x}", o.run.cshash), "rule_fired": o.run.fired,
                "stdout_head": o.run.stdout_text().lines().take(3).collect::<Vec<_>>(),
            }));
        }
    }
}

struct Found {
    seed: u64,
    case: Case,
    viol: Viol,
}

fn rule_text(prop: &str) -> &'static str {
    match prop {
        "C01" => "seed -> project tree + schedule; non-trivial: at least two documents and at least one context switch decided by the seeded scheduler; distinct by project, switch sequence and faults fired",
        "C04" | "C05" => "seed -> project + fault plan + schedule; non-trivial: at least one planned fault really fired (or, for broken-documents, the reference model expects an error); distinct by project, switch sequence and faults fired",
        "C06" => "seed -> project + quirk rates; non-trivial: at least one short read/write, EINTR or unknown d_type happened; distinct by project, switch sequence and faults fired",
        "C07" => "seed -> project + history with crashes, torn data, edits; non-trivial: a run really was killed at its crash point; distinct by project, switch sequences and faults fired",
        "C27" => "seed -> project + history in which 2 to 4 processes take turns by seeded grants of so many file accesses each (kills, edits); non-trivial: at least two really overlapped; distinct by project, grants, switch sequences and faults fired",
        "C15" => "seed -> project + failing pthread_create or allocation; non-trivial: the failure really happened; distinct by project, switch sequence and faults fired",
        "C10" => "seed -> project + broken configuration or schema; non-trivial: the break was in effect (planned fault fired where it is a fault); distinct by project, switch sequence and faults fired",
        _ => "seed -> project + schedule (+ history/faults); non-trivial as coded in props.rs::nontrivial; distinct by project, switch sequence and faults fired",
    }
}

fn run_check(prop: &str, seed: u64, secs: u64, tier: &str, max_cases: u64) -> i32 {
    let t0 = Instant::now();
    let scratch = Scratch::new();
    let (qlc, lib) = (qlc(), lib());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let trouble: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<Tally> = Mutex::new(Tally::default());
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let known = known_findings(prop);
    let mut known_lines = Vec::new();
    {
        let mut lab = Lab::new(&scratch.0, 99, &qlc, &lib).expect("scratch");
        lab.pin = -1;
        for k in &known {
            let text = match std::fs::read_to_string(root().join(&k.file)) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("cannot read {}: {e}", k.file);
                    return 2;
                }
            };
            let mut rp: Replay = serde_json::from_str(&text).expect("finding file");
            // As with violations, what cannot be had again does not count.
            let mut v = Ok(());
            for _ in 0..4 {
                v = minimise::check(&mut rp.case, &mut lab).0;
                if matches!(&v, Err(v) if v.tag == rp.tag && v.text == rp.text) {
                    break;
                }
            }
            match v {
                Err(v) if v.tag == rp.tag && v.text == rp.text => known_lines.push(format!("KNOWN-FINDING: property={prop} {}", k.what)),
                Err(v) => {
                    println!("{prop}: the known finding {} now fails differently: {}", k.file, v.text);
                    println!("VIOLATION property={prop} replay={}", root().join(&k.file).display());
                    return 1;
                }
                Ok(()) => println!("{prop}: the known finding {} no longer fails", k.file),
            }
        }
    }
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (next, stop, found, trouble, total) = (&next, &stop, &found, &trouble, &total);
            let (scratch, qlc, lib) = (&scratch, &qlc, &lib);
            sc.spawn(move || {
                let mut lab = Lab::new(&scratch.0, w, qlc, lib).expect("scratch");
                let mut tally = Tally::default();
                while !stop.load(Ordering::Relaxed) && t0.elapsed() < Duration::from_secs(secs) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= max_cases {
                        break;
                    }
                    let s = mix(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(i + 1)) >> 1;
                    let lab = &mut lab;
                    let tally = &mut tally;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
                        let mut c = props::generate(prop, s, lab);
                        let (v, obs) = minimise::check(&mut c, lab);
                        tally.add(prop, &c, &obs);
                        if i % 16 == 5 {
                            // The same seed must give the same execution, bit for bit.
                            let again = c.clone().execute(lab);
                            tally.doubles += 1;
                            if let Some(d) = apart(&obs, &again) {
                                // Once is a disturbance of the machine, noted in the evidence; twice is the simulator's fault.
                                eprintln!("{prop}: seed {s}: two executions differ: {d}");
                                tally.disturbed += 1;
                                let (x, y) = (c.clone().execute(lab), c.clone().execute(lab));
                                if let Some(d) = apart(&x, &y) {
                                    return Err(format!("seed {s}: two executions of the same seed differ: {d}"));
                                }
                                if tally.disturbed > 2 + tally.doubles / 20 {
                                    return Err(format!("{} of {} second executions differ", tally.disturbed, tally.doubles));
                                }
                            }
                        }
                        if let Err(viol) = v {
                            // What cannot be had again is not reported as a violation.
                            let known = (0..5).any(|_| minimise::check(&mut c.clone(), lab).0.is_err());
                            if !known {
                                eprintln!("{prop}: seed {s}: {} [{}], and not when executed again", viol.text, viol.tag);
                                tally.disturbed += 1;
                                if tally.disturbed > 2 + tally.doubles / 20 {
                                    return Err(format!("seed {s}: {} [{}], and not when executed again", viol.text, viol.tag));
                                }
                                return Ok(());
                            }
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some(Found { seed: s, case: c, viol });
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                        Ok(())
                    }));
                    let e = match r {
                        Ok(Ok(())) => continue,
                        Ok(Err(e)) => e,
                        Err(p) => format!(
                            "seed {s}: {}",
                            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                        ),
                    };
                    *trouble.lock().unwrap() = Some(e);
                    stop.store(true, Ordering::Relaxed);
                }
                tally.runs = lab.runs;
                total.lock().unwrap().merge(tally);
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let tally = total.into_inner().unwrap();
    let found = found.into_inner().unwrap();
    let trouble = trouble.into_inner().unwrap();
    let mut code = 0;
    let mut violations: Vec<Value> = Vec::new();
    for l in &known_lines {
        println!("{l}");
    }
    if let Some(f) = found {
        let mut lab = Lab::new(&scratch.0, 0, &qlc, &lib).expect("scratch");
        let small = minimise::minimise(&f.case, &f.viol.tag, &mut lab, Duration::from_secs(if tier == "quick" { 25 } else { 90 }));
        let mut c = small.clone();
        let (v, obs) = minimise::check(&mut c, &mut lab);
        let (c, v, obs) = match v {
            Err(v) => (c, v, obs),
            Ok(()) => {
                let mut c = f.case.clone();
                let (_, obs) = minimise::check(&mut c, &mut lab);
                (c, f.viol.clone(), obs)
            }
        };
        let rp = Replay {
            property: prop.into(),
            tag: v.tag.clone(),
            text: v.text.clone(),
            found_with_seed: f.seed,
            fingerprints: obs.iter().map(fingerprint).collect(),
            case: c,
        };
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{}.json", f.seed));
        std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap()).expect("replay file");
        println!("{prop}: {} [{}] (seed {}, {} files and {} steps after minimising)", v.text, v.tag, f.seed, rp.case.proj.entries.len(), rp.case.steps.len());
        println!("VIOLATION property={prop} replay={}", path.display());
        violations.push(json!({"replay": path, "what": v.text, "judge": v.tag, "seed": f.seed}));
        code = 1;
    } else if let Some(e) = trouble {
        eprintln!("{prop}: the check itself failed: {e}");
        code = 2;
    }
    let hours = search_s / 3600.0;
    let mut fault_counts = tally.faults.clone();
    for (k, v) in &tally.counters {
        if *v > 0 {
            fault_counts.insert(format!("simulator: {k}"), *v);
        }
    }
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tally.evaluations,
            "distinct_nontrivial": tally.nontrivial.len(),
            "rule": rule_text(prop),
            "samples": tally.samples,
            "simulated_runs": tally.runs,
            "simulated_runs_per_hour": (tally.runs as f64 / hours) as u64,
            "seeds_per_hour": (tally.evaluations as f64 / hours) as u64,
            "simulated_seconds": tally.simns as f64 / 1e9,
            "scheduler_steps": tally.steps,
            "context_switches": tally.switches,
            "distinct_interleavings": tally.interleavings.len(),
            "distinct_executions": tally.states.len(),
            "interleaving_measure": "hash of the sequence of (operation, thread switched to) over the whole run; executions additionally hash every operation, path and result",
            "documents_compiled": tally.documents,
            "faults_injected": fault_counts,
            "flavours": tally.flavours,
            "ends": tally.ends,
            "determinism_rechecks": tally.doubles,
            "rechecks_that_differed_once": tally.disturbed,
            "components_real": if prop == "C21" { json!(["the whole qlc binary, built from /repo's working tree", "Rust standard library and all dependencies of qlc", "kernel file system under a private scratch directory", "the schema downloader from /repo's working tree, with node's http client (in jssim)"]) } else if prop == "C26" { json!(["the whole qlc binary, built from /repo's working tree", "Rust standard library and all dependencies of qlc", "kernel file system under a private scratch directory", "the TypeScript compiler", "the packaged typings from /repo's working tree"]) } else { json!(["the whole qlc binary, built from /repo's working tree", "Rust standard library and all dependencies of qlc", "kernel file system under a private scratch directory"]) },
            "components_simulated": ["thread scheduler, mutexes, condition variables, futexes, channels' parking", "clocks and sleeping", "randomness (hash seeds)", "directory listing order and entry types", "results of file operations", "thread creation, allocation failure, process crash, loss of unsynced data"],
        },
        "assumptions": assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
        "violations_found": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");
    println!(
        "{prop}: {} cases, {} distinct non-trivial, {} simulated runs, {} interleavings, {:.0} simulated s, {:.1} s",
        tally.evaluations,
        tally.nontrivial.len(),
        tally.runs,
        tally.interleavings.len(),
        tally.simns as f64 / 1e9,
        t0.elapsed().as_secs_f64()
    );
    code
}

fn assumptions() -> Value {
    json!([
        "threads interleave at every synchronisation operation, atomic access, system call and allocation boundary seen by the simulator; plain memory accesses between them are not interleaved",
        "atomics are sequentially consistent in the simulation",
        "linked against the system libc dynamically; the program reaches the kernel only through it"
    ])
}

struct Known {
    file: String,
    what: String,
}
fn known_findings(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix(&format!("finding: property={prop} case=")) {
            let (f, w) = r.split_once(' ').unwrap_or((r, ""));
            v.push(Known { file: f.into(), what: w.into() });
        }
    }
    v
}

fn replay(file: &Path, verbose: bool) -> i32 {
    let mut rp: Replay = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let scratch = Scratch::new();
    let mut lab = Lab::new(&scratch.0, 0, &qlc(), &lib()).expect("scratch");
    let (v, obs) = minimise::check(&mut rp.case, &mut lab);
    let fp: Vec<String> = obs.iter().map(fingerprint).collect();
    if verbose {
        for (i, o) in obs.iter().enumerate() {
            println!("---- run {i}: {:?} after {} steps, args {:?}", o.run.end, o.run.steps, o.proj.args);
            let mut p = o.proj.clone();
            for (f, t) in p.files() {
                if f != p.schema_path {
                    println!("--- {f}\n{}", String::from_utf8_lossy(&t));
                }
            }
            println!("--- files after: {:?}", o.after.keys().collect::<Vec<_>>());
            println!("--- stdout\n{}\n--- stderr\n{}", o.run.stdout_text(), o.run.stderr_text());
            for (f, t) in &o.after {
                if o.before.get(f) != Some(t) {
                    println!("--- written {f}\n{}", String::from_utf8_lossy(t));
                }
            }
        }
    }
    match v {
        Err(v) => {
            println!("{}: {} [{}]", rp.property, v.text, v.tag);
            if fp == rp.fingerprints && v.tag == rp.tag {
                println!("reproduced exactly ({} runs)", fp.len());
            } else {
                println!("the violation is there, but the execution is not identical to the recorded one (the program changed?)");
            }
            println!("VIOLATION property={} replay={}", rp.property, file.display());
            1
        }
        Ok(()) => {
            println!("{}: the property holds on this case now", rp.property);
            0
        }
    }
}

/// Fills in what a hand-written case of a known finding does.
fn record(file: &Path) -> i32 {
    let mut rp: Replay = serde_json::from_str(&std::fs::read_to_string(file).expect("case file")).expect("case file");
    let scratch = Scratch::new();
    let mut lab = Lab::new(&scratch.0, 0, &qlc(), &lib()).expect("scratch");
    let (v, obs) = minimise::check(&mut rp.case, &mut lab);
    let Err(v) = v else {
        println!("the property holds on this case");
        return 2;
    };
    rp.tag = v.tag;
    rp.text = v.text;
    rp.fingerprints = obs.iter().map(fingerprint).collect();
    std::fs::write(file, serde_json::to_string_pretty(&rp).unwrap() + "\n").expect("case file");
    0
}

/// Turns a seed's case into a replay file even if nothing is wrong, for inspection.
fn show(prop: &str, seed: u64) -> i32 {
    let scratch = Scratch::new();
    let mut lab = Lab::new(&scratch.0, 0, &qlc(), &lib()).expect("scratch");
    let mut case = props::generate(prop, seed, &mut lab);
    let (v, obs) = minimise::check(&mut case, &mut lab);
    let (tag, text) = v.err().map_or(("".into(), "".into()), |v| (v.tag, v.text));
    let rp = Replay { property: prop.into(), tag, text, found_with_seed: seed, fingerprints: obs.iter().map(fingerprint).collect(), case };
    println!("{}", serde_json::to_string_pretty(&rp).unwrap());
    0
}

/// Executes a seed's case many times and compares, for looking into irreproducible executions.
fn twice(prop: &str, seed: u64, n: usize, par: usize) -> i32 {
    let bad = std::sync::atomic::AtomicUsize::new(0);
    let scratch = &Scratch::new();
    std::thread::scope(|s| {
        for w in 0..par {
            let bad = &bad;
            s.spawn(move || {
                let mut lab = Lab::new(&scratch.0, w, &qlc(), &lib()).expect("scratch");
                let mut case = props::generate(prop, seed, &mut lab);
                let (_, first) = minimise::check(&mut case, &mut lab);
                for k in 0..n {
                    let again = case.clone().execute(&mut lab);
                    for (i, (a, b)) in first.iter().zip(&again).enumerate() {
                        if !a.run.same(&b.run) || a.after != b.after {
                            bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            println!("try {k} run {i}: end {:?} {:?} steps {} {} hash {:x} {:x} cshash {:x} {:x} allocs {} {} stdout {} ops {} after {} escapes {:?}",
                                a.run.end, b.run.end, a.run.steps, b.run.steps, a.run.hash, b.run.hash, a.run.cshash, b.run.cshash, a.run.allocs, b.run.allocs,
                                a.run.stdout == b.run.stdout, a.run.ops == b.run.ops, a.after == b.after, b.run.escapes);
                            for (x, y) in a.run.ops.iter().zip(&b.run.ops) {
                                if x != y {
                                    println!("  op {x:?} / {y:?}");
                                    break;
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    println!("{} differences", bad.load(std::sync::atomic::Ordering::SeqCst));
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("QLCDST_DEBUG").is_some() {
            eprintln!("{i}");
        }
    }));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run_check(&a[2], num("--seed", 1), num("--secs", 30), &opt("--tier").unwrap_or("quick".into()), num("--cases", u64::MAX)),
        Some("replay") => replay(Path::new(&a[2]), a.iter().any(|x| x == "-v")),
        Some("twice") => twice(&a[2], a[3].parse().expect("seed"), num("--n", 50) as usize, num("--par", 8) as usize),
        Some("record") => record(Path::new(&a[2])),
        Some("write") => {
            // The project of a replay file, as files.
            let mut rp: Replay = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay file");
            rp.case.proj.materialise(Path::new(&a[3])).expect("files");
            println!("{:?}", rp.case.proj.args);
            0
        }
        Some("show") => show(&a[2], a[3].parse().expect("seed")),
        _ => {
            eprintln!("usage: driver run <property> [--seed n] [--secs s] [--tier t] [--cases n] | replay <file> [-v] | show <property> <seed>");
            2
        }
    };
    std::process::exit(code);
}
