//! Command line: searches over seeds, replay of a recorded violation, evidence.
use crate::proc::{die_with_parent, forked, End, Limits, Shared};
use crate::shrink::shrink;
use crate::world::{self, Found, Report, Scenario};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const PROPS: [&str; 19] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
];

/// Number of simulated runs and wall-clock cap in seconds.
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C01" => 2400,
        "C02" => 480,
        "C03" | "C04" | "C05" => 3200,
        "C06" => 2400,
        "C07" => 960,
        "C08" => 960,
        "C09" => 800,
        "C10" => 1600,
        "C11" => 960,
        "C12" => 800,
        "C13" => 1600,
        "C14" => 1600,
        "C16" => 1600,
        "C17" => 4000,
        "C18" => 1600,
        "C19" => 4000,
        _ => 1200,
    };
    if tier == "thorough" {
        (quick * 60, 3000)
    } else {
        (quick, 240)
    }
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn run_seed(base: u64, prop: &str, index: u64) -> u64 {
    crate::prng::Prng::derive(base ^ (index << 20), &format!("run {}", prop)).u64() >> 12
}

fn limits(kzg: bool) -> Limits {
    Limits { cpu_s: if kzg { 150 } else { 40 }, wall_s: 300, mem: 4 << 30 }
}

/// Properties that promise an answer: a run that never ends breaks them.
fn must_end(prop: &str) -> bool {
    matches!(prop, "C01" | "C09" | "C11" | "C18" | "C19")
}

/// One run in a process of its own.
pub fn isolated(sc: &Scenario, keep: bool) -> Report {
    let mut shared = Shared::new();
    let end = forked(&limits(sc.kzg), || {
        let r = world::run(sc, keep, &mut |i| shared.set(i as u64));
        serde_json::to_vec(&r).unwrap()
    });
    match end {
        End::Bytes(b) => serde_json::from_slice(&b).unwrap_or_default(),
        End::Died(how) => {
            let step = shared.get() as usize;
            let mut r = Report::default();
            r.counters.insert("run.died".into(), 1);
            if must_end(&sc.prop) {
                r.found = Some(Found {
                    class: "no answer".into(),
                    detail: how,
                    step,
                    instead: None,
                });
            }
            r
        }
    }
}

#[derive(Serialize, Deserialize)]
struct Line {
    index: u64,
    seed: u64,
    report: Report,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    verif_seed: u64,
    index: u64,
    seed: u64,
    class: String,
    detail: String,
    trace: u64,
    steps_before: usize,
    steps_after: usize,
    shrink_runs: u64,
    scenario: Scenario,
}

pub fn main(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["run", prop, tier] => run(prop, tier),
        ["worker", prop, tier, base, start, stride, runs, cap] => worker(
            prop,
            tier,
            base.parse().unwrap(),
            start.parse().unwrap(),
            stride.parse().unwrap(),
            runs.parse().unwrap(),
            cap.parse().unwrap(),
        ),
        ["replay", file] => replay(file),
        ["dump", prop, index] => dump(prop, index.parse().unwrap()),
        ["traces", prop, tier, from, to] => {
            traces(prop, tier, from.parse().unwrap(), to.parse().unwrap())
        }
        _ => {
            eprintln!("usage: zoksim run PROP quick|thorough | replay FILE | dump PROP INDEX | traces PROP TIER FROM TO");
            2
        }
    }
}

fn make(prop: &str, tier: &str, base: u64, index: u64) -> Scenario {
    crate::gen::scenario(prop, run_seed(base, prop, index), index, tier == "thorough")
}

fn traces(prop: &str, tier: &str, from: u64, to: u64) -> i32 {
    for i in from..to {
        let sc = make(prop, tier, env_seed(), i);
        world::warm(&sc);
        let r = isolated(&sc, false);
        println!("{} {} {:016x} {:016x} {}", prop, i, r.trace, r.shape, r.judged);
    }
    0
}

fn dump(prop: &str, index: u64) -> i32 {
    let sc = make(prop, "quick", env_seed(), index);
    world::warm(&sc);
    println!("{}", serde_json::to_string(&sc).unwrap());
    let t = Instant::now();
    let r = isolated(&sc, true);
    for e in &r.events {
        println!("{}", e);
    }
    println!("{:#?}", r.counters);
    println!("found {:?} judged {} in {:?}", r.found, r.judged, t.elapsed());
    0
}

fn worker(prop: &str, tier: &str, base: u64, start: u64, stride: u64, runs: u64, cap: u64) -> i32 {
    die_with_parent();
    let t = Instant::now();
    let mut died = 0;
    let mut i = start;
    let out = std::io::stdout();
    while i < runs && t.elapsed() < Duration::from_secs(cap) && died < 3 {
        let seed = run_seed(base, prop, i);
        let sc = make(prop, tier, base, i);
        world::warm(&sc);
        let report = isolated(&sc, i < 3);
        if report.counters.contains_key("run.died") {
            died += 1;
        }
        let stop = report.found.is_some();
        let l = serde_json::to_string(&Line { index: i, seed, report }).unwrap();
        if writeln!(out.lock(), "{}", l).is_err() {
            return 0;
        }
        if stop {
            break;
        }
        i += stride;
    }
    0
}

fn root() -> PathBuf {
    std::env::var("ZOKSIM_ROOT").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

fn run(prop: &str, tier: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("no such property: {}", prop);
        return 2;
    }
    let t0 = Instant::now();
    let base = env_seed();
    let (mut runs, mut cap) = budget(prop, tier);
    if let Some(r) = std::env::var("ZOKSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = r;
    }
    if let Some(r) = std::env::var("ZOKSIM_CAP").ok().and_then(|s| s.parse().ok()) {
        cap = r;
    }
    let n: u64 = std::env::var("ZOKSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    let (tx, rx) = std::sync::mpsc::channel::<Line>();
    for k in 0..n {
        let mut c = Command::new(&exe)
            .args(["worker", prop, tier])
            .args([base, k, n, runs, cap].iter().map(|x| x.to_string()))
            .stdout(Stdio::piped())
            .spawn()
            .expect("worker");
        let o = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                let l = match l {
                    Ok(l) => l,
                    Err(_) => break,
                };
                match serde_json::from_str::<Line>(&l) {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(e) => eprintln!("worker said {:?}: {}", l, e),
                }
            }
        });
        kids.push(c);
    }
    drop(tx);
    let mut total = Totals::default();
    let mut hit: Option<Line> = None;
    for l in rx {
        total.take(&l);
        if l.report.found.is_some() {
            hit = Some(l);
            break;
        }
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    let search = t0.elapsed();
    let mut code = 0;
    let mut violations = 0;
    if let Some(l) = hit {
        violations = 1;
        code = 1;
        let p = report_violation(prop, tier, base, &l);
        println!("VIOLATION property={} replay={}", prop, p);
    } else if total.runs == 0 || total.judged == 0 {
        eprintln!("nothing was explored: {} runs, {} judgements", total.runs, total.judged);
        code = 2;
    }
    let known = if code == 0 { known_findings(prop) } else { vec![] };
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    write_evidence(prop, tier, base, &total, search, t0.elapsed(), violations, &known);
    println!(
        "{} {}: {} runs, {} judgements, {} distinct, {:.1} s",
        prop,
        tier,
        total.runs,
        total.judged,
        total.shapes.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

fn report_violation(prop: &str, tier: &str, base: u64, l: &Line) -> String {
    let sc = make(prop, tier, base, l.index);
    world::warm(&sc);
    let f = l.report.found.clone().unwrap();
    let secs = if f.class == "no answer" { 45 } else { 25 };
    let s = shrink(&sc, &f, Duration::from_secs(secs), &mut |c| {
        world::warm(c);
        isolated(c, false).found
    });
    let last = isolated(&s.scenario, false);
    let (scenario, found, trace) = match last.found {
        Some(g) if g.class == f.class => (s.scenario, g, last.trace),
        _ => (sc.clone(), f, l.report.trace),
    };
    let r = Replay {
        property: prop.into(),
        verif_seed: base,
        index: l.index,
        seed: l.seed,
        class: found.class.clone(),
        detail: found.detail.clone(),
        trace,
        steps_before: sc.steps.len(),
        steps_after: scenario.steps.len(),
        shrink_runs: s.tried,
        scenario,
    };
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.json", prop, base, l.index));
    std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap()).expect("replay file");
    println!(
        "{}: {} (step {}; run {} seed {}; {} of {} steps left)",
        found.class, found.detail, found.step, l.index, l.seed, r.steps_after, r.steps_before
    );
    p.display().to_string()
}

/// Runs the recorded history of every listed finding of a property, and returns
/// those that (still) fail in the listed way.
fn known_findings(prop: &str) -> Vec<String> {
    let list = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in list.lines() {
        let l = match l.strip_prefix(&format!("finding: property={} replay=", prop)) {
            Some(l) => l,
            None => continue,
        };
        let (file, text) = l.split_once(' ').unwrap_or((l, ""));
        let r: Option<Replay> = std::fs::read(root().join(file))
            .ok()
            .and_then(|b| serde_json::from_slice(&b).ok());
        if let Some(r) = r {
            world::warm(&r.scenario);
            match isolated(&r.scenario, false).found {
                Some(f) if f.class == r.class => out.push(format!("{} ({})", text, file)),
                _ => println!("listed finding did not show: {}", file),
            }
        }
    }
    out
}

fn replay(file: &str) -> i32 {
    let r: Replay = match std::fs::read(file).map_err(|e| e.to_string()).and_then(|b| {
        serde_json::from_slice(&b).map_err(|e| e.to_string())
    }) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    world::warm(&r.scenario);
    let rep = isolated(&r.scenario, true);
    for e in &rep.events {
        println!("{}", e);
    }
    match rep.found {
        Some(f) if f.class == r.class => {
            println!(
                "{}: {} (step {}; trace {:016x}, recorded {:016x})",
                f.class, f.detail, f.step, rep.trace, r.trace
            );
            println!("VIOLATION property={} replay={}", r.property, file);
            1
        }
        other => {
            println!("not reproduced: {:?}", other);
            0
        }
    }
}

#[derive(Default)]
struct Totals {
    runs: u64,
    judged: u64,
    sim_ms: u64,
    counters: BTreeMap<String, u64>,
    shapes: BTreeSet<u64>,
    traces: BTreeSet<u64>,
    samples: Vec<Value>,
    kzg_runs: u64,
}

impl Totals {
    fn take(&mut self, l: &Line) {
        self.runs += 1;
        self.judged += l.report.judged;
        self.sim_ms += l.report.sim_ms;
        for (k, v) in &l.report.counters {
            *self.counters.entry(k.clone()).or_insert(0) += v;
        }
        if l.report.counters.contains_key("run.real_kzg") {
            self.kzg_runs += 1;
        }
        if l.report.judged > 0 {
            self.shapes.insert(l.report.shape);
        }
        self.traces.insert(l.report.trace);
        if !l.report.events.is_empty() && self.samples.len() < 3 {
            self.samples.push(json!({
                "run": l.index, "seed": l.seed,
                "events": l.report.events.iter().take(40).collect::<Vec<_>>(),
            }));
        }
    }
}

fn group(c: &BTreeMap<String, u64>, prefix: &str) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    for (k, v) in c {
        if let Some(r) = k.strip_prefix(prefix) {
            *m.entry(r.to_string()).or_insert(0) += v;
        }
    }
    m
}

fn write_evidence(
    prop: &str,
    tier: &str,
    base: u64,
    t: &Totals,
    search: Duration,
    wall: Duration,
    violations: u64,
    known: &[String],
) {
    // crash points are many: only their number and how many kinds there were
    let all = group(&t.counters, "fault.");
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &all {
        let k2 = if let Some((a, b)) = k.split_once(" at ") {
            let site: String = b.chars().take_while(|c| c.is_alphabetic() || *c == '_' || *c == '.').collect();
            format!("{} at {}", a, site)
        } else {
            k.clone()
        };
        *faults.entry(k2).or_insert(0) += v;
    }
    let hours = search.as_secs_f64() / 3600.0;
    let (rule, real, stub) = describe(prop);
    let sim_s = t.sim_ms as f64 / 1000.0;
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.shapes.len(),
            "rule": rule,
            "samples": t.samples,
            "judgements": t.judged,
            "distinct_traces": t.traces.len(),
            "runs_per_hour": (t.runs as f64 / hours.max(1e-9)) as u64,
            "simulated_seconds": sim_s,
            "runs_with_real_kzg": t.kzg_runs,
            "faults_injected": faults,
            "sessions": group(&t.counters, "session."),
            "verdicts": group(&t.counters, "verdict."),
            "seam": group(&t.counters, "seam."),
            "schedule": group(&t.counters, "sched."),
            "attacks": group(&t.counters, "attack."),
            "probes": group(&t.counters, "probe."),
            "io": group(&t.counters, "io."),
            "skipped": group(&t.counters, "skipped."),
            "runs_without_answer": t.counters.get("run.died").copied().unwrap_or(0),
            "other_counters": t.counters.iter().filter(|(k, _)| {
                !["fault.", "session.", "verdict.", "seam.", "sched.", "attack.", "probe.", "io.", "skipped.", "run."]
                    .iter().any(|p| k.starts_with(p))
            }).collect::<BTreeMap<_, _>>(),
            "components_real": real,
            "components_stub": stub,
            "known_findings": known,
        },
        "assumptions": [
            "The opening of the field-valued commitment stub is as binding as KZG10; every n-th run uses the real KZG10 over BLS12-381.",
            "Challenges of the real Blake2s/ChaCha transcript are unpredictable; a claim that is false is accepted with probability about 2^-250."
        ],
        "wall_s": wall.as_secs_f64(),
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", prop)),
        serde_json::to_string_pretty(&e).unwrap(),
    );
}

fn describe(_prop: &str) -> (String, Vec<&'static str>, Vec<&'static str>) {
    (
        "A case is one simulated run: circuits, statements, a schedule of sessions on provers and verifiers, and faults, all drawn from the run's seed. It is non-trivial if the property's monitor decided something in it; two runs are the same if the sequence of kinds of events (sessions, their outcome, injected fault and fault site, verdict) is the same.".into(),
        vec![
            "all of zero-over-k: indexer, keys, prover, verifier, mock prover, gates, permutation, lookup, multiopen, proof encoding",
            "Fiat-Shamir transcript (SimpleHashFiatShamirRng over Blake2s and ChaCha)",
            "finite field and polynomial arithmetic (arkworks)",
            "KZG10 over BLS12-381 in the runs counted as runs_with_real_kzg",
        ],
        vec![
            "commitment backend in the other runs: field-valued KZG stub with the same interface, commit/open/check equations and hiding, in which the group is the scalar field",
            "channel, storage streams, clock, prover randomness, thread scheduler: simulated",
        ],
    )
}
