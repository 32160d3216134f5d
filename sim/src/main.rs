//! Deterministic simulation harness for siderust.  See /verif/DESIGN.md.

mod alloc;
#[macro_use]
mod core;
mod gen;
mod io;
mod kepler;
mod props;

use crate::core::{hash_bytes, install_panic_hook, minimise, mix, run_once, Scenario, Tape};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub struct Prop {
    pub id: &'static str,
    pub scenarios: &'static [(&'static str, u32, Scenario)],
    pub runs_quick: u64,
    pub runs_thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const WORKERS: u64 = 8;

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn prop(id: &str) -> &'static Prop {
    props::ALL.iter().copied().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn run_seed(base: u64, p: &str, i: u64) -> u64 {
    mix(mix(base ^ hash_bytes(p.as_bytes())).wrapping_add(i))
}

/// Scenario chosen by run index (weighted round robin), so coverage of each is fixed.
fn scenario_of(p: &Prop, i: u64) -> usize {
    let tot: u32 = p.scenarios.iter().map(|s| s.1).sum();
    let mut k = (mix(i ^ 0x5ce1) % tot as u64) as u32;
    for (n, s) in p.scenarios.iter().enumerate() {
        if k < s.1 {
            return n;
        }
        k -= s.1;
    }
    0
}

fn known(p: &str) -> Vec<(String, String)> {
    // "KNOWN-FINDING: property=<id> key=<kind> <text>"
    let f = verif_dir().join("KNOWN_FINDINGS.txt");
    let mut v = Vec::new();
    if let Ok(t) = std::fs::read_to_string(f) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("KNOWN-FINDING: property={p} ")) {
                if let Some(k) = r.strip_prefix("key=") {
                    let (k, t) = k.split_once(' ').unwrap_or((k, ""));
                    v.push((k.to_string(), t.to_string()));
                }
            }
        }
    }
    v
}

fn replay_path(p: &str, seed: u64) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{p}-{seed:016x}.json"))
}

fn write_replay(path: &Path, p: &Prop, sc: usize, seed: u64, idx: u64, base: u64, choices: &[u64], kind: &str, msg: &str, trace: &[String], thorough: bool, min: bool) {
    let v = json!({
        "property": p.id, "scenario": p.scenarios[sc].0, "run_seed": format!("{seed:016x}"), "base_seed": base, "run_index": idx,
        "thorough": thorough, "kind": kind, "message": msg, "minimised": min, "choices": choices, "trace": trace,
    });
    let _ = std::fs::write(path, serde_json::to_string_pretty(&v).unwrap());
}

fn worker(args: &[String]) {
    let p = prop(&args[0]);
    let thorough = args[1] == "thorough";
    let base: u64 = args[2].parse().unwrap();
    let start: u64 = args[3].parse().unwrap();
    let step: u64 = args[4].parse().unwrap();
    let total: u64 = args[5].parse().unwrap();
    let cap: f64 = args[6].parse().unwrap();
    install_panic_hook();
    alloc::enforce();
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut checks = 0u64;
    let mut faults: BTreeMap<&str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&str, u64> = BTreeMap::new();
    let mut per_sc: BTreeMap<&str, u64> = BTreeMap::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut traces: HashSet<u64> = HashSet::new();
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut sim_ns = 0u128;
    let mut samples: Vec<Value> = Vec::new();
    let known = known(p.id);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen_kinds: HashSet<String> = HashSet::new();
    let mut nviol = 0u64;
    let out = std::io::stdout();
    let mut i = start;
    while i < total && t0.elapsed().as_secs_f64() < cap {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "I {i}");
            let _ = o.flush();
        }
        let sc = scenario_of(p, i);
        let f = p.scenarios[sc].2;
        let seed = run_seed(base, p.id, i);
        let o = run_once(f, Tape::generate(seed), thorough);
        runs += 1;
        checks += o.sim.checks;
        *per_sc.entry(p.scenarios[sc].0).or_insert(0) += 1;
        for (k, v) in &o.sim.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &o.sim.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        // Distinct counts are capped (lower bounds) to keep long runs in memory.
        if states.len() < 400_000 {
            states.extend(o.sim.states.iter().copied());
        }
        let th = mix(o.sim.trace_hash ^ sc as u64);
        if traces.len() < 400_000 {
            traces.insert(th);
        }
        if nontrivial.len() < 400_000 && o.sim.checks > 0 && (!o.sim.faults.is_empty() || !o.sim.trace.is_empty()) {
            nontrivial.insert(th);
        }
        sim_ns += o.sim.sim_ns as u128;
        if samples.len() < 2 && !o.sim.trace.is_empty() && i >= start + step * 3 {
            samples.push(json!({"scenario": p.scenarios[sc].0, "run_seed": format!("{seed:016x}"), "faults": o.sim.faults, "trace": o.sim.trace.iter().take(12).collect::<Vec<_>>()}));
        }
        let mut res = o.result;
        let choices = o.sim.choices().to_vec();
        let mut trace = o.sim.trace;
        // Determinism self-check: the same seed must be the same execution.
        if res.is_ok() && (runs % 16 == 1) {
            let o2 = run_once(f, Tape::generate(seed), thorough);
            if o2.result.is_err() || o2.sim.trace_hash != o.sim.trace_hash {
                res = Err(crate::core::Viol { kind: "nondeterministic".into(), msg: format!("the same seed produced two different executions: {:?}", o2.result) });
                trace = o2.sim.trace;
            }
        }
        if let Err(v) = res {
            if let Some((k, _)) = known.iter().find(|(k, _)| *k == v.kind) {
                *known_hits.entry(k.clone()).or_insert(0) += 1;
                i += step;
                continue;
            }
            nviol += 1;
            if seen_kinds.insert(v.kind.clone()) {
                let path = replay_path(p.id, seed);
                write_replay(&path, p, sc, seed, i, base, &choices, &v.kind, &v.msg, &trace, thorough, false);
                let report = |msg: &str| {
                    let mut o = out.lock();
                    let _ = writeln!(o, "V {}", json!({"kind": v.kind, "msg": msg, "path": path, "idx": i}));
                    let _ = o.flush();
                };
                report(&v.msg);
                if v.kind != "nondeterministic" {
                    let tm = Instant::now();
                    let best = minimise(
                        choices,
                        |c| {
                            if tm.elapsed() > Duration::from_secs(25) {
                                return None;
                            }
                            let o = run_once(f, Tape::replay(c.to_vec()), thorough);
                            match o.result {
                                Err(w) if w.kind == v.kind => Some(o.sim.choices().to_vec()),
                                _ => None,
                            }
                        },
                        6000,
                    );
                    let o = run_once(f, Tape::replay(best.clone()), thorough);
                    if let Err(w) = o.result {
                        write_replay(&path, p, sc, seed, i, base, &best, &w.kind, &w.msg, &o.sim.trace, thorough, true);
                        report(&w.msg);
                    }
                }
                if seen_kinds.len() >= 4 {
                    break;
                }
            }
        }
        i += step;
    }
    let fin = json!({
        "runs": runs, "checks": checks, "faults": faults, "probes": probes, "scenarios": per_sc,
        "states": states.iter().map(|s| format!("{s:x}")).collect::<Vec<_>>(),
        "traces": traces.iter().map(|s| format!("{s:x}")).collect::<Vec<_>>(),
        "nontrivial": nontrivial.iter().map(|s| format!("{s:x}")).collect::<Vec<_>>(),
        "sim_ns": sim_ns as f64, "samples": samples, "known": known_hits, "viol": nviol,
    });
    let mut o = out.lock();
    let _ = writeln!(o, "F {fin}");
    let _ = o.flush();
}

struct Child {
    last: Arc<Mutex<(Option<u64>, Instant, Option<Value>, Vec<Value>)>>,
    proc: std::process::Child,
    err: PathBuf,
    reader: std::thread::JoinHandle<()>,
}

fn check(args: &[String]) -> i32 {
    let id = &args[0];
    let p = prop(id);
    let tier = if args.iter().any(|a| a == "thorough") || (args.len() < 2 && std::env::var("VERIF_TIER").as_deref() == Ok("thorough")) { "thorough" } else { "quick" };
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let (mut total, cap) = if tier == "thorough" { (p.runs_thorough, 2400.0) } else { (p.runs_quick, 200.0) };
    if let Ok(s) = std::env::var("SIDSIM_RUNS") {
        total = s.parse().unwrap();
    }
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let scratch = std::env::temp_dir().join(format!("sidsim-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let mut kids = Vec::new();
    for w in 0..WORKERS {
        let err = scratch.join(format!("err{w}"));
        let mut proc = Command::new(&exe)
            .args(["worker", id, tier, &base.to_string(), &w.to_string(), &WORKERS.to_string(), &total.to_string(), &cap.to_string()])
            .env("SIDSIM_SCRATCH", scratch.join(format!("w{w}")))
            .stdout(Stdio::piped())
            .stderr(std::fs::File::create(&err).unwrap())
            .spawn()
            .expect("spawn worker");
        let last = Arc::new(Mutex::new((None, Instant::now(), None, Vec::new())));
        let l2 = last.clone();
        let so = proc.stdout.take().unwrap();
        let reader = std::thread::spawn(move || {
            for line in BufReader::new(so).lines() {
                let Ok(line) = line else { break };
                let mut g = l2.lock().unwrap();
                g.1 = Instant::now();
                if let Some(r) = line.strip_prefix("I ") {
                    g.0 = r.parse().ok();
                } else if let Some(r) = line.strip_prefix("V ") {
                    if let Ok(v) = serde_json::from_str(r) {
                        g.3.push(v);
                    }
                } else if let Some(r) = line.strip_prefix("F ") {
                    g.2 = serde_json::from_str(r).ok();
                }
            }
        });
        kids.push(Child { last, proc, err, reader });
    }
    let mut viols: BTreeMap<String, Value> = BTreeMap::new();
    let mut fins: Vec<Value> = Vec::new();
    let mut harness_err = false;
    for mut k in kids {
        let mut hung = false;
        let status = loop {
            if let Some(s) = k.proc.try_wait().unwrap() {
                break Some(s);
            }
            let idle = k.last.lock().unwrap().1.elapsed();
            if idle > Duration::from_secs(90) {
                hung = true;
                let _ = k.proc.kill();
                let _ = k.proc.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(15));
        };
        let _ = k.reader.join();
        let g = k.last.lock().unwrap();
        for v in &g.3 {
            viols.insert(v["kind"].as_str().unwrap_or("?").to_string(), v.clone());
        }
        if let Some(f) = &g.2 {
            fins.push(f.clone());
        } else if hung || g.3.is_empty() {
            // The worker died or hung inside a run: that run is the violation.
            let stderr = std::fs::read_to_string(&k.err).unwrap_or_default();
            match g.0 {
                Some(idx) => {
                    let sc = scenario_of(p, idx);
                    let seed = run_seed(base, p.id, idx);
                    let kind = if hung { "hang" } else { "crash" };
                    let tail: String = stderr.chars().rev().take(300).collect::<String>().chars().rev().collect();
                    let msg = format!("run {idx} ({}) {} ({status:?}): {}", p.scenarios[sc].0, if hung { "did not terminate within 90 s" } else { "aborted the process" }, tail.trim());
                    let path = replay_path(p.id, seed);
                    write_replay(&path, p, sc, seed, idx, base, &[], kind, &msg, &[], tier == "thorough", false);
                    if kind == "crash" {
                        minimise_crash(&exe, p, sc, seed, idx, base, tier == "thorough", &path, &msg);
                    }
                    viols.insert(kind.into(), json!({"kind": kind, "msg": msg, "path": path, "idx": idx}));
                }
                None => {
                    eprintln!("worker failed to start: {stderr}");
                    harness_err = true;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    // Aggregate.
    let sum = |k: &str| fins.iter().map(|f| f[k].as_u64().unwrap_or(0)).sum::<u64>();
    let merge = |k: &str| {
        let mut m: BTreeMap<String, u64> = BTreeMap::new();
        for f in &fins {
            if let Some(o) = f[k].as_object() {
                for (a, b) in o {
                    *m.entry(a.clone()).or_insert(0) += b.as_u64().unwrap_or(0);
                }
            }
        }
        m
    };
    let set = |k: &str| {
        let mut m: HashSet<String> = HashSet::new();
        for f in &fins {
            if let Some(o) = f[k].as_array() {
                m.extend(o.iter().filter_map(|x| x.as_str().map(String::from)));
            }
        }
        m.len() as u64
    };
    let wall = t0.elapsed().as_secs_f64();
    let runs = sum("runs");
    let sim_s = fins.iter().map(|f| f["sim_ns"].as_f64().unwrap_or(0.0)).sum::<f64>() / 1e9;
    let samples: Vec<Value> = fins.iter().filter_map(|f| f["samples"].as_array()).flatten().take(4).cloned().collect();
    let known_hits = merge("known");
    for (k, text) in known(p.id) {
        println!("KNOWN-FINDING: property={} key={k} {text} (met in {} runs)", p.id, known_hits.get(&k).copied().unwrap_or(0));
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": set("nontrivial"),
            "rule": p.rule,
            "samples": samples,
            "oracle_comparisons": sum("checks"),
            "distinct_executions": set("traces"),
            "distinct_states": set("states"),
            "runs_per_hour": (runs as f64 / wall.max(1e-9) * 3600.0).round(),
            "seeds_per_hour": (runs as f64 / wall.max(1e-9) * 3600.0).round(),
            "simulated_seconds": sim_s,
            "faults_injected": merge("faults"),
            "coverage_probes": merge("probes"),
            "runs_per_scenario": merge("scenarios"),
            "known_finding_hits": known_hits,
            "real_components": p.real,
            "stub_components": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": viols.len(),
    });
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{}: {} runs ({:.0}/h), {} oracle comparisons, {} distinct executions, {} states, faults {:?}, {:.1}s", p.id, runs, runs as f64 / wall * 3600.0, sum("checks"), set("traces"), set("states"), merge("faults"), wall);
    if !viols.is_empty() {
        for (k, v) in &viols {
            println!("  violation kind={k} run={} : {}", v["idx"], v["msg"].as_str().unwrap_or("").chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={}", p.id, v["path"].as_str().unwrap_or("?"));
        }
        return 1;
    }
    if harness_err || runs == 0 {
        return 2;
    }
    0
}

fn minimise_crash(exe: &Path, p: &Prop, sc: usize, seed: u64, idx: u64, base: u64, thorough: bool, path: &Path, msg: &str) {
    // Recover the tape of the crashing run by drawing it again in a child that
    // logs every choice, then shrink with one child process per candidate.
    let log = path.with_extension("tape");
    let _ = Command::new(exe)
        .args(["tapelog", p.id, &sc.to_string(), &seed.to_string(), if thorough { "thorough" } else { "quick" }, log.to_str().unwrap()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let Ok(txt) = std::fs::read_to_string(&log) else { return };
    let _ = std::fs::remove_file(&log);
    let choices: Vec<u64> = txt.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let tm = Instant::now();
    let cand = path.with_extension("cand");
    let crashes = |c: &[u64]| -> bool {
        if tm.elapsed() > Duration::from_secs(30) {
            return false;
        }
        write_replay(&cand, p, sc, seed, idx, base, c, "crash", msg, &[], thorough, false);
        let st = Command::new(exe).args(["replay", cand.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).status();
        matches!(st, Ok(s) if s.code().is_none())
    };
    let best = if crashes(&choices) { minimise(choices.clone(), |c| if crashes(c) { Some(c.to_vec()) } else { None }, 300) } else { choices };
    let _ = std::fs::remove_file(&cand);
    write_replay(path, p, sc, seed, idx, base, &best, "crash", msg, &[], thorough, true);
}

fn replay(file: &str) -> i32 {
    install_panic_hook();
    alloc::enforce();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay json");
    let p = prop(v["property"].as_str().unwrap());
    let sc = p.scenarios.iter().position(|s| s.0 == v["scenario"].as_str().unwrap()).expect("scenario");
    let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let thorough = v["thorough"].as_bool().unwrap_or(false);
    let tape = if choices.is_empty() && !v["minimised"].as_bool().unwrap_or(false) {
        Tape::generate(u64::from_str_radix(v["run_seed"].as_str().unwrap(), 16).unwrap())
    } else {
        Tape::replay(choices)
    };
    let o = run_once(p.scenarios[sc].2, tape, thorough);
    for l in &o.sim.trace {
        println!("  {l}");
    }
    println!("faults: {:?}", o.sim.faults);
    match o.result {
        Ok(()) => {
            println!("replay: property {} held", p.id);
            0
        }
        Err(w) => {
            println!("kind={} {}", w.kind, w.msg);
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(String::as_str) {
        Some("worker") => {
            worker(&args[1..]);
            0
        }
        Some("check") => check(&args[1..]),
        Some("replay") => replay(&args[1]),
        Some("tapelog") => {
            install_panic_hook();
            alloc::enforce();
            let p = prop(&args[1]);
            let sc: usize = args[2].parse().unwrap();
            core::log_tape_to(&args[5]);
            let _ = run_once(p.scenarios[sc].2, Tape::generate(args[3].parse().unwrap()), args[4] == "thorough");
            0
        }
        Some("list") => {
            for p in props::ALL {
                println!("{} {:?}", p.id, p.scenarios.iter().map(|s| s.0).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: sidsim check ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
