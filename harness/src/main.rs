//! fmc: exhaustive exploration of the executions of Findex. See /verif/DESIGN.md.
mod checks;
mod codec;
mod conc;
mod explore;
mod model;
mod ops;
mod rng;
mod sim;
mod threads;

use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    sync::{Mutex, OnceLock},
    time::{Duration, Instant},
};

use explore::{PhaseResult, PhaseStats, RunCfg, Violation};
use serde_json::{json, Value};

/// Known findings of the property being checked: identifier -> description.
pub static KNOWN: OnceLock<BTreeMap<String, String>> = OnceLock::new();

#[derive(Clone)]
pub struct Args {
    pub cmd: String,
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub phase: Option<String>,
    pub exact: bool,
    pub merge: Option<PathBuf>,
    pub part: Option<PathBuf>,
    pub budget: u64,
    pub workers: usize,
}

fn usage() -> ! {
    eprintln!("usage: fmc check ID [--tier T] [--seed N] [--root DIR] | fmc replay FILE | fmc list");
    std::process::exit(2)
}

fn load_known(root: &Path, property: &str) -> BTreeMap<String, String> {
    let mut res = BTreeMap::new();
    let Ok(text) = std::fs::read_to_string(root.join("known_findings.json")) else {
        return res;
    };
    let v: Value = serde_json::from_str(&text).expect("known_findings.json is not valid");
    for f in v["findings"].as_array().into_iter().flatten() {
        if f["property"] == property {
            res.insert(
                f["id"].as_str().unwrap_or_default().to_string(),
                f["what"].as_str().unwrap_or_default().to_string(),
            );
        }
    }
    res
}

fn main() {
    let mut it = std::env::args().skip(1);
    let mut args = Args {
        cmd: it.next().unwrap_or_else(|| usage()),
        id: String::new(),
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".to_string()),
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        root: PathBuf::from("/verif"),
        phase: None,
        exact: false,
        merge: None,
        part: None,
        budget: 0,
        workers: std::thread::available_parallelism().map_or(4, usize::from),
    };
    while let Some(x) = it.next() {
        let mut val = || it.next().unwrap_or_else(|| usage());
        match x.as_str() {
            "--tier" => args.tier = val(),
            "--seed" => args.seed = val().parse().unwrap_or_else(|_| usage()),
            "--root" => args.root = val().into(),
            "--phase" => args.phase = Some(val()),
            "--exact-phase" => {
                args.phase = Some(val());
                args.exact = true;
            }
            "--merge" => args.merge = Some(val().into()),
            "--part" => args.part = Some(val().into()),
            "--budget" => args.budget = val().parse().unwrap_or_else(|_| usage()),
            "--workers" => args.workers = val().parse().unwrap_or_else(|_| usage()),
            _ if args.id.is_empty() => args.id = x,
            _ => usage(),
        }
    }
    explore::install_panic_hook();
    match args.cmd.as_str() {
        "check" => check(&args),
        "replay" => replay(&args),
        "aborted" => {
            // Evidence of a run that aborted.
            let check = checks::get(&args.id, args.tier == "thorough").unwrap_or_else(|| usage());
            write_evidence(&args, &check, &[], 0.0, 1);
        }
        "list" => {
            for id in checks::IDS {
                println!("{id}");
            }
        }
        _ => usage(),
    }
}

fn stats_json(s: &PhaseStats) -> Value {
    json!({
        "phase": s.name,
        "bounds": s.bounds,
        "executions": s.executions,
        "distinct_states": s.states,
        "transitions": s.transitions,
        "oracle_comparisons": s.validated,
        "evaluations": s.evals,
        "nontrivial": s.nontrivial,
        "distinct_outcomes": s.outcomes,
        "replayed_twice_identically": s.replays,
        "max_choices_per_execution": s.max_choices,
        "bound_fully_explored": s.complete,
        "wall_s": (s.wall_s * 100.0).round() / 100.0,
        "counters": s.counters.iter().map(|(k, v)| ((*k).to_string(), json!(v))).collect::<serde_json::Map<_, _>>(),
        "known_findings_met": s.known.iter().map(|(k, (n, w))| (k.clone(), json!({"times": n, "first": w}))).collect::<serde_json::Map<_, _>>(),
        "samples": s.samples,
    })
}

fn write_replay(args: &Args, id: &str, v: &Violation) -> PathBuf {
    let dir = args.root.join("out/replay");
    std::fs::create_dir_all(&dir).expect("cannot create the replay directory");
    let path = dir.join(format!("{id}-{}.json", v.phase.replace([' ', '/'], "_")));
    let j = json!({
        "property": id,
        "phase": v.phase,
        "tier": args.tier,
        "seed": args.seed,
        "small_batch": cfg!(findex_verif_small_batch),
        "message": v.message,
        "choices": v.choices.iter().map(|(c, n)| json!([c, n])).collect::<Vec<_>>(),
        "execution": v.desc,
        "how_to_replay": "fmc replay FILE (built by /verif/run.sh)",
    });
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("cannot write replay");
    path
}

/// Writes the evidence file of a finished (or stopped) run.
fn write_evidence(
    args: &Args,
    check: &checks::Check,
    phases: &[Value],
    wall: f64,
    violations: u64,
) {
    let sum = |k: &str| -> u64 { phases.iter().map(|p| p[k].as_u64().unwrap_or(0)).sum() };
    let complete = phases
        .iter()
        .all(|p| p["bound_fully_explored"].as_bool().unwrap_or(false));
    let samples = phases
        .iter()
        .flat_map(|p| {
            let name = p["phase"].clone();
            p["samples"]
                .as_array()
                .cloned()
                .unwrap_or_default()
                .into_iter()
                .take(2)
                .map(move |s| json!({"phase": name, "execution": s}))
        })
        .take(24)
        .collect::<Vec<_>>();
    let details = phases
        .iter()
        .map(|p| {
            let mut p = p.clone();
            p.as_object_mut().unwrap().remove("samples");
            p
        })
        .collect::<Vec<_>>();
    let mut coverage = json!({
        "executions": sum("executions"),
        "samples": samples,
        "phases": details,
        "exhaustive": complete && violations == 0,
        "rule": check.rule,
    });
    let c = coverage.as_object_mut().unwrap();
    if check.level == "model_checking" {
        c.insert("states".into(), json!(sum("distinct_states")));
        c.insert("transitions".into(), json!(sum("transitions")));
        c.insert(
            "traces_validated_against_impl".into(),
            json!(sum("oracle_comparisons")),
        );
    } else {
        c.insert("evaluations".into(), json!(sum("evaluations")));
        c.insert("distinct_nontrivial".into(), json!(sum("nontrivial")));
        c.insert("distinct_states".into(), json!(sum("distinct_states")));
    }
    let j = json!({
        "property": check.id,
        "tier": args.tier,
        "seed": args.seed,
        "level": check.level,
        "coverage": coverage,
        "assumptions": check.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = args.root.join("evidence");
    std::fs::create_dir_all(&dir).expect("cannot create the evidence directory");
    std::fs::write(
        dir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&j).unwrap(),
    )
    .expect("cannot write the evidence");
}

fn check(args: &Args) {
    let t0 = Instant::now();
    let thorough = args.tier == "thorough";
    let check = checks::get(&args.id, thorough).unwrap_or_else(|| usage());
    let _ = KNOWN.set(load_known(&args.root, check.id));
    let budget = Duration::from_secs(if args.budget > 0 {
        args.budget
    } else if thorough {
        100_000
    } else {
        600
    });
    let out = args.root.join("out");
    std::fs::create_dir_all(&out).expect("cannot create the output directory");
    let phase_file = out.join(format!("{}.phase", check.id));
    if std::env::var_os("FMC_JOURNAL").is_some() {
        let args = args.clone();
        let id = check.id;
        let _ = explore::JOURNAL.set(Box::new(move |phase, prefix| {
            write_replay(
                &args,
                id,
                &Violation {
                    phase: phase.name.clone(),
                    message: "the process aborts (stack overflow or double panic)".to_string(),
                    choices: prefix.clone(),
                    desc: Vec::new(),
                },
            );
        }));
    }
    let done: Mutex<Vec<Value>> = Mutex::default();
    if let Some(p) = &args.merge {
        if let Ok(text) = std::fs::read_to_string(p) {
            let v: Value = serde_json::from_str(&text).expect("invalid partial evidence");
            done.lock()
                .unwrap()
                .extend(v.as_array().cloned().unwrap_or_default());
        }
    }
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for phase in &check.phases {
        if let Some(f) = &args.phase {
            if !phase.name.contains(f.as_str()) || (args.exact && phase.name != *f) {
                continue;
            }
        } else if phase.name.starts_with("batch:") != cfg!(findex_verif_small_batch) {
            // The phases about batches need the build with small batches, the others the normal one.
            continue;
        }
        let _ = std::fs::write(&phase_file, &phase.name);
        let cfg = RunCfg {
            seed: args.seed,
            thorough,
            workers: args.workers,
            budget,
        };
        let on_hang = |v: Violation| {
            let path = write_replay(args, check.id, &v);
            write_evidence(args, &check, &done.lock().unwrap(), t0.elapsed().as_secs_f64(), 1);
            println!("{}: {}", v.phase, v.message);
            println!("VIOLATION property={} replay={}", check.id, path.display());
            std::process::exit(1);
        };
        match explore::run_phase(phase, &cfg, &on_hang) {
            PhaseResult::Done(s) => {
                println!(
                    "{} {}: {} executions, {} states, {} transitions, {} comparisons, {} outcomes, {:.1} s{}",
                    check.id,
                    s.name,
                    s.executions,
                    s.states,
                    s.transitions,
                    s.validated,
                    s.outcomes,
                    s.wall_s,
                    if s.complete { "" } else { " (TIME BUDGET HIT: incomplete)" }
                );
                for (id, (n, _)) in &s.known {
                    *known.entry(id.clone()).or_default() += n;
                }
                done.lock().unwrap().push(stats_json(&s));
            }
            PhaseResult::Violated(s, v) => {
                done.lock().unwrap().push(stats_json(&s));
                let path = write_replay(args, check.id, &v);
                write_evidence(args, &check, &done.lock().unwrap(), t0.elapsed().as_secs_f64(), 1);
                println!("phase {}: {}", v.phase, v.message);
                for l in &v.desc {
                    println!("    {l}");
                }
                println!("VIOLATION property={} replay={}", check.id, path.display());
                std::process::exit(1);
            }
            PhaseResult::Error(e) => {
                eprintln!("ERROR: {e}");
                std::process::exit(2);
            }
        }
    }
    for p in done.lock().unwrap().iter() {
        // Findings met by the merged phases.
        for (id, v) in p["known_findings_met"].as_object().into_iter().flatten() {
            known.entry(id.clone()).or_insert(v["times"].as_u64().unwrap_or(1));
        }
    }
    for (id, n) in &known {
        println!(
            "KNOWN-FINDING: property={} {id} {} ({n} executions)",
            check.id,
            KNOWN.get().unwrap().get(id).cloned().unwrap_or_default()
        );
    }
    if let Some(p) = &args.part {
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).expect("cannot create the output directory");
        }
        std::fs::write(p, serde_json::to_string(&*done.lock().unwrap()).unwrap())
            .expect("cannot write partial evidence");
        return;
    }
    let done = done.into_inner().unwrap();
    write_evidence(args, &check, &done, t0.elapsed().as_secs_f64(), 0);
    println!("{}: held on everything explored ({:.1} s)", check.id, t0.elapsed().as_secs_f64());
}

fn replay(args: &Args) {
    let text = std::fs::read_to_string(&args.id).expect("cannot read the replay file");
    let v: Value = serde_json::from_str(&text).expect("invalid replay file");
    let id = v["property"].as_str().unwrap();
    let thorough = v["tier"] == "thorough";
    if v["small_batch"].as_bool().unwrap_or(false) != cfg!(findex_verif_small_batch) {
        eprintln!("this replay needs the other build (small batches)");
        std::process::exit(2);
    }
    let check = checks::get(id, thorough).expect("unknown property");
    let _ = KNOWN.set(load_known(&args.root, check.id));
    let phase = check
        .phases
        .iter()
        .find(|p| v["phase"] == p.name)
        .expect("unknown phase");
    let choices = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| (c[0].as_u64().unwrap() as u32, c[1].as_u64().unwrap() as u32))
        .collect();
    let (res, exec) = explore::replay(phase, v["seed"].as_u64().unwrap(), thorough, choices);
    for l in &exec.desc {
        println!("{l}");
    }
    match res {
        explore::RunResult::Ok => println!("no violation"),
        explore::RunResult::Violation(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={}", args.id);
            std::process::exit(1);
        }
        explore::RunResult::Diverged(m) => {
            println!("the execution diverged: {m}");
            std::process::exit(2);
        }
    }
}
