#![allow(dead_code)]
mod attack;
mod cy;
mod gen;
mod hist;
mod math;
#[cfg(not(feature = "names"))]
pub mod mirror;
mod model;
mod nofree;
mod ops;
mod props;
#[cfg(feature = "pure")]
mod pure;
#[cfg(not(feature = "pure"))]
#[path = "pure_absent.rs"]
mod pure;
mod runner;
mod svm;
mod world;

use runner::*;
use serde_json::{json, Value};
use std::process::{Command, Stdio};
use std::sync::{atomic::AtomicBool, Arc};
use std::time::{Duration, Instant};

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("worker") => worker(&args),
        Some("replay") => replay(&args),
        Some("survey") => survey(&args),
        _ => {
            eprintln!("usage: cyverif check ID [--tier quick|thorough] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

fn root() -> String {
    std::env::var("CYVERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// Runs the worker with its standard output discarded: the program under test prints a lot.
fn check(args: &[String]) -> i32 {
    let id = args.get(1).and_then(|s| props::id_static(s)).expect("unknown property");
    let tier = arg(args, "--tier").unwrap_or_else(|| "quick".into());
    let dir = format!("{}/.work", root());
    std::fs::create_dir_all(&dir).unwrap();
    let result = format!("{}/{}-{}-{}.json", dir, id, tier, std::process::id());
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, "--tier", &tier, "--result", &result])
        .stdout(Stdio::null())
        .status()
        .expect("worker");
    let text = std::fs::read_to_string(&result);
    let _ = std::fs::remove_file(&result);
    let Ok(text) = text else {
        eprintln!("worker for {} ended with {:?} and no result", id, st.code());
        return 3;
    };
    let v: Value = serde_json::from_str(&text).unwrap();
    finish(id, &tier, v)
}

fn finish(id: &str, tier: &str, v: Value) -> i32 {
    let mut code = 0;
    let mut violations = vec![];
    let known = known_findings(id);
    for f in v["failures"].as_array().unwrap() {
        let msg = f["msg"].as_str().unwrap().to_string();
        if let Some(k) = known.iter().find(|k| msg.contains(k.as_str())) {
            println!("KNOWN-FINDING: property={} {}", id, k);
            continue;
        }
        let dir = format!("{}/replays", root());
        std::fs::create_dir_all(&dir).unwrap();
        let path = format!("{}/{}-{}.json", dir, id, violations.len());
        std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({"property": id, "part": f["part"], "message": msg, "case": f["case"]})).unwrap(),
        )
        .unwrap();
        println!("VIOLATION property={} replay={}", id, path);
        println!("  {}", msg);
        violations.push(json!({"replay": path, "message": msg}));
        code = 1;
    }
    let mut ev = v["evidence"].clone();
    ev["violations"] = json!(violations.len());
    ev["coverage"]["violation_details"] = json!(violations);
    let dir = format!("{}/evidence", root());
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(format!("{}/{}.json", dir, id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let c = &ev["coverage"];
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {:.1} s, {}",
        id,
        tier,
        c["evaluations"],
        c["distinct_nontrivial"],
        ev["wall_s"].as_f64().unwrap_or(0.0),
        if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}

fn known_findings(id: &str) -> Vec<String> {
    let path = format!("{}/known-findings.txt", root());
    let head = format!("finding: property={} ", id);
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&head).map(|s| s.to_string()))
        .collect()
}

fn worker(args: &[String]) -> i32 {
    let id = props::id_static(&args[1]).unwrap();
    let tier = if arg(args, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let result = arg(args, "--result").unwrap();
    svm::init();
    let start = Instant::now();
    let cx = Ctx {
        id,
        tier,
        seed: seed(),
        start,
        guard: Duration::from_secs(if tier == Tier::Quick { 240 } else { 700 }),
        stop: Arc::new(AtomicBool::new(false)),
    };
    let c = props::run(&cx);
    let mut fails: Vec<Value> = vec![];
    for f in &c.failures {
        // several shards may find the same thing: keep the first of each message class
        if fails.len() < 4 {
            fails.push(json!({"part": f.part, "case": f.case, "msg": f.msg}));
        }
    }
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": cx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": c.evaluations,
            "distinct_nontrivial": c.hashes.len(),
            "rule": format!("{}; non-trivial: {}", props::made(id), props::rule(id)),
            "samples": c.samples,
            "classes": c.stats,
            "parts": c.parts,
            "exhaustive": false,
            "enumerated_completely": c.exhaustive,
            "stopped_early_by_time": c.guard_hit,
        },
        "wall_s": start.elapsed().as_secs_f64(),
        "assumptions": [
            "the harness' in-process runtime enforces the rules of the Solana runtime that the program relies on (signers, writability, ownership, atomicity, no re-entrancy)",
            "token, associated token account and metadata programs are the real ones, compiled natively"
        ],
        "violations": 0
    });
    std::fs::write(&result, json!({"failures": fails, "evidence": ev}).to_string()).unwrap();
    0
}

fn replay(args: &[String]) -> i32 {
    svm::init();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let id = props::id_static(v["property"].as_str().unwrap()).unwrap();
    match props::replay(id, v["part"].as_str().unwrap(), &v["case"]) {
        Some(m) => {
            eprintln!("VIOLATION property={} replay={}\n  {}", id, args[1], m);
            1
        }
        None => {
            eprintln!("{} held on this case", id);
            0
        }
    }
}

/// Development aid: which findings (of any property) occur in random histories.
fn survey(args: &[String]) -> i32 {
    use proptest::strategy::{Strategy, ValueTree};
    svm::init();
    let id = props::id_static(&args[1]).unwrap();
    let n: u64 = args[2].parse().unwrap();
    let p = props::profile(id).unwrap();
    let strat = gen::case_strategy(&p);
    let mut seen: std::collections::BTreeMap<String, (u64, String)> = Default::default();
    let mut stats: std::collections::BTreeMap<String, u64> = Default::default();
    let t0 = Instant::now();
    for i in 0..n {
        let rng = proptest::test_runner::TestRng::from_seed(
            proptest::test_runner::RngAlgorithm::ChaCha,
            &runner::seed_bytes(seed(), id, "survey", i),
        );
        let mut r = proptest::test_runner::TestRunner::new_with_rng(Default::default(), rng);
        let case = strat.new_tree(&mut r).unwrap().current();
        let mut w = world::World::new(&case.cfg);
        for op in &case.ops {
            w.apply(op);
        }
        if p.drain {
            w.drain(1);
        }
        for (k, v) in &w.stats {
            *stats.entry(k.clone()).or_default() += v;
        }
        for f in &w.findings {
            let words: String = f.msg.split(' ').filter(|w| w.len() < 26).collect::<Vec<_>>().join(" ");
            let words: String = words.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
            let e = seen.entry(format!("{} {}", f.tag, words)).or_insert((0, format!("case {}: {}", i, f.msg)));
            e.0 += 1;
        }
    }
    eprintln!("{} cases in {:.1} s", n, t0.elapsed().as_secs_f64());
    eprintln!("{:#?}", stats);
    for (k, v) in seen {
        eprintln!("[{}] {} e.g. {}", v.0, k, v.1);
    }
    0
}
