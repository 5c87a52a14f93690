//! Model checker for cernan: `mc check ID`, `mc replay FILE`, `mc list`.
#[macro_use]
extern crate lazy_static;
#[macro_use]
extern crate serde_json;

#[macro_use]
mod engine;
mod props;
#[allow(dead_code)]
mod sched;

use engine::*;
use std::fs;
use std::time::{Duration, Instant};

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn load_known(id: &str) -> (Vec<Known>, Vec<String>) {
    let mut known = Vec::new();
    let mut fixed = Vec::new();
    let text = fs::read_to_string(format!("{}/known_findings.jsonl", verif_dir()))
        .unwrap_or_default();
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if line.starts_with("fixed:") {
            fixed.push(line.to_string());
            continue;
        }
        let v: serde_json::Value = serde_json::from_str(line).expect("known_findings.jsonl");
        if v["property"] == id {
            known.push(Known {
                property: id.to_string(),
                class: v["class"].as_str().unwrap().to_string(),
                scenario: v["scenario"].as_str().unwrap().to_string(),
                text: regex::Regex::new(&format!("(?s)^(?:{})$", v["text"].as_str().unwrap()))
                    .unwrap(),
                what: v["what"].as_str().unwrap().to_string(),
            });
        }
    }
    (known, fixed)
}

fn scratch() -> String {
    let base = if fs::metadata("/dev/shm").is_ok() { "/dev/shm" } else { "/tmp" };
    let d = format!("{}/cernan-mc-{}", base, std::process::id());
    fs::create_dir_all(&d).unwrap();
    std::env::set_var("MC_SCRATCH", &d);
    d
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_ref().map(|s| s.as_str()) {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let prop = props::find(id).unwrap_or_else(|| panic!("no property {}", id));
    let tier = tier();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = Duration::from_secs(
        std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
            Tier::Quick => 240,
            Tier::Thorough => 3600,
        }),
    );
    let workers: u64 =
        std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let (known, _) = load_known(id);
    let dir = scratch();
    let st = explore(&prop, &known, tier, workers, budget, &dir);
    let mut exit = 0;
    let mut violations = 0;
    let mut unconfirmed = Vec::new();
    let mut engine_errors = Vec::new();
    let rdir = format!("{}/evidence/replays", verif_dir());
    fs::create_dir_all(&rdir).unwrap();
    let mut classes: Vec<(String, String)> = Vec::new();
    for f in &st.found {
        if f.engine {
            engine_errors.push(format!("{} {:?}: {}", f.scenario, f.choices, f.text));
            continue;
        }
        if known.iter().any(|k| k.matches(&f.scenario, &f.class, &f.text)) {
            continue;
        }
        let key = (f.scenario.clone(), f.class.clone());
        if classes.iter().filter(|c| **c == key).count() >= 2 || violations >= 10 {
            continue;
        }
        // an execution only counts if it fails again, alone, in a new process
        let mut again = None;
        for _ in 0..3 {
            again = replay(&prop, tier, &f.scenario, &f.choices, &dir, false);
            if again.is_some() {
                break;
            }
        }
        match again {
            Some(ref g) if !g.engine => {
                if known.iter().any(|k| k.matches(&f.scenario, &g.class, &g.text)) {
                    unconfirmed.push(format!("{} {:?}: {} {} / {}", f.scenario, f.choices, f.class, f.text, g.text));
                    continue;
                }
                classes.push(key);
                violations += 1;
                let path = format!("{}/{}-{}.json", rdir, id, violations);
                fs::write(
                    &path,
                    json!({"property": id, "tier": format!("{:?}", tier), "scenario": f.scenario,
                           "choices": f.choices, "class": g.class, "text": g.text})
                    .to_string(),
                )
                .unwrap();
                println!("  [{}] {}: {}", f.scenario, g.class, clip(&g.text));
                println!("VIOLATION property={} replay={}", id, path);
                exit = 1;
            }
            _ => unconfirmed.push(format!("{} {:?}: {} {}", f.scenario, f.choices, f.class, f.text)),
        }
    }
    for (i, k) in known.iter().enumerate() {
        // a finding that the bounded exploration of this tier reaches
        if st.known_hits[i] > 0 {
            println!("KNOWN-FINDING: property={} {}", id, k.what);
        }
    }
    let coverage = json!({
        "states": st.states,
        "transitions": st.transitions,
        "traces_validated_against_impl": st.leaves,
        "samples": st.samples,
        "rule": prop.rule,
        "exhaustive": st.exhausted,
        "executions_per_scenario": st.per_scenario.iter()
            .map(|(a, b)| json!({"scenario": a, "executions": b})).collect::<Vec<_>>(),
        "max_decisions_in_one_execution": st.max_depth,
        "pruned": st.pruned,
        "states_counted_exactly": !st.states_dropped,
        "known_findings_hit": known.iter().enumerate()
            .map(|(i, k)| json!({"what": k.what, "executions": st.known_hits[i]})).collect::<Vec<_>>(),
        "unconfirmed": unconfirmed,
    });
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": prop.level,
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
        "violations": violations,
    });
    fs::create_dir_all(format!("{}/evidence", verif_dir())).unwrap();
    fs::write(
        format!("{}/evidence/{}.json", verif_dir(), id),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{}: {} executions, {} states, {} transitions, exhaustive={}, {:.1}s{}",
        id,
        st.leaves,
        st.states,
        st.transitions,
        st.exhausted,
        t0.elapsed().as_millis() as f64 / 1000.0,
        if unconfirmed.is_empty() {
            String::new()
        } else {
            format!(", {} unconfirmed", unconfirmed.len())
        }
    );
    for u in unconfirmed.iter().take(3) {
        println!("  unconfirmed: {}", u);
    }
    for e in engine_errors.iter().take(5) {
        println!("  engine: {}", e);
    }
    let _ = fs::remove_dir_all(&dir);
    if exit == 0 && !engine_errors.is_empty() {
        exit = 2;
    }
    exit
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&fs::read_to_string(&args[2]).unwrap()).unwrap();
            let prop = props::find(v["property"].as_str().unwrap()).unwrap();
            let tier = if v["tier"] == "Thorough" { Tier::Thorough } else { Tier::Quick };
            let choices: Vec<u16> =
                v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u16).collect();
            let dir = scratch();
            let r = replay(&prop, tier, v["scenario"].as_str().unwrap(), &choices, &dir, true);
            let _ = fs::remove_dir_all(&dir);
            match r {
                Some(f) => {
                    println!("[{}] {}: {}", f.scenario, f.class, f.text);
                    println!("VIOLATION property={} replay={}", prop.id, args[2]);
                    1
                }
                None => {
                    println!("the property holds on this execution");
                    0
                }
            }
        }
        _ => {
            eprintln!("usage: mc check ID | mc replay FILE | mc list");
            2
        }
    };
    std::process::exit(code);
}

fn clip(s: &str) -> String {
    if s.len() <= 2400 {
        return s.to_string();
    }
    let head: String = s.chars().take(1600).collect();
    let tail: String = s.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
    format!("{} [...] {}", head, tail)
}
