#![allow(clippy::all)]
mod gen;
mod lib_api;
mod model;
mod mon;
mod props;
mod rng;
mod selfcheck;
mod u256;

use mon::*;
use serde_json::{json, Value};

fn arg(a: &[String], name: &str) -> Option<String> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

fn outcome_json(p: &Prop, cfg: &RunCfg, o: &Outcome, wall: f64) -> Value {
    json!({
        "property": p.id, "profile": profile(), "seed": cfg.seed,
        "tier": if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        "evaluations": o.evals, "blocks": o.blocks, "distinct_nontrivial": o.distinct.len(),
        "events": o.events, "samples": o.samples, "rule": p.rule, "wall_s": wall,
        "violations": o.viols.iter().map(|v| json!({"block": v.block, "kind": v.kind, "detail": v.detail})).collect::<Vec<_>>(),
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_hook();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let p = props::find(&a[2]).unwrap_or_else(|| {
                eprintln!("HARNESS-ERROR unknown property {}", a[2]);
                std::process::exit(2)
            });
            let tier = if arg(&a, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let nb = if tier == Tier::Quick { p.blocks.0 } else { p.blocks.1 };
            let cfg = RunCfg {
                seed: arg(&a, "--seed").map_or(1, |s| s.parse().unwrap()),
                tier,
                first: arg(&a, "--first").map_or(0, |s| s.parse().unwrap()),
                count: arg(&a, "--count").map_or(nb, |s| s.parse().unwrap()),
                stride: arg(&a, "--stride").map_or(1, |s| s.parse().unwrap()),
                max_secs: arg(&a, "--max-secs").map_or(600, |s| s.parse().unwrap()),
                track: arg(&a, "--track"),
                hang_cpu_ms: 60_000,
            };
            selfcheck::run(cfg.seed);
            let outp = arg(&a, "--out");
            let t0 = std::time::Instant::now();
            let write = |v: &Value| {
                let s = serde_json::to_string_pretty(v).unwrap();
                match &outp {
                    Some(f) => std::fs::write(f, s).unwrap(),
                    None => println!("{}", s),
                }
            };
            let p = &p;
            let o = run(p, &cfg, &|b, o| {
                let mut v = outcome_json(p, &cfg, o, t0.elapsed().as_secs_f64());
                v["violations"].as_array_mut().unwrap().push(json!({"block": b, "kind": "nontermination",
                    "detail": "an operation did not terminate within 60 s of CPU time"}));
                write(&v);
                std::process::exit(1);
            });
            write(&outcome_json(p, &cfg, &o, t0.elapsed().as_secs_f64()));
            for v in &o.viols {
                eprintln!("violation {} block {} [{}] {}", p.id, v.block, v.kind, v.detail);
            }
            std::process::exit(if o.viols.is_empty() { 0 } else { 1 });
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {} {} {}", p.id, p.blocks.0, p.blocks.1, p.fixed);
            }
        }
        _ => {
            eprintln!("usage: harness run ID [--seed N] [--tier quick|thorough] [--first B --count N] [--out F] [--track F]");
            std::process::exit(2);
        }
    }
}
