//! Report of an auxiliary monitor: JSON on a file.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Rep {
    pub events: BTreeMap<String, u64>,
    pub evals: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub viols: Vec<(String, String)>,
    pub samples: Vec<String>,
    pub extra: Value,
    t0: std::time::Instant,
}
impl Rep {
    pub fn new() -> Rep {
        Rep { events: BTreeMap::new(), evals: 0, distinct: Default::default(), viols: vec![], samples: vec![], extra: json!({}), t0: std::time::Instant::now() }
    }
    pub fn ev(&mut self, k: &str) {
        self.evn(k, 1)
    }
    pub fn evn(&mut self, k: &str, n: u64) {
        self.evals += n;
        *self.events.entry(k.into()).or_insert(0) += n;
    }
    pub fn seen(&mut self, k: &str, n: u64) {
        *self.events.entry(k.into()).or_insert(0) += n;
    }
    pub fn fail(&mut self, kind: &str, d: String) {
        if self.viols.len() < 8 {
            eprintln!("violation [{}] {}", kind, d);
            self.viols.push((kind.into(), d));
        }
    }
    pub fn check(&mut self, ok: bool, kind: &str, d: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(kind, d());
        }
        ok
    }
    pub fn finish(self, out: &str) -> ! {
        let v = json!({
            "evaluations": self.evals, "distinct_nontrivial": self.distinct.len(), "events": self.events, "samples": self.samples,
            "rule": "", "blocks": 0, "wall_s": self.t0.elapsed().as_secs_f64(), "extra": self.extra,
            "violations": self.viols.iter().map(|(k, d)| json!({"block": 0, "kind": k, "detail": d})).collect::<Vec<_>>(),
        });
        let s = serde_json::to_string_pretty(&v).unwrap();
        if out == "-" { println!("{}", s) } else { std::fs::write(out, s).expect("report") }
        std::process::exit(if self.viols.is_empty() { 0 } else { 1 })
    }
}
pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
pub fn argn(name: &str, d: u64) -> u64 {
    arg(name).map_or(d, |s| s.parse().expect("number"))
}
