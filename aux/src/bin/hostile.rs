//! C18: hostile workload chaining all entry points; prints one transcript hash per chunk.
//! Generates its inputs without the reference model, so that it is cheap under interpreters.
#![allow(dead_code)]
#[path = "../rep.rs"]
mod rep;
#[path = "../../../harness/src/rng.rs"]
mod rng;
#[path = "../work.rs"]
mod work;
use rep::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

fn main() {
    let seed = argn("--seed", 1);
    let first = argn("--first", 0);
    let chunks = argn("--chunks", 8);
    let steps = argn("--steps", 200);
    let threads = argn("--threads", 8);
    let light = argn("--light", 0) == 1;
    let max = argn("--max-secs", 600);
    let out = arg("--out").unwrap_or("-".into());
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let s = format!("{} at {}", m, i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
        let _ = LAST.try_with(|l| *l.borrow_mut() = s);
    }));
    if let Some(c) = arg("--dump") {
        let mut w = work::World::new(seed, c.parse().unwrap(), light);
        w.dump = true;
        let _ = catch_unwind(AssertUnwindSafe(|| w.run(steps)));
        for l in &w.lines {
            println!("{}", l);
        }
        std::process::exit(0);
    }
    let rep = Mutex::new(Rep::new());
    let hashes = Mutex::new(vec![]);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let t0 = std::time::Instant::now();
    let begun: Vec<AtomicU64> = (0..64).map(|_| AtomicU64::new(0)).collect();
    let hang = argn("--hang-secs", 120);
    let quit = AtomicBool::new(false);
    let one = |slot: usize| loop {
        let i = next.fetch_add(1, SeqCst);
        if i >= chunks || stop.load(SeqCst) || t0.elapsed().as_secs() > max {
            break;
        }
        let c = first + i;
        let mut w = work::World::new(seed, c, light);
        begun[slot].store(t0.elapsed().as_secs() * (1 << 32) + c + (1 << 31), SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| w.run(steps)));
        begun[slot].store(0, SeqCst);
        let mut rep = rep.lock().unwrap();
        for (k, v) in &w.events {
            rep.evn(k, *v);
        }
        rep.distinct.extend(w.distinct.iter().cloned());
        if let Err(_) = r {
            let m = LAST.with(|l| l.borrow().clone());
            rep.fail("panic", format!("chunk {} step {} ({}): {}", c, w.step, w.cur, m));
        }
        for f in &w.fails {
            rep.fail("result", format!("chunk {}: {}", c, f));
        }
        hashes.lock().unwrap().push((c, format!("{:016x}", w.h)));
    };
    let watch = || {
        while !quit.load(SeqCst) {
            std::thread::sleep(std::time::Duration::from_millis(50));
            for b in &begun {
                let v = b.load(SeqCst);
                if v != 0 && t0.elapsed().as_secs() > (v >> 32) + hang {
                    let mut r = Rep::new();
                    r.fail("nontermination", format!("chunk {} still running after {} s", (v & 0x7fff_ffff), hang));
                    r.extra = serde_json::json!({ "transcript": [] });
                    r.finish(&out);
                }
            }
        }
    };
    if threads <= 1 {
        one(0);
    } else {
        std::thread::scope(|s| {
            s.spawn(watch);
            let one = &one;
            let hs: Vec<_> = (0..threads).map(|t| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || one(t as usize)).unwrap()).collect();
            let bad = hs.into_iter().map(|h| h.join()).filter(|r| r.is_err()).count();
            quit.store(true, SeqCst);
            assert!(bad == 0, "worker");
        });
    }
    let mut rep = rep.into_inner().unwrap();
    let mut h = hashes.into_inner().unwrap();
    h.sort();
    rep.extra = serde_json::json!({ "transcript": h });
    rep.samples.push(format!("chunk {} transcript {}", h[0].0, h[0].1));
    rep.finish(&out);
}
