//! Monitor context and runner: deterministic blocks over worker threads, event counting,
//! violation records, panic attribution, CPU-time watchdog.
use crate::rng::{hash_bytes, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub block: u64,
    pub kind: String,
    pub detail: String,
}

pub struct Cx {
    pub rng: Rng,
    pub block: u64,
    pub tier: Tier,
    pub seed: u64,
    pub evals: u64,
    pub events: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
}

pub struct Abort;

impl Cx {
    pub fn new(prop: &str, seed: u64, tier: Tier, block: u64) -> Cx {
        Cx {
            rng: Rng::new(seed, prop, block),
            block,
            tier,
            seed,
            evals: 0,
            events: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            viols: vec![],
        }
    }
    /// one judged observation of the given kind
    pub fn ev(&mut self, kind: &'static str) {
        self.evals += 1;
        *self.events.entry(kind).or_insert(0) += 1;
    }
    /// count something observed that is not itself a judged case
    pub fn seen(&mut self, kind: &'static str) {
        *self.events.entry(kind).or_insert(0) += 1;
    }
    /// record a distinct non-trivial case (by content)
    pub fn nt(&mut self, parts: &[&[u8]]) {
        let mut h = 0u64;
        for p in parts {
            h = h.rotate_left(17).wrapping_mul(0x9E3779B97F4A7C15) ^ hash_bytes(p);
        }
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.is_empty() {
            self.samples.push(f());
        }
    }
    pub fn fail(&mut self, kind: &str, detail: String) {
        if self.viols.len() < 4 {
            self.viols.push(Viol { block: self.block, kind: kind.to_string(), detail });
        }
    }
    pub fn check(&mut self, ok: bool, kind: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(kind, detail());
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T, kind: &str, ctx: impl FnOnce() -> String) -> bool {
        if got != want {
            let d = format!("got {:?} want {:?}; {}", Hx(&got), Hx(&want), ctx());
            self.fail(kind, d);
            return false;
        }
        true
    }
    /// library result that has to be a value; otherwise a violation, and the block ends
    pub fn must<T, E: std::fmt::Debug>(&mut self, r: Result<T, E>, kind: &str, ctx: impl FnOnce() -> String) -> T {
        match r {
            Ok(v) => v,
            Err(e) => {
                self.fail(kind, format!("unexpected error {:?}; {}", e, ctx()));
                self.abort()
            }
        }
    }
    pub fn abort(&mut self) -> ! {
        resume_unwind(Box::new(Abort))
    }
}
struct Hx<'a, T>(&'a T);
impl<'a, T: std::fmt::Debug> std::fmt::Debug for Hx<'a, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:02x?}", self.0)
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn last_panic() -> Option<(String, String)> {
    LAST_PANIC.with(|c| c.borrow_mut().take())
}
/// run f, returning Err(location, message) if code under test panicked; a panic raised in the
/// harness' own sources is re-raised as a harness error
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.downcast_ref::<Abort>().is_some() {
                resume_unwind(p);
            }
            let (loc, msg) = last_panic().unwrap_or_default();
            if in_harness(&loc) {
                eprintln!("HARNESS-ERROR panic at {}: {}", loc, msg);
                std::process::exit(2);
            }
            Err((loc, msg))
        }
    }
}
pub fn in_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/verif/")
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// (quick, thorough) number of blocks
    pub blocks: (u64, u64),
    pub block: fn(&mut Cx),
    /// number of leading blocks that are enumerations (always run, in every profile)
    pub fixed: u64,
    pub threads: usize,
}

#[derive(Default)]
pub struct Outcome {
    pub evals: u64,
    pub blocks: u64,
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
}

fn run_block(p: &Prop, seed: u64, tier: Tier, block: u64) -> Cx {
    let mut cx = Cx::new(p.id, seed, tier, block);
    let r = catch_unwind(AssertUnwindSafe(|| (p.block)(&mut cx)));
    if let Err(e) = r {
        if e.downcast_ref::<Abort>().is_none() {
            let (loc, msg) = last_panic().unwrap_or_default();
            if in_harness(&loc) {
                eprintln!("HARNESS-ERROR property={} block={} panic at {}: {}", p.id, block, loc, msg);
                std::process::exit(2);
            }
            cx.fail("panic", format!("code under test panicked at {}: {}", loc, msg));
        }
    }
    cx
}

const MAXW: usize = 64;
struct Slot {
    start_cpu: AtomicU64,
    block: AtomicU64, // block + 1, 0 when idle
    clock: AtomicU64,
}
fn cpu_ms(clock: u64) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        if libc::clock_gettime(clock as i64 as libc::clockid_t, &mut ts) != 0 {
            return 0;
        }
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub struct RunCfg {
    pub seed: u64,
    pub tier: Tier,
    pub first: u64,
    pub count: u64,
    pub stride: u64,
    pub max_secs: u64,
    pub track: Option<String>,
    pub hang_cpu_ms: u64,
}

pub fn run(p: &Prop, cfg: &RunCfg, on_hang: &(dyn Fn(u64, &Outcome) + Sync)) -> Outcome {
    let next = AtomicU64::new(0);
    let done = AtomicBool::new(false);
    let out = Mutex::new(Outcome::default());
    let slots: Vec<Slot> = (0..MAXW)
        .map(|_| Slot { start_cpu: AtomicU64::new(0), block: AtomicU64::new(0), clock: AtomicU64::new(0) })
        .collect();
    let track: *mut u64 = match &cfg.track {
        Some(f) => unsafe {
            use std::os::unix::io::AsRawFd;
            let fl = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(f).expect("track file");
            fl.set_len(8 * MAXW as u64).expect("track size");
            let m = libc::mmap(std::ptr::null_mut(), 8 * MAXW, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fl.as_raw_fd(), 0);
            if m == libc::MAP_FAILED { std::ptr::null_mut() } else { m as *mut u64 }
        },
        None => std::ptr::null_mut(),
    };
    let track = track as usize;
    let t0 = Instant::now();
    let alive = AtomicU64::new(p.threads as u64);
    std::thread::scope(|s| {
        for w in 0..p.threads {
            let (next, done, out, slots, alive) = (&next, &done, &out, &slots, &alive);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let mut clk: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) };
                    slots[w].clock.store(clk as i64 as u64, SeqCst);
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= cfg.count || done.load(SeqCst) || t0.elapsed() > Duration::from_secs(cfg.max_secs) {
                            break;
                        }
                        let b = cfg.first + i * cfg.stride;
                        if track != 0 {
                            unsafe { std::ptr::write_volatile((track as *mut u64).add(w), b + 1) };
                        }
                        slots[w].start_cpu.store(cpu_ms(slots[w].clock.load(SeqCst)), SeqCst);
                        slots[w].block.store(b + 1, SeqCst);
                        let cx = run_block(p, cfg.seed, cfg.tier, b);
                        slots[w].block.store(0, SeqCst);
                        if track != 0 {
                            unsafe { std::ptr::write_volatile((track as *mut u64).add(w), 0) };
                        }
                        let mut o = out.lock().unwrap();
                        o.evals += cx.evals;
                        o.blocks += 1;
                        for (k, v) in cx.events {
                            *o.events.entry(k.to_string()).or_insert(0) += v;
                        }
                        if o.distinct.len() < 3_000_000 {
                            o.distinct.extend(cx.distinct);
                        }
                        if o.samples.len() < 6 {
                            o.samples.extend(cx.samples);
                        }
                        if !cx.viols.is_empty() {
                            o.viols.extend(cx.viols);
                            if o.viols.len() > 8 {
                                done.store(true, SeqCst);
                            }
                        }
                    }
                    alive.fetch_sub(1, SeqCst);
                })
                .expect("spawn");
        }
        let (slots, out, alive) = (&slots, &out, &alive);
        s.spawn(move || {
            let mut n = 0u32;
            while alive.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                n += 1;
                if n % 50 != 0 {
                    continue;
                }
                for sl in slots.iter() {
                    let b = sl.block.load(SeqCst);
                    if b == 0 {
                        continue;
                    }
                    let used = cpu_ms(sl.clock.load(SeqCst)).saturating_sub(sl.start_cpu.load(SeqCst));
                    if used > cfg.hang_cpu_ms && sl.block.load(SeqCst) == b {
                        let o = out.lock().unwrap();
                        on_hang(b - 1, &o);
                    }
                }
            }
        });
    });
    out.into_inner().unwrap()
}
