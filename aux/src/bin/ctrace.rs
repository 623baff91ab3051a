//! C22: runs `ct` under a memory tracer (valgrind lackey) and compares what every secret made the processor do.
#![allow(dead_code)]
#[path = "../rep.rs"]
mod rep;
use rep::*;
use serde_json::json;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::io::FromRawFd;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};

#[derive(Default)]
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31) + *x as u64 } }
    fn write_u64(&mut self, v: u64) { let x = v.wrapping_mul(0x9E3779B97F4A7C15); self.0 = x ^ (x >> 29) }
}
type Map = HashMap<u64, u64, BuildHasherDefault<H>>;
#[derive(Default, Clone)]
struct Obs {
    instrs: u64,
    accesses: u64,
    code: Map,
    data: Map,
    table: Map,
}
fn l1(a: &Map, b: &Map) -> u64 {
    let mut d = 0;
    for (k, v) in a { d += v.abs_diff(*b.get(k).unwrap_or(&0)) }
    for (k, v) in b { if !a.contains_key(k) { d += v } }
    d
}
fn main() {
    let ct = arg("--ct").expect("--ct");
    let op = arg("--op").expect("--op");
    let mut rep = Rep::new();
    let out = arg("--out").unwrap_or("-".into());
    // signing may differ by the final negation of s (135 instructions on the unchanged tree); deriving and
    // ECDH do not differ at all there, the room is for branches of an instruction or two per digit
    let signs = op == "sign" || op == "nonce" || arg("--control").is_some();
    let tol_work = argn("--tol-work", if signs { 320 } else { 120 });
    let tol_code = argn("--tol-code", if signs { 400 } else { 200 });
    let tol_data = argn("--tol-data", if signs { 250 } else { 160 });
    let mut fds = [0i32; 2];
    unsafe { assert!(libc::pipe(fds.as_mut_ptr()) == 0) };
    let wfd = fds[1];
    let mut cmd = Command::new("valgrind");
    cmd.args(["-q", "--tool=lackey", "--trace-mem=yes", "--basic-counts=no"]).arg(format!("--log-fd={}", 9)).arg(&ct).args(["--op", &op]);
    for a in ["--seed", "--shard", "--shards", "--n"] {
        if let Some(v) = arg(a) { cmd.args([a, &v]); }
    }
    cmd.env_clear().env("PATH", "/usr/bin:/bin").stdin(Stdio::piped()).stdout(Stdio::piped());
    let rfd = fds[0];
    unsafe {
        cmd.pre_exec(move || {
            libc::close(rfd);
            if libc::dup2(wfd, 9) < 0 { return Err(std::io::Error::last_os_error()); }
            if wfd != 9 { libc::close(wfd); }
            Ok(())
        });
    }
    let mut ch = cmd.spawn().expect("valgrind");
    unsafe { libc::close(wfd) };
    let (tx, rx) = std::sync::mpsc::channel::<Vec<String>>();
    let so = ch.stdout.take().unwrap();
    let mut si = ch.stdin.take().unwrap();
    std::thread::spawn(move || {
        let mut v = vec![];
        for l in BufReader::new(so).lines() {
            let l = match l { Ok(l) => l, Err(_) => break };
            if l == "GO" {
                tx.send(std::mem::take(&mut v)).unwrap();
                let _ = si.write_all(b"g");
                let _ = si.flush();
            } else { v.push(l) }
        }
    });
    let mut rd = BufReader::with_capacity(1 << 20, unsafe { std::fs::File::from_raw_fd(fds[0]) });
    let (mut marks, mut tab, mut tabn) = (0u64, 0u64, 0u64);
    let mut names: Vec<String> = vec![];
    let mut obs: Vec<Obs> = vec![];
    let mut cur: Option<Obs> = None;
    let mut done = false;
    let mut line = Vec::with_capacity(256);
    let mut other = String::new();
    loop {
        line.clear();
        if rd.read_until(b'\n', &mut line).expect("trace") == 0 { break }
        let b = &line[..];
        let kind = match b { [b'I', ..] => 0, [b' ', b'L', ..] => 1, [b' ', b'S', ..] => 2, [b' ', b'M', ..] => 3, _ => { if other.len() < 2000 { other.push_str(&String::from_utf8_lossy(b)); } continue } };
        let mut a = 0u64;
        for &c in &b[3..] {
            match c {
                b'0'..=b'9' => a = a << 4 | (c - b'0') as u64,
                b'a'..=b'f' => a = a << 4 | (c - b'a' + 10) as u64,
                _ => break,
            }
        }
        if marks == 0 {
            if let Ok(v) = rx.try_recv() {
                for l in v {
                    let w: Vec<&str> = l.split(' ').collect();
                    match w[0] {
                        "MARKS" => marks = u64::from_str_radix(w[1], 16).unwrap(),
                        "TABLE" => { tab = u64::from_str_radix(w[1], 16).unwrap(); tabn = w[2].parse().unwrap() }
                        "SECRET" => names.push(format!("{} ({})", w[1], w[2])),
                        _ => {}
                    }
                }
            }
            continue;
        }
        if kind == 2 && a >= marks && a < marks + 3 {
            match a - marks {
                0 => cur = Some(Obs::default()),
                1 => obs.push(cur.take().expect("marker order")),
                _ => done = true,
            }
            continue;
        }
        if let Some(o) = cur.as_mut() {
            if kind == 0 {
                o.instrs += 1;
                *o.code.entry(a).or_insert(0) += 1;
            } else {
                o.accesses += 1;
                if a >= tab && a < tab + tabn { *o.table.entry(a).or_insert(0) += 1; } else { *o.data.entry(a).or_insert(0) += 1; }
            }
        }
    }
    let st = ch.wait().expect("wait");
    if !st.success() || !done || obs.len() != names.len() || obs.len() < 2 {
        eprintln!("trace incomplete: {:?} done={} obs={} names={} {}", st, done, obs.len(), names.len(), other);
        std::process::exit(3);
    }
    let mut work = vec![];
    // the reference is the secret with the median amount of work, so that one odd secret cannot be it
    let mut idx: Vec<usize> = (0..obs.len()).collect();
    idx.sort_by_key(|&i| obs[i].instrs);
    let rf = idx[idx.len() / 2];
    let o0 = obs[rf].clone();
    for (i, o) in obs.iter().enumerate() {
        rep.evn("instructions_observed", o.instrs);
        rep.evn("memory_accesses_observed", o.accesses);
        rep.seen("table_accesses_observed", o.table.values().sum());
        rep.seen(&format!("{}_runs", op), 1);
        rep.distinct.insert({ let mut h = H::default(); h.write(names[i].as_bytes()); h.finish() });
        let (dw, dc, dd, dt) = (o.instrs.abs_diff(o0.instrs), l1(&o.code, &o0.code), l1(&o.data, &o0.data), l1(&o.table, &o0.table));
        work.push(json!({"secret": names[i], "instructions": o.instrs, "accesses": o.accesses, "table_locations": o.table.len(), "work_diff": dw, "code_profile_diff": dc, "address_profile_diff": dd, "table_diff": dt}));
        if i == rf { continue }
        rep.seen("secrets_compared", 1);
        if arg("--control").is_some() {
            if dw > tol_work && dc > tol_code && dd > tol_data { rep.seen("control_difference_seen", 1) }
            continue;
        }
        let who = format!("{}: secret {} against {}", op, names[i], names[rf]);
        rep.check(dw <= tol_work, "work_depends_on_secret", || format!("{}: {} instructions instead of {}", who, o.instrs, o0.instrs));
        rep.check(dc <= tol_code, "work_depends_on_secret", || format!("{}: execution profiles differ by {} instruction executions", who, dc));
        rep.check(dt == 0, "table_access_depends_on_secret", || {
            let mut ex: Vec<String> = vec![];
            for (k, v) in &o0.table { let w = o.table.get(k).copied().unwrap_or(0); if w != *v && ex.len() < 4 { ex.push(format!("offset {:#x}: {} times instead of {}", k - tab, w, v)) } }
            format!("{}: accesses to the generator table differ by {} ({})", who, dt, ex.join(", "))
        });
        rep.check(dd <= tol_data, "memory_access_depends_on_secret", || format!("{}: accessed addresses differ by {} accesses", who, dd));
    }
    rep.samples.push(work[0]["secret"].to_string());
    rep.extra = json!({"op": op, "runs": work});
    rep.finish(&out)
}
