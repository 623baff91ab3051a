//! C20: every call is a function of its arguments. Modes: answers | monitor | first
#![allow(dead_code)]
#[path = "../rep.rs"]
mod rep;
#[path = "../../../harness/src/rng.rs"]
mod rng;
use libsecp256k1::curve::{Affine, ECMultContext, ECMultGenContext, Scalar};
use libsecp256k1::*;
use rep::*;
use rng::{hash_bytes, Rng};
use std::convert::TryFrom;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// argument values, in families that agree on everything but one limb, or on x only, and so on
struct Args {
    sk: Vec<SecretKey>,
    pk: Vec<PublicKey>,
    ms: Vec<Message>,
    sg: Vec<(Signature, u8)>,
    blobs: Vec<Vec<u8>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Call {
    op: u8,
    a: u16,
    b: u16,
    c: u16,
}
const OPS: [&str; 22] = [
    "derive", "derive_heap", "sign", "sign_heap", "verify", "verify_heap", "recover", "recover_heap", "ecdh", "ecdh_heap", "sk_tweak_add", "sk_tweak_mul", "sk_inv", "pk_tweak_add", "pk_tweak_mul", "combine", "pk_parse",
    "der", "der_lax", "serialize", "serde", "random",
];
fn family(r: &mut Rng, ok: impl Fn(&[u8; 32]) -> bool, limbs: bool) -> Vec<[u8; 32]> {
    loop {
        let base = r.b32();
        if !ok(&base) {
            continue;
        }
        let mut v = vec![base];
        // agree with the base in all limbs but one
        for i in 0..8 {
            for _ in 0..40 {
                let mut b = base;
                b[4 * i..4 * i + 4].copy_from_slice(&r.u32().to_be_bytes());
                if b != base && ok(&b) {
                    v.push(b);
                    break;
                }
            }
        }
        if limbs {
            // agree with the base in exactly one limb
            for i in 0..8 {
                for _ in 0..40 {
                    let mut b = r.b32();
                    b[4 * i..4 * i + 4].copy_from_slice(&base[4 * i..4 * i + 4]);
                    if ok(&b) {
                        v.push(b);
                        break;
                    }
                }
            }
        }
        return v;
    }
}
fn args(seed: u64, gc: &ECMultGenContext, ec: &ECMultContext) -> Args {
    let r = &mut Rng::new(seed, "pure", 0);
    let ok = |b: &[u8; 32]| SecretKey::parse(b).is_ok();
    let mut sk: Vec<SecretKey> = family(r, ok, true).iter().map(|b| SecretKey::parse(b).unwrap()).collect();
    sk.push(SecretKey::default());
    let s0: Scalar = sk[0].into();
    sk.push(SecretKey::try_from(-s0).unwrap());
    sk.push(SecretKey::try_from(-Scalar::from_int(1)).unwrap());
    let okp = |b: &[u8; 32]| {
        let mut p = [2u8; 33];
        p[1..].copy_from_slice(b);
        PublicKey::parse_compressed(&p).is_ok()
    };
    let mut pk = vec![];
    for (i, b) in family(r, okp, true).iter().enumerate() {
        let mut p = [2u8; 33];
        p[1..].copy_from_slice(b);
        let q = PublicKey::parse_compressed(&p).unwrap();
        pk.push(q);
        if i < 9 {
            // not through the parser: a parser that remembers would give the same key twice
            let mut e: Affine = q.into();
            e = e.neg();
            e.y.normalize();
            pk.push(PublicKey::try_from(e).unwrap());
        }
    }
    pk.push(PublicKey::from_secret_key_with_context(&sk[0], gc));
    pk.push(PublicKey::from_secret_key_with_context(&SecretKey::default(), gc));
    let ms: Vec<Message> = family(r, |_| true, true).iter().map(|b| Message::parse(b)).chain([Message::parse(&[0; 32]), Message::parse(&[255; 32])]).collect();
    let mut sg = vec![];
    for i in 0..6 {
        let (s, id) = sign_with_context(&ms[i], &sk[i], gc);
        sg.push((s, id.serialize()));
        let mut t = s;
        t.s = -t.s;
        sg.push((t, id.serialize() ^ 1));
        sg.push((s, id.serialize() ^ 1));
        t.s = t.s + Scalar::from_int(1);
        sg.push((t, id.serialize()));
        if let Ok(p) = recover_with_context(&ms[i], &t, &id, ec) {
            pk.push(p);
        }
    }
    sg.push((Signature::parse_overflowing(&[0; 64]), 0));
    let mut blobs: Vec<Vec<u8>> = vec![];
    for p in &pk[..10] {
        blobs.push(p.serialize().to_vec());
        blobs.push(p.serialize_compressed().to_vec());
    }
    // near relatives of the encodings: other tag, other length with the same coordinates, one byte changed
    for i in 0..6 {
        let c = blobs[2 * i + 1].clone();
        for t in [2u8, 3, 4] {
            let mut d = c.clone();
            d[0] = t;
            blobs.push(d);
        }
        let mut f = blobs[2 * i].clone();
        blobs.push(f[1..].to_vec());
        f[0] = 6 | (f[64] & 1);
        blobs.push(f.clone());
        f[0] ^= 1;
        blobs.push(f.clone());
        f[0] = 4;
        f[1 + (i * 5)] ^= 1;
        blobs.push(f);
    }
    let mut bad = blobs[0].clone();
    bad[64] ^= 1;
    blobs.push(bad);
    for (s, _) in &sg[..12] {
        let d = s.serialize_der().as_ref().to_vec();
        let mut l = d.clone();
        l[1] ^= 3;
        blobs.push(d);
        blobs.push(l);
    }
    blobs.push(vec![]);
    Args { sk, pk, ms, sg, blobs }
}
fn calls(a: &Args) -> Vec<Vec<Call>> {
    let (s, p, m, g, b) = (a.sk.len() as u16, a.pk.len() as u16, a.ms.len() as u16, a.sg.len() as u16, a.blobs.len() as u16);
    let mut out = vec![];
    for (op, name) in OPS.iter().enumerate() {
        let op = op as u8;
        let mut v = vec![];
        let mut put = |a: u16, b: u16, c: u16| v.push(Call { op, a, b, c });
        match *name {
            "derive" | "derive_heap" | "sk_inv" => (0..s).for_each(|i| put(i, 0, 0)),
            "sign" | "sign_heap" => {
                (0..s).for_each(|i| put(i, 0, 0));
                (1..m).for_each(|i| put(0, i, 0));
                (1..6).for_each(|i| put(i, i, 0));
            }
            "verify" | "verify_heap" => {
                for i in 0..g {
                    put((i / 4).min(5), i, p - 1);
                    put((i / 4).min(5), i, i % p);
                    for j in 0..3 {
                        put(j, i, 0);
                    }
                }
                (0..p).for_each(|j| put(0, 0, j));
            }
            "recover" | "recover_heap" => {
                for i in 0..g {
                    put((i / 4).min(5), i, 0);
                    put(((i / 4) + 1).min(5), i, 0);
                }
                (0..m).for_each(|j| put(j, 0, 0));
            }
            "ecdh" | "ecdh_heap" | "pk_tweak_add" | "pk_tweak_mul" => {
                (0..p).for_each(|i| put(i, 0, 0));
                (1..s).for_each(|i| put(0, i, 0));
                (1..8).for_each(|i| put(i, i, 0));
            }
            "sk_tweak_add" | "sk_tweak_mul" => {
                (0..s).for_each(|i| put(0, i, 0));
                (1..s).for_each(|i| put(i, 0, 0));
            }
            "combine" => {
                (0..p).for_each(|i| put(i, (i + 1) % p, (i + 2) % p));
                (0..p).for_each(|i| put(0, i, 1));
            }
            "pk_parse" | "der" | "der_lax" => (0..b).for_each(|i| put(i, 0, 0)),
            "serialize" | "serde" => (0..p).for_each(|i| put(i, 0, 0)),
            _ => (0..12).for_each(|i| put(i, 0, 0)),
        }
        out.push(v);
    }
    out
}
struct Fixed(Rng);
impl rand::RngCore for Fixed {
    fn next_u32(&mut self) -> u32 {
        self.0.u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if self.0.one_in(2) {
            d.fill(0xff);
        } else {
            let b = self.0.bytes(d.len());
            d.copy_from_slice(&b)
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn pkh(p: Result<PublicKey, Error>) -> u64 {
    match p {
        Ok(p) => hash_bytes(&p.serialize()) ^ hash_bytes(&p.serialize_compressed()),
        Err(e) => 1000 + e as u64,
    }
}
fn sgh(s: Result<Signature, Error>) -> u64 {
    s.map_or_else(|e| 1000 + e as u64, |s| hash_bytes(&s.serialize()) ^ hash_bytes(s.serialize_der().as_ref()))
}
fn exec(c: &Call, a: &Args, ec: &ECMultContext, gc: &ECMultGenContext) -> u64 {
    let skh = |e: Result<(), Error>, k: SecretKey| e.map_or_else(|e| 1000 + e as u64, |_| 0) ^ hash_bytes(&k.serialize());
    let (x, y, z) = (c.a as usize, c.b as usize, c.c as usize);
    match OPS[c.op as usize] {
        "derive" => pkh(Ok(PublicKey::from_secret_key(&a.sk[x]))),
        "derive_heap" => pkh(Ok(PublicKey::from_secret_key_with_context(&a.sk[x], gc))),
        "sign" => {
            let (s, i) = sign(&a.ms[y], &a.sk[x]);
            sgh(Ok(s)) + i.serialize() as u64
        }
        "sign_heap" => {
            let (s, i) = sign_with_context(&a.ms[y], &a.sk[x], gc);
            sgh(Ok(s)) + i.serialize() as u64
        }
        "verify" => verify(&a.ms[x], &a.sg[y].0, &a.pk[z]) as u64,
        "verify_heap" => verify_with_context(&a.ms[x], &a.sg[y].0, &a.pk[z], ec) as u64,
        "recover" => pkh(recover(&a.ms[x], &a.sg[y].0, &RecoveryId::parse(a.sg[y].1 & 3).unwrap())),
        "recover_heap" => pkh(recover_with_context(&a.ms[x], &a.sg[y].0, &RecoveryId::parse(a.sg[y].1 & 3).unwrap(), ec)),
        "ecdh" => SharedSecret::<sha2::Sha256>::new(&a.pk[x], &a.sk[y]).map_or_else(|e| 1000 + e as u64, |v| hash_bytes(v.as_ref())),
        "ecdh_heap" => SharedSecret::<sha2::Sha256>::new_with_context(&a.pk[x], &a.sk[y], ec).map_or_else(|e| 1000 + e as u64, |v| hash_bytes(v.as_ref())),
        "sk_tweak_add" => {
            let mut k = a.sk[x];
            let e = k.tweak_add_assign(&a.sk[y]);
            skh(e, k)
        }
        "sk_tweak_mul" => {
            let mut k = a.sk[x];
            let e = k.tweak_mul_assign(&a.sk[y]);
            skh(e, k)
        }
        "sk_inv" => hash_bytes(&a.sk[x].inv().serialize()),
        "pk_tweak_add" => {
            let mut k = a.pk[x];
            let e = k.tweak_add_assign(&a.sk[y]);
            pkh(e.map(|_| k))
        }
        "pk_tweak_mul" => {
            let mut k = a.pk[x];
            let e = k.tweak_mul_assign(&a.sk[y]);
            pkh(e.map(|_| k))
        }
        "combine" => pkh(PublicKey::combine(&[a.pk[x], a.pk[y], a.pk[z]])),
        "pk_parse" => pkh(PublicKey::parse_slice(&a.blobs[x], None)),
        "der" => sgh(Signature::parse_der(&a.blobs[x])),
        "der_lax" => sgh(Signature::parse_der_lax(&a.blobs[x])),
        "serialize" => pkh(Ok(a.pk[x])),
        "serde" => {
            let j = serde_json::to_string(&a.pk[x]).unwrap();
            hash_bytes(j.as_bytes()) ^ pkh(serde_json::from_str(&j).map_err(|_| Error::InvalidPublicKey))
        }
        _ => hash_bytes(&SecretKey::random(&mut Fixed(Rng::new(x as u64, "rnd", 0))).serialize()),
    }
}
fn table_digest(ec: &ECMultContext, gc: &ECMultGenContext) -> u64 {
    let mut h = 0u64;
    for e in ec.inspect_raw().iter().chain(gc.inspect_raw().iter().flatten()) {
        for w in e.x.0.iter().chain(e.y.0.iter()) {
            h = (h ^ *w as u64).wrapping_mul(0x100000001b3).rotate_left(7);
        }
    }
    h
}
fn args_digest(a: &Args) -> u64 {
    let mut h = 0u64;
    let mut f = |b: &[u8]| h = h.rotate_left(9) ^ hash_bytes(b);
    a.sk.iter().for_each(|k| f(&k.serialize()));
    a.pk.iter().for_each(|k| f(&k.serialize()));
    a.ms.iter().for_each(|k| f(&k.serialize()));
    a.sg.iter().for_each(|k| f(&k.0.serialize()));
    a.blobs.iter().for_each(|k| f(k));
    h
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let seed = argn("--seed", 1);
    let out = arg("--out").unwrap_or("-".into());
    let mut r = Rep::new();
    if mode == "first" {
        return first(seed, argn("--threads", 8), argn("--round", 0));
    }
    let ec = ECMultContext::new_boxed();
    let gc = ECMultGenContext::new_boxed();
    let a = args(seed, &gc, &ec);
    let cs = calls(&a);
    let flat: Vec<Call> = cs.iter().flatten().cloned().collect();
    if mode == "answers" {
        // in a given order in a fresh process
        let perm = argn("--perm", 0);
        let mut idx: Vec<usize> = (0..flat.len()).collect();
        let g = &mut Rng::new(perm, "perm", 0);
        match perm {
            0 => {}
            1 => idx.reverse(),
            _ => (1..idx.len()).rev().for_each(|i| idx.swap(i, g.below(i + 1))),
        }
        let mut ans = vec![0; flat.len()];
        for &i in &idx {
            ans[i] = exec(&flat[i], &a, &ec, &gc);
        }
        for (c, v) in flat.iter().zip(&ans) {
            println!("{} {} {} {} {:016x}", OPS[c.op as usize], c.a, c.b, c.c, v);
        }
        return;
    }
    // ---- monitor
    let budget = argn("--secs", 20);
    let nthreads = argn("--threads", 8) as usize;
    let reps = argn("--soak", 400);
    let t0 = std::time::Instant::now();
    let td = (table_digest(&ECMULT_CONTEXT, &ECMULT_GEN_CONTEXT), table_digest(&ec, &gc));
    let ad = args_digest(&a);
    r.check(td.0 == td.1, "tables", || "built-in and heap tables differ".into());
    let ans: Vec<Vec<u64>> = cs.iter().map(|v| v.iter().map(|c| exec(c, &a, &ec, &gc)).collect()).collect();
    let judge = |c: &Call, want: u64, what: &dyn Fn() -> String| -> Option<String> {
        let got = exec(c, &a, &ec, &gc);
        if got != want {
            Some(format!("{}({}, {}, {}) answered {:016x} before and {:016x} {}", OPS[c.op as usize], c.a, c.b, c.c, want, got, what()))
        } else {
            None
        }
    };
    // 1. every ordered pair of calls of one operation, and sandwiches
    if argn("--pairs", 1) == 1 {
        let (part, parts) = (argn("--part", 0) as usize, argn("--parts", 1) as usize);
        for (o, v) in cs.iter().enumerate() {
            if o % parts != part {
                continue;
            }
            for i in 0..v.len() {
                for j in 0..v.len().min(60) {
                    let j = if v.len() <= 60 { j } else { (i + j) % v.len() };
                    for (k, prev) in [(j, i), (i, j)] {
                        if let Some(e) = judge(&v[k], ans[o][k], &|| format!("right after {:?}", v[prev])) {
                            r.fail("history", e);
                        }
                    }
                    r.evn("call_after_other_call", 2);
                    r.distinct.insert((o * 1_000_000 + i * 1000 + j) as u64);
                }
                if !r.viols.is_empty() {
                    break;
                }
            }
        }
    }
    // 2. soak: the same call many times
    let soak: Vec<(usize, usize)> = (0..cs.len()).flat_map(|o| [(o, 0), (o, cs[o].len() / 2)]).collect();
    let next = AtomicUsize::new(0);
    let bad = Mutex::new(vec![]);
    let cnt = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..nthreads.min(8) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= soak.len() {
                    break;
                }
                let (o, k) = soak[i];
                for n in 0..reps {
                    if let Some(e) = judge(&cs[o][k], ans[o][k], &|| format!("at repetition {}", n)) {
                        bad.lock().unwrap().push(e);
                        break;
                    }
                    cnt.fetch_add(1, Relaxed);
                }
            });
        }
    });
    r.evn("call_repeated", cnt.load(Relaxed));
    // 3. many threads, random order, random groups, random delays
    let stop = AtomicBool::new(false);
    let ev = AtomicU64::new(0);
    let inter = Mutex::new(std::collections::HashSet::new());
    let last = AtomicU64::new(0);
    let mut round = 0u64;
    let sp = argn("--round-calls", 60) as usize;
    let minr = argn("--min-rounds", 6);
    while bad.lock().unwrap().is_empty() && r.viols.is_empty() && (round < minr || t0.elapsed().as_secs() < budget) {
        let n = if nthreads <= 2 { nthreads } else { 2 + (round as usize * 5) % (2 * nthreads - 1) };
        let ready = AtomicUsize::new(0);
        let focus = if round % 3 == 0 { Some(round as usize / 3 % cs.len()) } else { None };
        std::thread::scope(|s| {
            for t in 0..n {
                let (a_, cs, ans, bad, stop, ev, inter, last, ready, judge) = (&a, &cs, &ans, &bad, &stop, &ev, &inter, &last, &ready, &judge);
                let _ = a_;
                s.spawn(move || {
                    let g = &mut Rng::new(seed, "threads", round * 64 + t as u64);
                    ready.fetch_add(1, Relaxed);
                    while ready.load(Relaxed) < n {
                        std::hint::spin_loop()
                    }
                    let mut sig = 0u64;
                    for q in 0..sp {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let o = focus.unwrap_or_else(|| g.below(cs.len()));
                        let k = g.below(cs[o].len());
                        match g.below(12) {
                            0 => std::thread::yield_now(),
                            1 => (0..g.below(400)).for_each(|_| std::hint::spin_loop()),
                            _ => {}
                        }
                        // who ran last is what distinguishes schedules; relaxed, so it orders nothing
                        let l = last.swap((t as u64) << 8 | o as u64, Relaxed);
                        sig = sig.rotate_left(5) ^ l.wrapping_mul(0x9E3779B97F4A7C15);
                        if let Some(e) = judge(&cs[o][k], ans[o][k], &|| format!("on thread {} of {} in round {}", t, n, round)) {
                            bad.lock().unwrap().push(e);
                            stop.store(true, Relaxed);
                        }
                        ev.fetch_add(1, Relaxed);
                        if q % 16 == 15 {
                            inter.lock().unwrap().insert(sig);
                        }
                    }
                });
            }
        });
        round += 1;
    }
    for e in bad.into_inner().unwrap().into_iter().take(4) {
        r.fail("purity", e);
    }
    r.evn("concurrent_call", ev.load(Relaxed));
    r.seen("distinct_schedules_seen", inter.lock().unwrap().len() as u64);
    r.seen("rounds", round);
    r.check(td == (table_digest(&ECMULT_CONTEXT, &ECMULT_GEN_CONTEXT), table_digest(&ec, &gc)), "tables", || "shared tables changed".into());
    r.check(ad == args_digest(&a), "arguments", || "arguments were modified".into());
    for (o, v) in cs.iter().enumerate() {
        for k in 0..v.len() {
            if let Some(e) = judge(&v[k], ans[o][k], &|| "after everything else".into()) {
                r.fail("history", e);
            }
            r.ev("call_at_the_end");
        }
    }
    r.samples.push(format!("{:?} answers {:016x} at every position", cs[2][1], ans[2][1]));
    r.finish(&out);
}

/// child process: many threads make the very first calls at once
fn first(seed: u64, threads: u64, round: u64) {
    let key = SecretKey::parse(&[round as u8 | 1; 32]).unwrap();
    let msg = Message::parse(&[seed as u8; 32]);
    let ready = AtomicU64::new(0);
    let res = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (ready, res) = (&ready, &res);
            s.spawn(move || {
                let mut g = Rng::new(seed, "first", round * 64 + t);
                ready.fetch_add(1, Relaxed);
                while ready.load(Relaxed) < threads {
                    std::hint::spin_loop()
                }
                (0..g.below(if round % 2 == 0 { 1 } else { 3000 })).for_each(|_| std::hint::spin_loop());
                let which = if round % 4 < 2 { g.below(5) } else { (round / 4 % 5) as usize };
                let v = match which {
                    0 => pkh(Ok(PublicKey::from_secret_key(&key))),
                    1 => sgh(Ok(sign(&msg, &key).0)),
                    2 => verify(&msg, &Signature::parse_overflowing(&[3; 64]), &gpk()) as u64,
                    3 => pkh(recover(&msg, &Signature::parse_overflowing(&[3; 64]), &RecoveryId::parse(1).unwrap())),
                    _ => {
                        let mut p = gpk();
                        pkh(p.tweak_add_assign(&key).map(|_| p))
                    }
                };
                res.lock().unwrap().push((t, which, v));
            });
        }
    });
    let ec = ECMultContext::new_boxed();
    let gc = ECMultGenContext::new_boxed();
    let mut bad = 0;
    for (t, which, v) in res.into_inner().unwrap() {
        let w = match which {
            0 => pkh(Ok(PublicKey::from_secret_key_with_context(&key, &gc))),
            1 => sgh(Ok(sign_with_context(&msg, &key, &gc).0)),
            2 => verify_with_context(&msg, &Signature::parse_overflowing(&[3; 64]), &gpk(), &ec) as u64,
            3 => pkh(recover_with_context(&msg, &Signature::parse_overflowing(&[3; 64]), &RecoveryId::parse(1).unwrap(), &ec)),
            _ => {
                let mut p = gpk();
                pkh(p.tweak_add_assign_with_context(&key, &ec).map(|_| p))
            }
        };
        if v != w {
            println!("FAIL thread {} first call {} answered {:016x}, not {:016x}", t, which, v, w);
            bad += 1;
        }
    }
    if table_digest(&ECMULT_CONTEXT, &ECMULT_GEN_CONTEXT) != table_digest(&ec, &gc) {
        println!("FAIL tables created during the race differ");
        bad += 1;
    }
    println!("FIRST {}", threads);
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
fn gpk() -> PublicKey {
    PublicKey::parse_compressed(&[
        0x02, 0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98,
    ])
    .expect("generator")
}
