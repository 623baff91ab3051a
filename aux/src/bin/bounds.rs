//! C23: stack and heap used by every operation, measured on painted stacks and with a counting allocator.
#![allow(dropping_copy_types, unused_must_use)]
#![allow(dead_code)]
#[path = "../rep.rs"]
mod rep;
#[path = "../../../harness/src/rng.rs"]
mod rng;
use libsecp256k1::curve::{Affine, AffineStorage, Field, Jacobian, Scalar};
use libsecp256k1::*;
use rep::*;
use rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::convert::TryFrom;
use std::hint::black_box;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static ON: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            CALLS.fetch_add(1, Relaxed);
            let n = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            PEAK.fetch_max(n, Relaxed);
            // an absurd request is reported instead of being tried
            if l.size() > 1 << 32 {
                return std::ptr::null_mut();
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;

const DEPTH: usize = 4 << 20;
const PAT: u64 = 0xA5C3_96E1_5A3C_691E;
#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    black_box(&x) as *const u8 as usize
}
/// fill the dead stack below this frame
#[inline(never)]
fn paint(from: usize) {
    let top = (here() - 1024) & !7;
    let mut a = from & !7;
    while a < top {
        unsafe { std::ptr::write_volatile(a as *mut u64, PAT) };
        a += 8;
    }
}
/// lowest word that was overwritten since
#[inline(never)]
fn low_water(from: usize) -> usize {
    let top = (here() - 1024) & !7;
    let mut a = from & !7;
    while a < top {
        if unsafe { std::ptr::read_volatile(a as *const u64) } != PAT {
            return a;
        }
        a += 8;
    }
    top
}
#[inline(never)]
fn call(f: fn(&In), i: &In) {
    f(i)
}

struct In {
    ec: Box<curve::ECMultContext>,
    gc: Box<curve::ECMultGenContext>,
    k: SecretKey,
    t: SecretKey,
    p: PublicKey,
    q: PublicKey,
    m: Message,
    s: Signature,
    id: RecoveryId,
    enc: Vec<u8>,
    der: Vec<u8>,
    js: String,
    bc: Vec<u8>,
    list: Vec<PublicKey>,
    b: [u8; 32],
    b64: [u8; 64],
    fe: Vec<Field>,
    gej: Vec<Jacobian>,
}
struct Bytes<'a>(&'a [u8], usize);
impl<'a> rand::RngCore for Bytes<'a> {
    fn next_u32(&mut self) -> u32 {
        7
    }
    fn next_u64(&mut self) -> u64 {
        7
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn der_len(r: &mut Rng, n: usize, o: &mut Vec<u8>) {
    match r.below(8) {
        0 => {
            // longer than needed
            let k = r.range(1, 120);
            o.push(0x80 + k as u8);
            let mut v = vec![0u8; k];
            for i in 0..k.min(4) {
                v[k - 1 - i] = (n >> (8 * i)) as u8;
            }
            o.extend(v);
        }
        1 => {
            // a claim that is not true
            let k = r.range(1, 9);
            o.push(0x80 + k as u8);
            o.extend(r.bytes(k));
        }
        _ if n < 128 => o.push(n as u8),
        _ => {
            o.push(0x84);
            o.extend((n as u32).to_be_bytes());
        }
    }
}
fn der(r: &mut Rng, big: usize) -> Vec<u8> {
    let mut body = vec![];
    for _ in 0..2 {
        let mut v = if r.one_in(3) { vec![0; if r.coin() { r.below(big + 1) } else { r.below(40) }] } else { vec![] };
        let n = r.range(1, 34);
        v.extend(r.bytes(n));
        body.push(2);
        der_len(r, v.len(), &mut body);
        body.extend(v);
    }
    let mut o = vec![0x30];
    der_len(r, body.len(), &mut o);
    o.extend(body);
    if r.one_in(6) {
        let k = r.below(o.len() + 1);
        o.truncate(k);
    }
    if r.one_in(10) {
        let k = r.below(big + 1);
        o = r.bytes(k);
    }
    o
}
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn inputs(r: &mut Rng, ec: Box<curve::ECMultContext>, gc: Box<curve::ECMultGenContext>, big: usize, long: usize) -> In {
    let mut arr = || {
        let mut b = [0u8; 32];
        b.copy_from_slice(&r.bytes(32));
        b
    };
    let (b, c, d, e, f) = (arr(), arr(), arr(), arr(), arr());
    let k = SecretKey::parse(&b).unwrap_or_default();
    let t = SecretKey::parse(&c).unwrap_or_default();
    let p = PublicKey::from_secret_key_with_context(&k, &gc);
    let q = PublicKey::from_secret_key_with_context(&t, &gc);
    let m = Message::parse(&d);
    let (s, id) = if r.coin() {
        sign_with_context(&m, &k, &gc)
    } else {
        let mut x = [0u8; 64];
        x[..32].copy_from_slice(&e);
        x[32..].copy_from_slice(&f);
        (Signature::parse_overflowing(&x), RecoveryId::parse(r.below(4) as u8).unwrap())
    };
    let mut b64 = [0u8; 64];
    b64[..32].copy_from_slice(&e);
    b64[32..].copy_from_slice(&f);
    let enc = match r.below(6) {
        0 => p.serialize().to_vec(),
        1 => p.serialize_compressed().to_vec(),
        2 => p.serialize()[1..].to_vec(),
        3 => {
            let mut v = r.bytes(33);
            v[0] = 2 + (v[0] & 1);
            v
        }
        4 => {
            let n = r.below(big + 1);
            r.bytes(n)
        }
        _ => {
            let mut v = p.serialize().to_vec();
            v[r.below(65)] ^= 1 << r.below(8);
            v
        }
    };
    let js = match r.below(3) {
        0 => serde_json::to_string(&p).unwrap(),
        1 => {
            let mut n = r.below(big + 1);
            if !r.one_in(4) {
                n -= n % 4;
            }
            let v: String = (0..n).map(|_| B64[r.below(64)] as char).collect();
            format!("\"{}\"", v)
        }
        _ => {
            let n = r.below(100);
            let v: String = (0..n).map(|_| (32 + r.below(90)) as u8 as char).collect();
            format!("\"{}\"", v)
        }
    };
    let bc = bincode::serialize(&{
        struct W<'a>(&'a [u8]);
        impl<'a> serde::Serialize for W<'a> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_bytes(self.0)
            }
        }
        W(&enc)
    })
    .unwrap();
    let n = if r.coin() { r.below(6) } else { r.below(long + 1) };
    let list = (0..n).map(|_| if r.coin() { p } else { q }).collect();
    let mut fe = vec![];
    let mut gej = vec![];
    let (pa, qa): (Affine, Affine) = (p.into(), q.into());
    let mut j = Jacobian::from_ge(&pa);
    for _ in 0..r.range(1, 40) {
        let mut x = Field::default();
        let _ = x.set_b32(&b);
        fe.push(x);
        j = j.add_ge(&qa);
        gej.push(j);
    }
    In { der: der(r, big), ec, gc, k, t, p, q, m, s, id, enc, js, bc, list, b, b64, fe, gej }
}

/// (name, input bytes that bound the heap it may use; None: builds a context)
type Op = (&'static str, fn(&In), fn(&In) -> Option<usize>);
fn small(_: &In) -> Option<usize> {
    Some(64)
}
fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![
        ("nothing", |_| {}, small),
        ("ECMultContext::new_boxed", |_| drop(black_box(curve::ECMultContext::new_boxed())), |_| None),
        ("ECMultGenContext::new_boxed", |_| drop(black_box(curve::ECMultGenContext::new_boxed())), |_| None),
        ("from_secret_key", |i| drop(black_box(PublicKey::from_secret_key(&i.k))), small),
        ("from_secret_key_with_context", |i| drop(black_box(PublicKey::from_secret_key_with_context(&i.k, &i.gc))), small),
        ("sign", |i| drop(black_box(sign(&i.m, &i.k))), small),
        ("sign_with_context", |i| drop(black_box(sign_with_context(&i.m, &i.k, &i.gc))), small),
        ("verify", |i| drop(black_box(verify(&i.m, &i.s, &i.p))), small),
        ("verify_with_context", |i| drop(black_box(verify_with_context(&i.m, &i.s, &i.p, &i.ec))), small),
        ("recover", |i| drop(black_box(recover(&i.m, &i.s, &i.id))), small),
        ("recover_with_context", |i| drop(black_box(recover_with_context(&i.m, &i.s, &i.id, &i.ec))), small),
        ("ecdh", |i| drop(black_box(SharedSecret::<sha2::Sha256>::new(&i.p, &i.t).map(|x| x.as_ref().len()))), small),
        ("ecdh_with_context", |i| drop(black_box(SharedSecret::<sha2::Sha512>::new_with_context(&i.p, &i.t, &i.ec).map(|x| x.as_ref().len()))), small),
        ("combine", |i| drop(black_box(PublicKey::combine(&i.list))), |i| Some(i.list.len() * std::mem::size_of::<PublicKey>())),
        ("pk_tweak_add", |i| {
            let mut p = i.p;
            drop(black_box(p.tweak_add_assign(&i.t)))
        }, small),
        ("pk_tweak_add_with_context", |i| {
            let mut p = i.p;
            drop(black_box(p.tweak_add_assign_with_context(&i.t, &i.ec)))
        }, small),
        ("pk_tweak_mul", |i| {
            let mut p = i.p;
            drop(black_box(p.tweak_mul_assign(&i.t)))
        }, small),
        ("pk_tweak_mul_with_context", |i| {
            let mut p = i.p;
            drop(black_box(p.tweak_mul_assign_with_context(&i.t, &i.ec)))
        }, small),
        ("sk_tweak", |i| {
            let mut k = i.k;
            drop(black_box(k.tweak_add_assign(&i.t)));
            drop(black_box(k.tweak_mul_assign(&i.t)));
            black_box(k.inv());
            k.clear();
        }, small),
        ("sk_parse", |i| {
            drop(black_box(SecretKey::parse(&i.b)));
            drop(black_box(SecretKey::parse_slice(&i.enc)));
            drop(black_box(SecretKey::random(&mut Bytes(&i.b, 0))));
        }, small),
        ("sk_hex", |i| {
            use std::fmt::Write;
            struct N;
            impl Write for N {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    black_box(s);
                    Ok(())
                }
            }
            write!(N, "{:x} {:?}", i.k, i.m).unwrap();
        }, small),
        ("pk_parse", |i| {
            drop(black_box(PublicKey::parse_slice(&i.enc, None)));
            drop(black_box(PublicKey::parse_slice(&i.enc, Some(PublicKeyFormat::Full))));
            drop(black_box(PublicKey::parse_slice(&i.enc, Some(PublicKeyFormat::Compressed))));
            drop(black_box(PublicKey::parse_slice(&i.enc, Some(PublicKeyFormat::Raw))));
        }, small),
        ("pk_serialize", |i| {
            black_box(i.p.serialize());
            black_box(i.p.serialize_compressed());
            drop(black_box(PublicKey::try_from(<PublicKey as Into<Affine>>::into(i.p))));
        }, small),
        ("sig_parse_der", |i| drop(black_box(Signature::parse_der(&i.der))), small),
        ("sig_parse_der_lax", |i| drop(black_box(Signature::parse_der_lax(&i.der))), small),
        ("sig_parse", |i| {
            drop(black_box(Signature::parse_standard(&i.b64)));
            drop(black_box(Signature::parse_overflowing(&i.b64)));
            drop(black_box(Signature::parse_standard_slice(&i.enc)));
            drop(black_box(Signature::parse_overflowing_slice(&i.enc)));
            drop(black_box(Message::parse_slice(&i.enc)));
        }, small),
        ("sig_serialize", |i| {
            let mut s = i.s;
            s.normalize_s();
            black_box(s.serialize());
            black_box(s.serialize_der().as_ref().len());
        }, small),
        ("json_from_str", |i| drop(black_box(serde_json::from_str::<PublicKey>(&i.js).is_ok())), |i| Some(i.js.len())),
        ("json_from_reader", |i| drop(black_box(serde_json::from_reader::<_, PublicKey>(i.js.as_bytes()).is_ok())), |i| Some(i.js.len())),
        ("json_to_string", |i| drop(black_box(serde_json::to_string(&i.p))), small),
        ("bincode_deserialize", |i| drop(black_box(bincode::deserialize::<PublicKey>(&i.bc).is_ok())), |i| Some(i.bc.len())),
        ("bincode_serialize", |i| drop(black_box(bincode::serialize(&i.p))), small),
        ("ecmult", |i| {
            let mut r = Jacobian::default();
            i.ec.ecmult(&mut r, &i.gej[0], &i.k.into(), &i.t.into());
            black_box(r);
        }, small),
        ("ecmult_const", |i| {
            let mut r = Jacobian::default();
            i.ec.ecmult_const(&mut r, &i.p.into(), &i.t.into());
            black_box(r);
        }, small),
        ("ecmult_gen", |i| {
            let mut r = Jacobian::default();
            i.gc.ecmult_gen(&mut r, &i.t.into());
            black_box(r);
        }, small),
        ("field", |i| {
            let f = i.fe[0];
            black_box((f.sqrt(), f.inv(), f.inv_var(), f.sqr(), f.is_quad_var()));
        }, small),
        ("scalar", |i| {
            let s: Scalar = i.k.into();
            black_box((s.inv(), s.inv_var(), s.sqr(), -s));
        }, small),
        ("decompress", |i| {
            let mut a = Affine::default();
            black_box(a.set_xo_var(&i.fe[0], true));
            let s: AffineStorage = a.into();
            black_box(Affine::from(s));
            black_box(i.gej[0].add_var(&i.gej[0], None).double_var(None));
        }, small),
    ];
    v.dedup_by(|a, b| a.0 == b.0);
    v
}

fn main() {
    let seed = argn("--seed", 1);
    let rounds = argn("--rounds", 200);
    let big = argn("--big", 1 << 18) as usize;
    let long = argn("--long", 2000) as usize;
    let limit = argn("--stack", 128 << 10) as usize;
    let out = arg("--out").unwrap_or("-".into());
    let (rep, max) = std::thread::Builder::new()
        .stack_size(24 << 20)
        .spawn(move || {
            let mut rep = Rep::new();
            let ops = ops();
            let mut max: Vec<(usize, i64)> = vec![(0, 0); ops.len()];
            let measure = |f: fn(&In), i: &In, low: &mut usize| {
                paint(*low);
                let base = here();
                let bottom = base - DEPTH;
                LIVE.store(0, SeqCst);
                PEAK.store(0, SeqCst);
                ON.store(true, SeqCst);
                call(f, i);
                ON.store(false, SeqCst);
                *low = low_water(bottom);
                (base - *low, PEAK.load(SeqCst), LIVE.load(SeqCst))
            };
            let mut low = here() - DEPTH - (1 << 20);
            // lazily created contexts come to life here; the stack is judged, the heap is not
            {
                let r = &mut Rng::new(seed, "C23", 1 << 40);
                let i = inputs(r, curve::ECMultContext::new_boxed(), curve::ECMultGenContext::new_boxed(), 100, 3);
                for (n, o) in ops.iter().enumerate() {
                    let (st, _, _) = measure(o.1, &i, &mut low);
                    rep.ev("first_use_measured");
                    max[n].0 = max[n].0.max(st);
                    rep.check(st <= limit, "stack", || format!("first use of {} takes {} bytes of stack (or more), limit {}", o.0, st, limit));
                }
            }
            let (mut ec, mut gc) = (curve::ECMultContext::new_boxed(), curve::ECMultGenContext::new_boxed());
            let mut kept: Vec<Vec<i64>> = vec![vec![]; ops.len()];
            for round in 0..rounds {
                let r = &mut Rng::new(seed, "C23", round);
                let rare = round % 16 == 3;
                let i = inputs(r, ec, gc, if rare { big } else { 300 }, if round % 64 == 5 { long * 10 } else if rare { long } else { 8 });
                // what ran meanwhile has used the stack as well
                low = here() - DEPTH - (1 << 20);
                for (n, o) in ops.iter().enumerate() {
                    let bound = (o.2)(&i);
                    if bound.is_none() && round % 32 != 0 {
                        continue;
                    }
                    let mut total = 0;
                    for again in 0..if round % 4 == 0 { 6 } else { 1 } {
                        let (st, pk, lv) = measure(o.1, &i, &mut low);
                        rep.ev("operation_measured");
                        if again >= 2 {
                            total += (lv > 0) as i64;
                        }
                        kept[n].push(lv);
                        max[n].0 = max[n].0.max(st);
                        max[n].1 = max[n].1.max(pk);
                        rep.distinct.insert((n as u64) << 48 | (st as u64) << 24 | pk as u64);
                        rep.check(st <= limit, "stack", || format!("{} takes {} bytes of stack (or more), limit {}; seed {} round {}", o.0, st, limit, seed, round));
                        if let Some(b) = bound {
                            let most = 65536 + 16 * b as i64;
                            rep.check(pk <= most, "heap", || format!("{} had {} bytes of heap at once for an input of {} bytes; seed {} round {}", o.0, pk, b, seed, round));
                        }
                    }
                    if round % 4 == 0 {
                        rep.check(total < 4, "leak", || format!("{} leaves memory allocated every time it is repeated with the same arguments; seed {} round {}", o.0, seed, round));
                    }
                }
                rep.seen("heap_bytes_longest_input", (i.der.len().max(i.js.len()).max(i.list.len() * 32) > 10000) as u64);
                ec = i.ec;
                gc = i.gc;
            }
            // memory that keeps growing with ever new arguments
            for (n, o) in ops.iter().enumerate() {
                let v = &kept[n];
                let late: i64 = v[v.len() / 2..].iter().sum();
                rep.ev("growth_judged");
                rep.check(late <= 4096, "leak", || format!("{}: {} bytes more stayed allocated over the last {} calls; seed {}", o.0, late, v.len() - v.len() / 2, seed));
            }
            rep.samples = ops.iter().zip(&max).map(|(o, m)| format!("{}: at most {} bytes of stack, {} of heap", o.0, m.0, m.1)).take(60).collect();
            (rep, max)
        })
        .unwrap()
        .join()
        .unwrap();
    let mut rep = rep;
    rep.extra = serde_json::json!({ "max_stack": max.iter().map(|m| m.0).max(), "allocations_seen": CALLS.load(SeqCst) });
    rep.finish(&out);
}
