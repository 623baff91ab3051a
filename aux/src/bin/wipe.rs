//! C21: what is left of a secret in the memory it occupied, observed when that memory is released.
#![allow(dead_code)]
#[path = "../mem.rs"]
mod mem;
#[path = "../rep.rs"]
mod rep;
#[path = "../../../harness/src/rng.rs"]
mod rng;
use libsecp256k1::curve::Scalar;
use libsecp256k1::*;
use rep::*;
use rng::Rng;
use std::hint::black_box;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

#[global_allocator]
static A: mem::Mem = mem::Mem;

/// no zero bytes, below n, so that every byte of the secret is recognisable
fn secret(r: &mut Rng, shape: u64) -> [u8; 32] {
    let mut b = [0u8; 32];
    for x in b.iter_mut() {
        *x = 1 + (r.u8() % 255);
    }
    match shape % 5 {
        0 => b[0] = 0xff,
        1 => b[..15].fill(0xff),
        2 => b[31] = 1,
        _ => {}
    }
    if shape % 5 == 1 {
        b[15] = 0xfe;
        b[16] = 0xb0;
    }
    b
}
/// secrets with zero bytes and words: a wipe must not stop at them
fn sparse(r: &mut Rng, shape: u64) -> [u8; 32] {
    let mut b = [0u8; 32];
    match shape % 8 {
        // a single byte
        0 => b[r.below(32)] = 1 + r.u8() % 200,
        // a single bit
        1 => b[r.below(32)] = 1 << r.below(7),
        // a random subset of the words
        2 => {
            let m = 1 + r.below(255);
            for w in 0..8 {
                if m >> w & 1 == 1 {
                    b[4 * w..4 * w + 4].copy_from_slice(&r.u32().to_be_bytes());
                }
            }
        }
        // small words
        3 => (0..8).for_each(|w| b[4 * w + 3] = r.u8()),
        4 => (0..8).for_each(|w| b[4 * w] = r.u8() & 0x7f),
        // short values
        5 => {
            let n = 1 + r.below(31);
            b[32 - n..].copy_from_slice(&r.bytes(n));
        }
        // trailing zeros
        6 => {
            let n = 1 + r.below(31);
            b[..n].copy_from_slice(&r.bytes(n));
            b[0] &= 0x7f;
        }
        // sparse bytes
        _ => (0..1 + r.below(6)).for_each(|_| b[r.below(32)] = r.u8() & 0x7f),
    }
    if SecretKey::parse(&b).is_err() {
        b[1] = 0x33;
        b[0] = 0;
    }
    b
}
#[repr(C)]
struct Wallet {
    id: u64,
    key: SecretKey,
    used: u32,
}
impl Drop for Wallet {
    fn drop(&mut self) {
        self.key.clear()
    }
}
struct AutoKey(SecretKey);
impl Drop for AutoKey {
    fn drop(&mut self) {
        self.0.clear()
    }
}
struct AutoScalar(Scalar);
impl Drop for AutoScalar {
    fn drop(&mut self) {
        self.0.clear()
    }
}
fn key(b: &[u8; 32]) -> SecretKey {
    SecretKey::parse(black_box(b)).expect("admissible")
}
fn scalar(b: &[u8; 32]) -> Scalar {
    let mut s = Scalar::default();
    let _ = s.set_b32(black_box(b));
    s
}
fn of<T>(t: &T) -> (*const u8, usize) {
    (t as *const T as *const u8, std::mem::size_of::<T>())
}
fn watch<T>(t: &T) {
    let (p, n) = of(t);
    unsafe { mem::watch(p, n) }
}

/// (name, what to do); every case wipes and then releases
#[inline(never)]
fn boxed_key(b: &[u8; 32], wipe: bool) {
    let mut k = Box::new(key(b));
    watch(&*k);
    if wipe {
        k.clear();
    }
}
#[inline(never)]
fn boxed_scalar(b: &[u8; 32], wipe: bool) {
    let mut k = Box::new(scalar(b));
    watch(&*k);
    if wipe {
        k.clear();
    }
}
#[inline(never)]
fn used_key(b: &[u8; 32], wipe: bool) {
    let mut k = Box::new(key(b));
    let (s, _) = sign(&Message::parse(&[3; 32]), &k);
    black_box(&s);
    watch(&*k);
    if wipe {
        k.clear();
    }
}
#[inline(never)]
fn tweaked_key(b: &[u8; 32], wipe: bool) {
    let mut k = Box::new(key(b));
    let _ = k.tweak_mul_assign(&SecretKey::default());
    watch(&*k);
    if wipe {
        k.clear();
    }
}
#[inline(never)]
fn vec_of_keys(b: &[u8; 32], wipe: bool) {
    let mut v = vec![key(b); 9];
    unsafe { mem::watch(v.as_ptr() as *const u8, 9 * std::mem::size_of::<SecretKey>()) };
    if wipe {
        v.iter_mut().for_each(|k| k.clear());
    }
}
#[inline(never)]
fn vec_auto(b: &[u8; 32], wipe: bool) {
    if !wipe {
        return vec_of_keys(b, wipe);
    }
    let v: Vec<AutoKey> = (0..5).map(|_| AutoKey(key(b))).collect();
    unsafe { mem::watch(v.as_ptr() as *const u8, 5 * std::mem::size_of::<AutoKey>()) };
    drop(v);
}
#[inline(never)]
fn boxed_auto(b: &[u8; 32], wipe: bool) {
    if !wipe {
        return boxed_key(b, wipe);
    }
    let k = Box::new(AutoKey(key(b)));
    watch(&*k);
    drop(k);
}
#[inline(never)]
fn boxed_auto_scalar(b: &[u8; 32], wipe: bool) {
    if !wipe {
        return boxed_scalar(b, wipe);
    }
    let k = Box::new(AutoScalar(scalar(b)));
    watch(&*k);
}
#[inline(never)]
fn in_struct(b: &[u8; 32], wipe: bool) {
    let w = Box::new(Wallet { id: 0, key: key(b), used: 0 });
    watch(&w.key);
    if !wipe {
        let w = std::mem::ManuallyDrop::new(w);
        // release the memory without running the wipe
        unsafe { std::alloc::dealloc(&**w as *const Wallet as *mut u8, std::alloc::Layout::new::<Wallet>()) };
        return;
    }
    drop(w)
}
#[inline(never)]
fn in_arc(b: &[u8; 32], wipe: bool) {
    let mut a = Arc::new(key(b));
    watch(&*a);
    if wipe {
        Arc::get_mut(&mut a).unwrap().clear();
    }
}
#[inline(never)]
fn in_rc_cell(b: &[u8; 32], wipe: bool) {
    let a = Rc::new(std::cell::RefCell::new(key(b)));
    watch(&*a.borrow());
    if wipe {
        a.borrow_mut().clear();
    }
}
#[inline(never)]
fn in_option(b: &[u8; 32], wipe: bool) {
    let mut a = Box::new(Some(key(b)));
    watch(a.as_ref().as_ref().unwrap());
    if wipe {
        if let Some(k) = a.as_mut() {
            k.clear()
        }
    }
}
#[inline(never)]
fn in_map(b: &[u8; 32], wipe: bool) {
    let mut m = std::collections::BTreeMap::new();
    m.insert(7u32, key(b));
    watch(&m[&7]);
    if wipe {
        m.values_mut().for_each(|k| k.clear());
    }
}
#[inline(never)]
fn many_then_free(b: &[u8; 32], wipe: bool) {
    // wiped first, released in the middle of others
    let mut v: Vec<Box<SecretKey>> = (0..6).map(|_| Box::new(key(b))).collect();
    watch(&*v[3]);
    if wipe {
        for k in v.iter_mut() {
            k.clear();
        }
    }
    v.reverse();
}
#[inline(never)]
fn twice(b: &[u8; 32], wipe: bool) {
    let mut k = Box::new(key(b));
    if wipe {
        k.clear();
        *k = key(b);
    }
    watch(&*k);
    if wipe {
        k.clear();
    }
}
const CASES: [(&str, fn(&[u8; 32], bool)); 15] = [
    ("boxed_key", boxed_key),
    ("boxed_scalar", boxed_scalar),
    ("used_key", used_key),
    ("tweaked_key", tweaked_key),
    ("vec_of_keys", vec_of_keys),
    ("vec_auto", vec_auto),
    ("boxed_auto", boxed_auto),
    ("boxed_auto_scalar", boxed_auto_scalar),
    ("in_struct", in_struct),
    ("in_arc", in_arc),
    ("in_rc_cell", in_rc_cell),
    ("in_option", in_option),
    ("in_map", in_map),
    ("many_then_free", many_then_free),
    ("rewiped", twice),
];
/// stack placement: the value lives in a frame that is gone when the memory is read
#[inline(never)]
fn stack_key(b: &[u8; 32], wipe: bool) -> usize {
    let mut k = key(b);
    let (s, _) = sign(&Message::parse(&[5; 32]), black_box(&k));
    black_box(&s);
    unsafe { mem::watch(of(&k).0, 32) };
    mem::WATCH.store(0, SeqCst);
    let a = of(&k).0 as usize;
    if wipe {
        k.clear();
    }
    a
}
#[inline(never)]
fn stack_scalar(b: &[u8; 32], wipe: bool) -> usize {
    let mut k = scalar(b);
    let d = black_box(&k).b32();
    black_box(&d);
    unsafe { mem::watch(of(&k).0, 32) };
    mem::WATCH.store(0, SeqCst);
    let a = of(&k).0 as usize;
    if wipe {
        k.clear();
    }
    a
}
#[inline(never)]
fn stack_auto(b: &[u8; 32], wipe: bool) -> usize {
    if !wipe {
        return stack_key(b, false);
    }
    let k = AutoKey(key(b));
    unsafe { mem::watch(of(&k).0, 32) };
    mem::WATCH.store(0, SeqCst);
    of(&k).0 as usize
}
#[inline(always)]
fn peek(a: usize) -> [u8; 32] {
    let mut o = [0u8; 32];
    let mut i = 0;
    while i < 32 {
        o[i] = unsafe { std::ptr::read_volatile(black_box(a as *const u8).wrapping_add(i)) };
        i += 1;
    }
    o
}

fn main() {
    let seed = argn("--seed", 1);
    let n = argn("--n", 200);
    let out = arg("--out").unwrap_or("-".into());
    let mut r = Rep::new();
    let g = &mut Rng::new(seed, "wipe", 0);
    for i in 0..n {
        // every third secret has zero bytes; those are compared in place only
        let zeros = i >= 3 && i % 3 == 2;
        let b = if zeros { sparse(g, i / 3) } else { secret(g, i) };
        mem::needles_from(&if zeros { [0xa7; 32] } else { b });
        r.ev(if zeros { "secret_with_zero_bytes" } else { "secret_without_zero_bytes" });
        r.distinct.insert(rng::hash_bytes(&b));
        // reads as zero
        let mut k = key(&b);
        r.check(k.serialize() == b, "setup", || "key does not hold the secret".into());
        k.clear();
        r.check(k.is_zero() && k.serialize() == [0; 32], "reads", || format!("cleared key reads as {:02x?}", k.serialize()));
        let mut s = scalar(&b);
        s.clear();
        r.check(s.is_zero() && s.b32() == [0; 32], "reads", || format!("cleared scalar reads as {:02x?}", s.b32()));
        r.evn("reads_as_zero_after_wipe", 2);
        for (name, f) in CASES {
            if i < 3 {
                // the monitor must see the secret when it is not wiped
                f(&b, false);
                let (l, h) = (mem::LEFT.load(SeqCst), mem::FOUND.load(SeqCst));
                if l == u64::MAX || l < 32 || h == 0 {
                    eprintln!("HARNESS-ERROR {}: an unwiped secret was not seen ({} bytes, {} groups)", name, l, h);
                    std::process::exit(2);
                }
                r.seen("unwiped_secret_seen_by_monitor", 1);
            }
            f(&b, true);
            let (l, h) = (mem::LEFT.load(SeqCst), mem::FOUND.load(SeqCst));
            if l == u64::MAX {
                eprintln!("HARNESS-ERROR {}: release not observed", name);
                std::process::exit(2);
            }
            r.ev("memory_scanned_at_release");
            r.check(l == 0 && h == 0, "trace", || format!("{}: {} bytes and {} 4-byte groups of the wiped secret were in its memory when it was released", name, l, h));
        }
        if zeros {
            continue;
        }
        for (name, f) in [("stack_key", stack_key as fn(&[u8; 32], bool) -> usize), ("stack_scalar", stack_scalar), ("stack_auto", stack_auto)] {
            if i < 3 {
                let a = f(&b, false);
                let o = peek(a);
                let seen = unsafe { mem::left(o.as_ptr(), 32) };
                r.seen(if seen == 32 { "unwiped_secret_seen_by_monitor" } else { "stack_slot_reused_early" }, 1);
            }
            let a = f(&b, true);
            let o = peek(a);
            let l = unsafe { mem::left(o.as_ptr(), 32) };
            r.ev("stack_slot_scanned_after_return");
            r.check(l == 0, "trace", || format!("{}: {} bytes of the wiped secret were still in its stack slot after the function returned", name, l));
        }
    }
    if let Some(e) = mem::errors() {
        r.fail("heap", e);
    }
    r.samples.push(format!("{} secrets in {} placements each", n, CASES.len() + 3));
    r.finish(&out);
}
