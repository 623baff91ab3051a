//! C22: secret-key operations, one after another, between markers that a memory tracer can see.
#![allow(dead_code)]
#[path = "../rep.rs"]
mod rep;
#[path = "../../../harness/src/rng.rs"]
mod rng;
use libsecp256k1::curve::{Affine, ECMultGenContext, Jacobian, Scalar};
use libsecp256k1::*;
use rep::*;
use rng::Rng;
use std::hint::black_box;
use std::io::{Read, Write};

#[repr(align(64))]
struct Marks([u8; 64]);
static mut MARKS: Marks = Marks([0; 64]);
#[inline(never)]
fn mark(i: usize) {
    unsafe { std::ptr::write_volatile((std::ptr::addr_of_mut!(MARKS) as *mut u8).add(i), 1) }
}
/// only a hint for choosing structured secrets: the additive blinding of the generator multiplication
const BLIND: [u32; 8] = [2217680822, 850875797, 1046150361, 1330484644, 4015777837, 2466086288, 2052467175, 2084507480];

fn be(d: [u32; 8]) -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..8 {
        b[28 - 4 * i..32 - 4 * i].copy_from_slice(&d[i].to_be_bytes());
    }
    b
}
fn scalar(b: &[u8; 32]) -> Scalar {
    let mut s = Scalar::default();
    let _ = bool::from(s.set_b32(b));
    s
}
/// secrets of many shapes; the first two of every list are plain random ones
fn secrets(seed: u64, shard: u64, n: usize) -> Vec<(String, [u8; 32])> {
    let mut r = Rng::new(seed, "c22 secrets", 0);
    let mut base: Vec<(String, [u8; 32])> = vec![];
    let mut push = |n: &str, b: [u8; 32]| base.push((n.into(), b));
    let order_less = |k: u8| {
        // n - k
        let mut b = be([0xD0364141, 0xBFD25E8C, 0xAF48A03B, 0xBAAEDCE6, 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFF]);
        b[31] -= k;
        b
    };
    let mut one = [0u8; 32];
    one[31] = 1;
    let mut two = [0u8; 32];
    two[31] = 2;
    let nb = -scalar(&be(BLIND));
    // d + blind has only zero digits / only one nonzero digit / only maximal digits
    for (name, v) in [("blinded-1", one), ("blinded-f", { let mut b = [0xff; 32]; b[0] = 0x7f; b }), ("blinded-0x88", [0x88; 32]), ("blinded-low-half", { let mut b = [0; 32]; b[16..].fill(0xff); b })] {
        push(name, (scalar(&v) + nb).b32());
    }
    push("1", one);
    push("n-1", order_less(1));
    push("2", two);
    push("n-2", order_less(2));
    push("0x11", [0x11; 32]);
    push("0xee", { let mut b = [0xee; 32]; b[0] = 0x0e; b });
    push("0xf0", { let mut b = [0xf0; 32]; b[0] = 0x70; b });
    push("high-bit", { let mut b = [0; 32]; b[0] = 0x80; b });
    push("low-bits", { let mut b = [0; 32]; b[16..].fill(0xff); b });
    push("high-bits", { let mut b = [0; 32]; b[0] = 0x7f; b[1..16].fill(0xff); b });
    push("half", order_less(1).iter().scan(0u8, |c, x| { let v = (*c << 7) | (x >> 1); *c = x & 1; Some(v) }).collect::<Vec<_>>().try_into().unwrap());
    // random secrets and the shapes interleave, so that every prefix has some of both
    let mut v = vec![];
    let mut i = 0;
    while v.len() < n.max(1) * 64 && v.len() < 4096 {
        if i % 3 == 2 || v.len() < 2 {
            let mut b = r.b32();
            b[0] &= 0x7f;
            v.push((format!("random{}", i), b));
        } else if !base.is_empty() {
            v.push(base.remove(0));
        } else {
            let mut b = r.b32();
            b[0] &= 0x7f;
            match r.u8() % 4 {
                0 => { let k = r.u8() as usize % 32; b[k..].fill(0); b[31] |= 1; }
                1 => { let k = r.u8() as usize % 31; b[..k].fill(0); b[31] |= 1; }
                2 => { let k = r.u8() as usize % 30 + 1; b[k] = 0; b[k + 1] = 0 }
                _ => { for x in b.iter_mut() { if r.u8() < 128 { *x = 0 } } b[31] |= 1; }
            }
            v.push((format!("sparse{}", i), b));
        }
        i += 1;
    }
    // shard k takes: the common reference secret, then its own share
    let mut out = vec![v[0].clone()];
    let rest = &v[1..];
    for j in 0..n {
        out.push(rest[(j * argn("--shards", 1) as usize + shard as usize) % rest.len()].clone());
    }
    out
}

fn main() {
    let seed = argn("--seed", 1);
    let op = arg("--op").expect("--op");
    let ss = secrets(seed, argn("--shard", 0), argn("--n", 4) as usize);
    let mut r = Rng::new(seed, "c22", 0);
    let msg = Message::parse(&r.b32());
    let key = { let mut b = r.b32(); b[0] &= 0x7f; SecretKey::parse(&b).unwrap() };
    let peer = { let mut b = r.b32(); b[0] &= 0x7f; PublicKey::from_secret_key(&SecretKey::parse(&b).unwrap()) };
    let peer_aff: Affine = peer.clone().into();
    let heap = op.ends_with("-heap");
    let bx = if heap { Some(ECMultGenContext::new_boxed()) } else { None };
    let gen: &ECMultGenContext = if let Some(b) = &bx { b } else { &ECMULT_GEN_CONTEXT };
    let t = gen.inspect_raw();
    // everything lazily initialised or resolved has to be so before the first marker
    let keys: Vec<SecretKey> = ss.iter().map(|(_, b)| SecretKey::parse(b).expect("admissible")).collect();
    println!("MARKS {:x}", std::ptr::addr_of!(MARKS) as usize);
    println!("TABLE {:x} {}", t.as_ptr() as usize, std::mem::size_of_val(t));
    for (n, b) in &ss {
        println!("SECRET {} {}", n, b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
    }
    println!("GO");
    std::io::stdout().flush().unwrap();
    let mut go = [0u8; 1];
    std::io::stdin().read_exact(&mut go).unwrap();
    let run = |k: &SecretKey| match op.as_str() {
        "derive" => { black_box(PublicKey::from_secret_key(black_box(k))); }
        "derive-heap" => { black_box(PublicKey::from_secret_key_with_context(black_box(k), black_box(gen))); }
        // the key is the secret
        "sign" => { black_box(sign(black_box(&msg), black_box(k))); }
        // the nonce is the secret
        "nonce" => { let nonce: Scalar = k.clone().into(); let sc: Scalar = key.clone().into(); let _ = black_box(gen.sign_raw(black_box(&sc), black_box(&msg.0), black_box(&nonce))); }
        "ecdh" => { black_box(SharedSecret::<sha2::Sha256>::new(black_box(&peer), black_box(k))).unwrap(); }
        "ecmult-const" => { let mut j = Jacobian::default(); let s: Scalar = k.clone().into(); ECMULT_CONTEXT.ecmult_const(&mut j, black_box(&peer_aff), black_box(&s)); black_box(j); }
        "gen" | "gen-heap" => { let mut j = Jacobian::default(); let s: Scalar = k.clone().into(); gen.ecmult_gen(&mut j, black_box(&s)); black_box(j); }
        // positive control: the variable-time multiplication
        "control" => { let mut j = Jacobian::default(); let a = Jacobian { x: peer_aff.x, y: peer_aff.y, z: libsecp256k1::curve::Field::from_int(1), infinity: false }; let s: Scalar = k.clone().into(); let z = Scalar::from_int(0); ECMULT_CONTEXT.ecmult(&mut j, black_box(&a), black_box(&s), &z); black_box(j); }
        _ => panic!("op"),
    };
    run(&key);
    for k in &keys {
        mark(0);
        run(k);
        mark(1);
    }
    mark(2);
}
