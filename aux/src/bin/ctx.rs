//! C17: context construction. Modes: tables | fail
#![allow(dead_code)]
#[path = "../../../harness/src/gen.rs"]
mod gen;
#[path = "../../../harness/src/lib_api.rs"]
mod lib_api;
#[path = "../mem.rs"]
mod mem;
#[path = "../../../harness/src/model.rs"]
mod model;
#[path = "../rep.rs"]
mod rep;
#[path = "../../../harness/src/rng.rs"]
mod rng;
#[path = "../../../harness/src/u256.rs"]
mod u256;
use lib_api::*;
use libsecp256k1 as lib;
use libsecp256k1::curve::AffineStorage;
use rep::*;
use rng::Rng;
use std::sync::atomic::Ordering::SeqCst;
use u256::*;

#[global_allocator]
static A: mem::Mem = mem::Mem;

type Xy = (U, U);
fn ent(a: &AffineStorage) -> Xy {
    let a: Affine = a.clone().into();
    (feu(&a.x), feu(&a.y))
}
fn raw(a: &AffineStorage) -> [u32; 16] {
    let mut o = [0; 16];
    o[..8].copy_from_slice(&a.x.0);
    o[8..].copy_from_slice(&a.y.0);
    o
}

struct Want {
    odd: Vec<Xy>,
    /// multiples i * 16^j * G
    comb: Vec<model::Pt>,
}
fn want() -> Want {
    let k = model::k();
    // batch affine addition by running Jacobian adds and affine conversion in one inversion
    let g2 = model::mul_g(&U::from_u64(2));
    let j2 = model::Jac::of(&g2);
    let mut acc = vec![];
    let mut j = model::Jac::of(&model::g());
    for _ in 0..16384 {
        acc.push(j);
        j = j.add(&j2);
    }
    let odd = model::batch_aff(&acc).into_iter().map(|p| p.expect("finite")).collect();
    let mut comb = vec![];
    for j in 0..64 {
        for i in 0..16u64 {
            comb.push(model::mul_g(&k.fnn.mul(&U::from_u64(i), &k.fnn.red(&U::pow2(4 * j)))));
        }
    }
    Want { odd, comb }
}
fn check_odd(r: &mut Rep, name: &str, t: &[AffineStorage; 16384], w: &Want) {
    for i in 0..16384 {
        let e = ent(&t[i]);
        // stored entries must be reduced: the same words as the canonical ones
        let words = raw(&t[i]);
        let canon: Vec<u32> = e.0.words32().iter().chain(e.1.words32().iter()).cloned().collect();
        if e != w.odd[i] || words[..] != canon[..] {
            r.fail("table", format!("{}: pre_g[{}] is ({}, {}), must be {}G = ({}, {})", name, i, e.0.hex(), e.1.hex(), 2 * i + 1, w.odd[i].0.hex(), w.odd[i].1.hex()));
        }
    }
    r.evn("table_entry", 16384);
}
fn check_comb(r: &mut Rep, name: &str, t: &[[AffineStorage; 16]; 64], w: &Want) {
    for j in 0..64 {
        let b = ent(&t[j][0]);
        if !model::on_curve(&b.0, &b.1) {
            r.fail("table", format!("{}: prec[{}][0] is not on the curve", name, j));
        }
        for i in 0..16 {
            let e = ent(&t[j][i]);
            let exp = model::add(&Some(b), &w.comb[16 * j + i]);
            if Some(e) != exp {
                r.fail("table", format!("{}: prec[{}][{}] - prec[{}][0] is not {}*16^{}*G", name, j, i, j, i, j));
            }
        }
    }
    r.evn("table_entry", 1024);
}
/// all operations with one pair of contexts, against the model
fn ops(r: &mut Rep, name: &str, ec: &ECMultContext, gc: &ECMultGenContext, seed: u64, n: u64) {
    for c in 0..n {
        let mut g = Rng::new(seed, "C17ops", c);
        let d = gen::scalar(&mut g);
        let m = U::from_be(&gen::msg(&mut g));
        let (Some(key), ms) = (sk(&d), msg(&m)) else { continue };
        let p = PublicKey::from_secret_key_with_context(&key, gc);
        let pt = model::mul_g(&d);
        r.check(p.serialize() == model::ser65(&pt), "derive", || format!("{}: key {}", name, d.hex()));
        let (s, id) = lib::sign_with_context(&ms, &key, gc);
        let (wr, ws, wi) = model::sign(&d, &m);
        r.check(scu(&s.r) == wr && scu(&s.s) == ws && id.serialize() == wi, "sign", || format!("{}: key {} message {}", name, d.hex(), m.hex()));
        let ok = lib::verify_with_context(&ms, &sig(&wr, &ws), &p, ec);
        r.check(ok, "verify", || format!("{}: key {} message {}", name, d.hex(), m.hex()));
        let bad = lib::verify_with_context(&ms, &sig(&wr, &model::k().fnn.add(&ws, &ONE)), &p, ec);
        r.check(!bad, "verify", || format!("{}: forged accepted; key {} message {}", name, d.hex(), m.hex()));
        let q = lib::recover_with_context(&ms, &sig(&wr, &ws), &RecoveryId::parse(wi).unwrap(), ec);
        r.check(matches!(&q, Ok(q) if q.serialize() == model::ser65(&pt)), "recover", || format!("{}: key {} message {}", name, d.hex(), m.hex()));
        let t = gen::scalar(&mut g);
        if let Some(tk) = sk(&t) {
            let mut q = p;
            let res = q.tweak_add_assign_with_context(&tk, ec);
            let w = model::mul_g(&model::k().fnn.add(&d, &t));
            r.check(res.is_ok() == w.is_some() && (w.is_none() || q.serialize() == model::ser65(&w)), "tweak", || format!("{}: {} + {}", name, d.hex(), t.hex()));
            let e = lib::SharedSecret::<sha2::Sha256>::new_with_context(&p, &tk, ec);
            let w = model::sha256(&model::ser33(&model::mul(&pt, &t)));
            r.check(matches!(&e, Ok(e) if e.as_ref() == &w[..]), "ecdh", || format!("{}: {} x {}", name, d.hex(), t.hex()));
        }
        r.evn("operation_with_context", 7);
        r.distinct.insert(d.0[0] ^ m.0[1]);
    }
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let out = arg("--out").unwrap_or("-".into());
    let seed = argn("--seed", 1);
    if mode == "fail" {
        // child process: make the k-th allocation of one construction fail
        let what = arg("--what").unwrap();
        let k: i64 = arg("--k").map_or(0, |s| s.parse().unwrap());
        let w = if what.starts_with("lazy") { None } else { Some(want()) };
        let key = sk(&U::from_u64(7)).unwrap();
        std::hint::black_box(&key);
        mem::FILL.store(4, SeqCst);
        mem::FAIL_STICKY.store(argn("--sticky", 0) == 1, SeqCst);
        mem::FAIL_MIN.store(argn("--min", 0) as usize, SeqCst);
        mem::ALLOCS.store(0, SeqCst);
        mem::COUNT.store(true, SeqCst);
        mem::FAIL_IN.store(if k < 0 { 1 << 40 } else { k }, SeqCst);
        let off = || {
            mem::FAIL_IN.store(-1, SeqCst);
            mem::COUNT.store(false, SeqCst);
        };
        let mut r = Rep::new();
        match what.as_str() {
            "ecmult" => {
                let c = ECMultContext::new_boxed();
                off();
                check_odd(&mut r, "after failure", c.inspect_raw(), w.as_ref().unwrap());
            }
            "gen" => {
                let c = ECMultGenContext::new_boxed();
                off();
                check_comb(&mut r, "after failure", c.inspect_raw(), w.as_ref().unwrap());
            }
            // first use of the crate-provided context
            "lazygen" => {
                let p = PublicKey::from_secret_key(&key);
                off();
                r.check(p.serialize() == model::ser65(&model::mul_g(&U::from_u64(7))), "derive", || "wrong key after a failed allocation".into());
                r.ev("use");
            }
            _ => {
                let p = PublicKey::from_secret_key_with_context(&key, {
                    mem::FAIL_IN.store(-1, SeqCst);
                    boxed_gen()
                });
                mem::FAIL_IN.store(if k < 0 { 1 << 40 } else { k }, SeqCst);
                let ok = lib::verify(&msg(&ONE), &sig(&ONE, &ONE), &p);
                off();
                r.check(ok == model::ecdsa_verify(&ONE, &ONE, &ONE, &model::mul_g(&U::from_u64(7))), "verify", || "wrong verdict after a failed allocation".into());
                r.ev("use");
            }
        }
        println!("ALLOCS {} FAILED {}", mem::ALLOCS.load(SeqCst), mem::FAILED.load(SeqCst));
        r.finish("-");
    }
    let nops = argn("--ops", 40);
    let reps = argn("--reps", 1);
    let mut r = Rep::new();
    let w = want();
    // garbage from here on
    let e0 = ECMultContext::new_boxed();
    let g0 = ECMultGenContext::new_boxed();
    check_odd(&mut r, "built-in context", lib::ECMULT_CONTEXT.inspect_raw(), &w);
    check_comb(&mut r, "built-in context", lib::ECMULT_GEN_CONTEXT.inspect_raw(), &w);
    ops(&mut r, "built-in context", &lib::ECMULT_CONTEXT, &lib::ECMULT_GEN_CONTEXT, seed, nops);
    for fill in [0usize, 1, 2, 3, 4, 5].iter().cycle().take(6 * reps as usize) {
        let name = format!("heap context over memory filled with pattern {}", fill);
        mem::FILL.store(*fill, SeqCst);
        let e = ECMultContext::new_boxed();
        let g = ECMultGenContext::new_boxed();
        let e2 = if *fill == 4 { Some((ECMultContext::new_boxed(), ECMultGenContext::new_boxed())) } else { None };
        mem::FILL.store(0, SeqCst);
        check_odd(&mut r, &name, e.inspect_raw(), &w);
        check_comb(&mut r, &name, g.inspect_raw(), &w);
        let same = |a: &[[AffineStorage; 16]; 64], b: &[[AffineStorage; 16]; 64]| a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| raw(x) == raw(y));
        r.check(same(g.inspect_raw(), lib::ECMULT_GEN_CONTEXT.inspect_raw()), "differs", || format!("{}: generator table differs from the built-in one", name));
        r.check(same(g.inspect_raw(), g0.inspect_raw()), "differs", || format!("{}: generator table is not deterministic", name));
        let se = |a: &[AffineStorage; 16384], b: &[AffineStorage; 16384]| a.iter().zip(b.iter()).all(|(x, y)| raw(x) == raw(y));
        r.check(se(e.inspect_raw(), lib::ECMULT_CONTEXT.inspect_raw()), "differs", || format!("{}: table differs from the built-in one", name));
        r.check(se(e.inspect_raw(), e0.inspect_raw()), "differs", || format!("{}: table is not deterministic", name));
        r.evn("context_comparison", 4);
        ops(&mut r, &name, &e, &g, seed.wrapping_add(*fill as u64), nops);
        if let Some((e2, g2)) = e2 {
            ops(&mut r, "second heap context over other garbage", &e2, &g2, seed + 99, nops);
        }
        r.seen("heap_context_over_garbage", 1);
    }
    if let Some(e) = mem::errors() {
        r.fail("heap", e);
    }
    r.samples.push(format!("pre_g[12345] = {}G = {}", 2 * 12345 + 1, w.odd[12345].0.hex()));
    r.finish(&out);
}
