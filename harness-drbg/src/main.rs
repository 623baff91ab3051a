//! C02: which RFC 6979 candidates signing uses. The crate under test is linked with a copy of hmac-drbg
//! whose first outputs can be replaced, so that rejected candidates actually occur.
#![allow(dead_code, clippy::all)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../aux/src/rep.rs"]
mod rep;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/u256.rs"]
mod u256;
use hmac_drbg::tap;
use libsecp256k1 as lib;
use lib::curve::{ECMultGenContext, Scalar};
use model::k;
use rep::*;
use rng::Rng;
use u256::*;

fn sc(u: &U) -> Scalar {
    Scalar(u.words32())
}
fn main() {
    let seed = argn("--seed", 1);
    let n = argn("--n", 2000);
    let mut rep = Rep::new();
    let out = arg("--out").unwrap_or("-".into());
    let mut r = Rng::new(seed, "C02 candidates", 0);
    let boxed = ECMultGenContext::new_boxed();
    let f = &k().fnn;
    let max = ZERO.wsub(&ONE);
    for i in 0..n {
        let d = gen::scalar(&mut r);
        let mut m = gen::scalar0(&mut r);
        // candidates that must be skipped, then perhaps one that must be used
        let mut script: Vec<U> = vec![];
        let mut names = vec![];
        let nbad = match r.below(8) { 0 => 0, 1..=4 => 1, 5 => 2, 6 => 3, _ => 4 + r.below(12) };
        let mut zero_s: Option<U> = None;
        for _ in 0..nbad {
            let (nm, v) = match r.below(8) {
                0 | 1 => ("zero", ZERO),
                2 => ("n", k().n),
                3 => ("max", max),
                4 => ("just_above_n", k().n.wadd(&U::from_u64(1 + r.below(5) as u64))),
                5 => ("n_plus_something", k().n.wadd(&U::from_be(&r.b32()).mask(100))),
                6 => {
                    // a nonce that makes s zero: m = -r d; only one message per signature
                    let kk = zero_s.unwrap_or_else(|| gen::scalar(&mut r));
                    if zero_s.is_none() {
                        let rr = f.red(&model::mul_g(&kk).expect("finite").0);
                        m = f.neg(&f.mul(&rr, &d));
                        zero_s = Some(kk);
                    }
                    ("s_zero", kk)
                }
                _ => ("top", max.wsub(&U::from_be(&r.b32()).mask(64))),
            };
            names.push(nm);
            script.push(v);
        }
        let own = r.below(3) != 0 || script.is_empty();
        if !own {
            // an unusual but admissible candidate
            let v = match r.below(5) {
                0 => ONE,
                1 => k().n.wsub(&ONE),
                2 => k().half_n,
                _ => gen::scalar(&mut r),
            };
            if zero_s == Some(v) { continue }
            script.push(v);
        }
        let bytes: Vec<[u8; 32]> = script.iter().map(|v| v.be()).collect();
        // the generator's own candidates after as many steps
        let want = {
            let mut g = model::Rfc6979::new(&d.be(), &f.red(&m).be());
            let mut j = 0;
            loop {
                let o = U::from_be(&g.next());
                let c = if j < script.len() { script[j] } else { o };
                j += 1;
                if c.is_zero() || !c.lt(&k().n) { continue }
                if let Some(x) = model::ecdsa_sign_raw(&d, &m, &c) { break x }
            }
        };
        let key = lib::SecretKey::parse(&d.be()).expect("admissible key");
        let msg = lib::Message(sc(&f.red(&m)));
        tap::script(&bytes);
        let (sig, id) = if i % 3 == 0 { lib::sign_with_context(&msg, &key, &boxed) } else { lib::sign(&msg, &key) };
        let log = tap::log();
        tap::script(&[]);
        if log.is_empty() || log.iter().any(|x| x.1.len() != 32) {
            // the candidates are no longer drawn one by one from hmac-drbg: nothing can be replaced
            rep.seen("tap_inapplicable", 1);
            continue;
        }
        for nm in &names { rep.seen(&format!("rejected_{}", nm), 1) }
        rep.ev(if own { "own_candidate_after_rejections" } else { "replaced_candidate_used" });
        rep.seen("generator_outputs_observed", log.len() as u64);
        rep.distinct.insert(i);
        if rep.samples.len() < 6 { rep.samples.push(format!("rejected {:?}, then {}", names, if own { "own" } else { "replaced" })) }
        let got = (U::from_words32(&sig.r.0), U::from_words32(&sig.s.0), id.serialize());
        rep.check(got == want, "candidate", || format!("key {:x?} message {:x?}, generator outputs replaced by {:x?}: signature {:x?}, expected {:x?}", d.be(), m.be(), bytes, got, want));
    }
    rep.finish(&out)
}
