//! C01 verification, C02 signing, C03 recovery, C04 key derivation.
use super::prop;
use crate::gen::{self, P};
use crate::lib_api::*;
use crate::model::{self, k};
use crate::mon::*;
use crate::u256::*;
use libsecp256k1 as lib;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C01", "cases (m, r, s, Q): honest signatures and single-component mutations, signatures built backwards from a chosen nonce point (x >= n, r+n wrapping past p, special points), chosen (u1, u2) with Q a known small or endomorphism multiple of G, zero components, sums at infinity; the verdict of verify and verify_with_context is compared with the reference verifier; a case is non-trivial and distinct by the content of (m, r, s, Q)", (500, 60000), 0, c01),
        prop("C02", "cases (d, m) for sign and (d, m, k) for sign_raw with targeted s values ((n-1)/2 and neighbours, 0, 1, n-1); compared byte for byte with the reference RFC 6979 signer; distinct by content", (2400, 300000), 0, c02),
        prop("C03", "cases (m, r, s, id): honest, backwards from chosen nonce points incl. x >= n, r near p-n, x off the curve, zero components, infinity; the result is compared with the reference recovery, recovered keys are verified; distinct by content", (1000, 120000), 0, c03),
        prop("C04", "secret keys: systematic blocks hit every (window position, digit) pair of the blinded scalar, then biased random keys; both contexts and both serialisations compared with reference d*G; distinct by key", (3000, 300000), 16, c04),
    ]
}

fn judge_verify(cx: &mut Cx, kind: &'static str, m: &U, r: &U, s: &U, q: &P) {
    let Some(key) = any_route(&mut cx.rng, q) else {
        cx.seen("setup_skipped");
        return;
    };
    let want = model::ecdsa_verify(m, r, s, &q.pt());
    let (ms, sg) = (msg(m), sig(r, s));
    let got = lib::verify(&ms, &sg, &key);
    cx.ev(kind);
    cx.seen(if want { "verdict_true" } else { "verdict_false" });
    cx.nt(&[&m.be(), &r.be(), &s.be(), &q.x.be(), &q.y.be()]);
    let ctx = || format!("{} m={} r={} s={} Q=({},{})", kind, m.hex(), r.hex(), s.hex(), q.x.hex(), q.y.hex());
    cx.eq(got, want, "verify", ctx);
    if cx.rng.one_in(4) {
        let got = lib::verify_with_context(&ms, &sg, &key, boxed());
        cx.seen("heap_context");
        cx.eq(got, want, "verify_with_context", ctx);
    }
    cx.sample(ctx);
}

fn small_dl(cx: &mut Cx) -> U {
    let r = &mut cx.rng;
    let kk = k();
    let f = &kk.fnn;
    let b = U::from_u64(1 + r.below(33) as u64);
    let b = match r.below(6) {
        0 => f.mul(&b, &kk.lambda),
        1 => f.mul(&b, &f.sqr(&kk.lambda)),
        2 => f.inv(&b),
        3 => U::pow2(r.below(250)),
        _ => b,
    };
    if r.coin() {
        f.neg(&b)
    } else {
        b
    }
}

fn c01(cx: &mut Cx) {
    let kk = k();
    let f = &kk.fnn;
    for _ in 0..10 {
        // honest and mutated
        let d = gen::scalar(&mut cx.rng);
        let q = gen::from_dl(&d);
        let m = U::from_be(&gen::msg(&mut cx.rng));
        let nonce = gen::scalar(&mut cx.rng);
        if let Some((r, s, _)) = model::ecdsa_sign_raw(&d, &m, &nonce) {
            judge_verify(cx, "honest_low_s", &m, &r, &s, &q);
            judge_verify(cx, "honest_high_s", &m, &r, &f.neg(&s), &q);
            let mut t = (m, r, s, q);
            match cx.rng.below(9) {
                0 => t.0 = f.add(&m, &ONE),
                1 => t.1 = f.add(&r, &U::from_u64(1)),
                2 => t.2 = f.sub(&s, &ONE),
                3 => t.3 = q.neg(),
                4 => t.1 = f.neg(&r),
                5 => t.2 = gen::scalar(&mut cx.rng),
                6 => t.1 = f.mul(&r, &kk.beta),
                7 => t.0 = f.neg(&m),
                _ => {
                    let b = cx.rng.below(256);
                    let flip = |u: &U| {
                        let mut u = *u;
                        u.0[b / 64] ^= 1 << (b % 64);
                        f.red(&u)
                    };
                    match cx.rng.below(3) {
                        0 => t.0 = flip(&m),
                        1 => t.1 = flip(&r),
                        _ => t.2 = flip(&s),
                    }
                }
            }
            judge_verify(cx, "mutated", &t.0, &t.1, &t.2, &t.3);
        }
        // backwards from a nonce point
        let rp = gen::point(&mut cx.rng);
        backwards(cx, "backwards", &rp);
        // x in [n, p)
        let x = kk.n.wadd(&match cx.rng.below(4) {
            0 => U::from_u64(cx.rng.below(3000) as u64),
            1 => kk.p_minus_n.wsub(&U::from_u64(1 + cx.rng.below(3000) as u64)),
            _ => U::from_be(&cx.rng.b32()).mask(cx.rng.range(1, 128)),
        });
        let rp = gen::walk_x(&x, cx.rng.coin());
        backwards(cx, "x_at_least_n", &rp);
        // r + n wraps past p: the nonce point has x = r + n - p
        let xs = match cx.rng.below(3) {
            0 => U::from_u64(cx.rng.below(200) as u64),
            1 => U::from_be(&cx.rng.b32()).mask(cx.rng.range(1, 255)),
            _ => kk.n.wsub(&kk.p_minus_n).wsub(&U::from_u64(3 + cx.rng.below(100) as u64)).shr(cx.rng.below(3)),
        };
        let rp = gen::walk_x(&xs, cx.rng.coin());
        let r = rp.x.wadd(&kk.p_minus_n);
        if r.lt(&kk.n) {
            wrap(cx, &r, &rp);
        }
        // r + n where the x coordinate is r + n but r is at the boundary p - n
        let r = f.add(&kk.p_minus_n, &U::from_u64(cx.rng.below(5) as u64));
        let r = f.sub(&r, &U::from_u64(cx.rng.below(200) as u64));
        let x2 = kk.fp.red(&r.wadd(&kk.n));
        if let Some((x, y)) = model::lift_x(&x2, cx.rng.coin()) {
            wrap(cx, &r, &P { x, y, dl: None });
        }
        // chosen u1, u2 over a key with known small logarithm
        for _ in 0..3 {
            let q = small_dl(cx);
            let qp = gen::from_dl(&q);
            let u1 = gen::scalar0(&mut cx.rng);
            let mut u2 = gen::scalar(&mut cx.rng);
            match cx.rng.below(5) {
                0 => u2 = u1,
                1 => u2 = f.add(&f.mul(&u1, &f.inv(&q)), &U::from_u64(cx.rng.below(3) as u64)),
                2 => u2 = f.neg(&f.mul(&u1, &f.inv(&q))), // infinity
                3 => u2 = U::from_u64(1 + cx.rng.below(70) as u64),
                _ => {}
            }
            if u2.is_zero() {
                continue;
            }
            let u1 = if cx.rng.one_in(4) { U::from_u64(cx.rng.below(40) as u64) } else { u1 };
            let rr = match model::mul_g(&f.add(&u1, &f.mul(&u2, &q))) {
                Some((x, _)) => f.red(&x),
                None => gen::scalar(&mut cx.rng),
            };
            if rr.is_zero() {
                continue;
            }
            let s = f.mul(&rr, &f.inv(&u2));
            let m = f.mul(&u1, &s);
            judge_verify(cx, "chosen_u1_u2", &m, &rr, &s, &qp);
            if cx.rng.one_in(4) {
                judge_verify(cx, "chosen_u1_u2_opposite_key", &m, &rr, &s, &qp.neg());
            }
        }
        // infinity
        let (d, r, s) = (gen::scalar(&mut cx.rng), gen::scalar(&mut cx.rng), gen::scalar(&mut cx.rng));
        let q = gen::from_dl(&d);
        judge_verify(cx, "sum_at_infinity", &f.neg(&f.mul(&r, &d)), &r, &s, &q);
        // zero components
        let m = if cx.rng.coin() { ZERO } else { gen::scalar(&mut cx.rng) };
        judge_verify(cx, "zero_r", &m, &ZERO, &s, &q);
        judge_verify(cx, "zero_s", &m, &r, &ZERO, &q);
        if cx.rng.one_in(4) {
            judge_verify(cx, "zero_r_s", &m, &ZERO, &ZERO, &q);
        }
        // arbitrary
        let q = gen::point(&mut cx.rng);
        let (m, r, s) = (gen::scalar0(&mut cx.rng), gen::scalar0(&mut cx.rng), gen::scalar0(&mut cx.rng));
        judge_verify(cx, "arbitrary", &m, &r, &s, &q);
    }
}
fn backwards(cx: &mut Cx, kind: &'static str, rp: &P) {
    let f = &k().fnn;
    let r = f.red(&rp.x);
    if r.is_zero() {
        return;
    }
    let s = gen::scalar(&mut cx.rng);
    let m = if cx.rng.one_in(8) { ZERO } else { gen::scalar0(&mut cx.rng) };
    if let Some((x, y)) = model::key_for(&m, &r, &s, &rp.pt()) {
        judge_verify(cx, kind, &m, &r, &s, &P { x, y, dl: None });
    }
}
fn wrap(cx: &mut Cx, r: &U, rp: &P) {
    let s = gen::scalar(&mut cx.rng);
    let m = gen::scalar0(&mut cx.rng);
    if r.is_zero() {
        return;
    }
    if let Some((x, y)) = model::key_for(&m, r, &s, &rp.pt()) {
        judge_verify(cx, "r_plus_n_wraps", &m, r, &s, &P { x, y, dl: None });
    }
}

/// A generator context whose multiples are all shifted so that `nonce` is taken to the point `to`: the only way to
/// have sign_raw meet a nonce point whose x-coordinate is not below n.
fn shifted_context(nonce: &U, to: &model::Pt) -> Box<ECMultGenContext> {
    let mut t = *boxed_gen().inspect_raw();
    let shift = model::add(to, &model::mul_g(&k().fnn.neg(nonce)));
    for e in t[63].iter_mut() {
        if let Some((x, y)) = model::add(&affpt(&Affine::from(*e)), &shift) {
            *e = Affine::new(fe(&x), fe(&y)).into();
        }
    }
    Box::new(unsafe { ECMultGenContext::new_from_raw(t) })
}
fn nonce_point_above_order(cx: &mut Cx) {
    let kk = k();
    let t = match cx.rng.below(3) {
        0 => U::from_u64(1 + cx.rng.below(1000) as u64),
        1 => kk.p_minus_n.wsub(&U::from_u64(200 + cx.rng.below(1000) as u64)),
        _ => {
            let mut b = gen::raw(&mut cx.rng).be();
            b[..16].fill(0);
            U::from_be(&b)
        }
    };
    let h = gen::walk_x(&kk.n.wadd(&t), cx.rng.coin());
    if h.x.lt(&kk.n) || h.x == kk.n {
        return;
    }
    let nonce = gen::scalar(&mut cx.rng);
    let g = shifted_context(&nonce, &h.pt());
    for _ in 0..4 {
        let (d, m) = (gen::scalar(&mut cx.rng), gen::scalar0(&mut cx.rng));
        let want = model::ecdsa_sign_with(&d, &m, &nonce, &h.pt());
        let got = g.sign_raw(&sc(&d), &sc(&m), &sc(&nonce)).ok().map(|(a, b, c)| (scu(&a), scu(&b), c));
        cx.ev("nonce_point_above_order");
        cx.nt(&[b"o", &d.be(), &m.be(), &nonce.be(), &h.x.be()]);
        cx.eq(got, want, "sign_raw", || format!("nonce point with x = {} >= n: d={} m={} nonce={}", h.x.hex(), d.hex(), m.hex(), nonce.hex()));
    }
}

fn c02(cx: &mut Cx) {
    let kk = k();
    let f = &kk.fnn;
    // (an internal assertion holds such a point for impossible, which with the real generator it practically is)
    if !cfg!(debug_assertions) {
        nonce_point_above_order(cx);
    }
    for i in 0..24 {
        let d = gen::scalar(&mut cx.rng);
        let mb = gen::msg(&mut cx.rng);
        let m = U::from_be(&mb);
        let Some(key) = sk(&d) else {
            cx.seen("setup_skipped");
            continue;
        };
        let message = if cx.rng.coin() { lib::Message::parse(&mb) } else { msg(&m) };
        let (wr, ws, wid) = model::sign(&d, &m);
        let ctx = || format!("d={} m={}", d.hex(), m.hex());
        let (sg, id) = lib::sign(&message, &key);
        cx.ev(if m.lt(&kk.n) { "sign" } else { "sign_message_not_reduced" });
        cx.nt(&[b"s", &d.be(), &mb]);
        cx.eq((scu(&sg.r), scu(&sg.s), id.serialize()), (wr, ws, wid), "sign", ctx);
        if i % 4 == 0 {
            let (sg, id) = lib::sign_with_context(&message, &key, boxed_gen());
            cx.ev("sign_heap_context");
            cx.eq((scu(&sg.r), scu(&sg.s), id.serialize()), (wr, ws, wid), "sign_with_context", ctx);
        }
        cx.sample(|| format!("sign {} -> r={} s={} id={}", ctx(), wr.hex(), ws.hex(), wid));
        // caller-supplied nonce
        let nonce = gen::scalar(&mut cx.rng);
        let Some((x, _)) = model::mul_g(&nonce) else { continue };
        let r = f.red(&x);
        let (kind, m) = match cx.rng.below(6) {
            0 => ("nonce_s_zero", f.neg(&f.mul(&r, &d))),
            1 | 2 => {
                let t = U::from_u64(cx.rng.below(3) as u64);
                let s = match cx.rng.below(4) {
                    0 => f.add(&kk.half_n, &t),
                    1 => f.sub(&kk.half_n, &t),
                    2 => f.add(&ONE, &t),
                    _ => f.neg(&f.add(&ONE, &t)),
                };
                ("nonce_target_s", f.sub(&f.mul(&s, &nonce), &f.mul(&r, &d)))
            }
            3 => {
                let s = f.red(&gen::raw(&mut cx.rng));
                ("nonce_target_s", f.sub(&f.mul(&s, &nonce), &f.mul(&r, &d)))
            }
            4 => ("nonce_m_zero", ZERO),
            _ => ("nonce_any", gen::scalar0(&mut cx.rng)),
        };
        let want = model::ecdsa_sign_raw(&d, &m, &nonce);
        let g: &ECMultGenContext = if cx.rng.one_in(4) { boxed_gen() } else { &lib::ECMULT_GEN_CONTEXT };
        let got = g.sign_raw(&sc(&d), &sc(&m), &sc(&nonce)).ok().map(|(a, b, c)| (scu(&a), scu(&b), c));
        cx.ev(kind);
        cx.nt(&[b"n", &d.be(), &m.be(), &nonce.be()]);
        cx.eq(got, want, "sign_raw", || format!("{} d={} m={} nonce={}", kind, d.hex(), m.hex(), nonce.hex()));
    }
}

fn judge_recover(cx: &mut Cx, kind: &'static str, m: &U, r: &U, s: &U, id: u8) {
    let want = model::ecdsa_recover(m, r, s, id);
    let Ok(rid) = RecoveryId::parse(id) else {
        cx.seen("setup_skipped");
        return;
    };
    let (ms, sg) = (msg(m), sig(r, s));
    let heap = cx.rng.one_in(4);
    let got = if heap {
        cx.seen("heap_context");
        lib::recover_with_context(&ms, &sg, &rid, boxed())
    } else {
        lib::recover(&ms, &sg, &rid)
    };
    cx.ev(kind);
    cx.seen(if want.is_some() { "recovered" } else { "refused" });
    cx.nt(&[&m.be(), &r.be(), &s.be(), &[id]]);
    let ctx = || format!("{} m={} r={} s={} id={} heap={}", kind, m.hex(), r.hex(), s.hex(), id, heap);
    let gs = got.as_ref().ok().map(|q| q.serialize());
    if cx.eq(gs, want.map(|w| model::ser65(&Some(w))), "recover", ctx) {
        if let Ok(q) = got {
            let ok = q.serialize_compressed() == model::ser33(&want);
            cx.check(ok, "recovered key compressed", ctx);
            if cx.rng.one_in(3) {
                cx.check(lib::verify(&ms, &sg, &q), "recovered key does not verify", ctx);
                cx.seen("recovered_verified");
            }
        }
    }
    cx.sample(ctx);
}
fn c03(cx: &mut Cx) {
    let kk = k();
    let f = &kk.fnn;
    for _ in 0..10 {
        // honest, all ids
        let d = gen::scalar(&mut cx.rng);
        let m = U::from_be(&gen::msg(&mut cx.rng));
        if let Some(key) = sk(&d) {
            let (sg, id) = lib::sign(&msg(&m), &key);
            let (r, s) = (scu(&sg.r), scu(&sg.s));
            let got = lib::recover(&msg(&m), &sg, &id).ok().map(|q| q.serialize());
            cx.ev("sign_then_recover");
            cx.eq(got, Some(model::ser65(&model::mul_g(&d))), "id from sign", || format!("d={} m={}", d.hex(), m.hex()));
            let other = cx.rng.below(4) as u8;
            judge_recover(cx, "honest_any_id", &m, &r, &s, other);
            judge_recover(cx, "honest_high_s", &m, &r, &f.neg(&s), id.serialize() ^ 1);
        }
        // chosen nonce points
        let rp = gen::point(&mut cx.rng);
        let r = f.red(&rp.x);
        let s = gen::scalar(&mut cx.rng);
        let m = if cx.rng.one_in(6) { ZERO } else { gen::scalar0(&mut cx.rng) };
        for id in 0..4 {
            judge_recover(cx, "chosen_point", &m, &r, &s, id);
        }
        // small r: both x = r and x = r + n candidates
        let r = match cx.rng.below(4) {
            0 => U::from_u64(1 + cx.rng.below(3000) as u64),
            1 => kk.p_minus_n.wsub(&U::from_u64(cx.rng.below(3000) as u64)),
            2 => kk.p_minus_n.wadd(&U::from_u64(cx.rng.below(3000) as u64)),
            _ => U::from_be(&cx.rng.b32()).mask(cx.rng.range(1, 128)),
        };
        let s = gen::scalar(&mut cx.rng);
        let m = gen::scalar0(&mut cx.rng);
        for id in 0..4 {
            judge_recover(cx, "small_r", &m, &r, &s, id);
        }
        // r + n wraps to a valid x
        let xs = if cx.rng.coin() { U::from_u64(cx.rng.below(500) as u64) } else { gen::fe0(&mut cx.rng) };
        let r = gen::walk_x(&xs, false).x.wadd(&kk.p_minus_n);
        if r.lt(&kk.n) {
            let id = 2 + cx.rng.below(2) as u8;
            judge_recover(cx, "r_plus_n_wraps", &m, &r, &s, id);
        }
        // infinity: sR = mG
        let kn = gen::scalar(&mut cx.rng);
        if let Some((x, y)) = model::mul_g(&kn) {
            let r = f.red(&x);
            let id = (y.is_odd() as u8) | if x.lt(&kk.n) { 0 } else { 2 };
            judge_recover(cx, "result_at_infinity", &f.mul(&s, &kn), &r, &s, id);
            judge_recover(cx, "next_to_infinity", &f.mul(&s, &kn), &r, &s, id ^ 1);
            // chosen coefficients over a nonce point with small logarithm
            let q = small_dl(cx);
            let (x, y) = model::mul_g(&q).unwrap();
            let r = f.red(&x);
            if !r.is_zero() && x.lt(&kk.n) {
                let u2 = gen::scalar(&mut cx.rng);
                let u1 = if cx.rng.coin() { f.mul(&u2, &U::from_u64(cx.rng.below(5) as u64)) } else { gen::scalar0(&mut cx.rng) };
                judge_recover(cx, "chosen_u1_u2", &f.mul(&r, &u1), &r, &f.mul(&r, &u2), y.is_odd() as u8);
            }
        }
        // zero components
        let id = cx.rng.below(4) as u8;
        judge_recover(cx, "zero_r", &m, &ZERO, &s, id);
        judge_recover(cx, "zero_s", &m, &r, &ZERO, id);
        let (m, r, s) = (gen::scalar0(&mut cx.rng), gen::scalar0(&mut cx.rng), gen::scalar0(&mut cx.rng));
        judge_recover(cx, "arbitrary", &m, &r, &s, id);
    }
}

fn judge_derive(cx: &mut Cx, kind: &'static str, d: &U) {
    let Some(key) = sk(d) else {
        cx.seen("setup_skipped");
        return;
    };
    let want = model::mul_g(d);
    let ctx = || format!("{} d={}", kind, d.hex());
    let q = PublicKey::from_secret_key(&key);
    cx.ev(kind);
    cx.nt(&[&d.be()]);
    cx.eq(&q.serialize()[..], &model::ser65(&want)[..], "from_secret_key", ctx);
    cx.eq(&q.serialize_compressed()[..], &model::ser33(&want)[..], "from_secret_key compressed", ctx);
    if cx.rng.one_in(3) {
        let q2 = PublicKey::from_secret_key_with_context(&key, boxed_gen());
        cx.seen("heap_context");
        cx.eq(&q2.serialize()[..], &model::ser65(&want)[..], "from_secret_key_with_context", ctx);
        cx.check(q == q2, "contexts disagree", ctx);
    }
    if cx.rng.one_in(6) {
        if let Some(nk) = sk(&k().fnn.neg(d)) {
            let w = model::neg(&want);
            cx.seen("negated_key");
            cx.eq(&PublicKey::from_secret_key(&nk).serialize()[..], &model::ser65(&w)[..], "negated key", ctx);
        }
    }
    cx.sample(ctx);
}
fn c04(cx: &mut Cx) {
    let f = &k().fnn;
    let blind = U::from_words32(&gen::GEN_BLIND);
    if cx.block < 16 {
        // every window position with digit = block number, both of the scalar and of the
        // blinded scalar
        let dig = cx.block;
        for j in 0..64 {
            let base = f.red(&U::from_be(&cx.rng.b32()));
            let mut b = base;
            b.0[j / 16] &= !(15u64 << (4 * (j % 16)));
            b.0[j / 16] |= dig << (4 * (j % 16));
            let b = f.red(&b);
            if !b.is_zero() {
                judge_derive(cx, "digit_of_scalar", &b);
            }
            let d = f.sub(&b, &blind);
            if !d.is_zero() {
                judge_derive(cx, "digit_of_blinded_scalar", &d);
            }
            // single nonzero digit
            let one = f.red(&U::from_u64(dig).shl(4 * j));
            for d in [one, f.sub(&one, &blind)] {
                if !d.is_zero() {
                    judge_derive(cx, "single_digit", &d);
                }
            }
        }
        return;
    }
    for i in 0..60 {
        let d = match i % 5 {
            0 => f.sub(&f.red(&gen::raw(&mut cx.rng)), &blind),
            _ => gen::scalar(&mut cx.rng),
        };
        if !d.is_zero() {
            judge_derive(cx, "biased", &d);
        }
    }
}
