//! C24: values made by any sequence of operations are indistinguishable from freshly parsed ones.
//! Pools of library values travel through random operations without being serialised or rebuilt; each has a
//! model twin. Every result is judged against the model, most by using the value rather than by looking at it.
use super::keys::Tap;
use super::prop;
use crate::gen::{self, P};
use crate::lib_api::*;
use crate::model::{self, k};
use crate::mon::*;
use crate::u256::*;
use libsecp256k1 as lib;
use std::convert::TryFrom;

pub fn props() -> Vec<Prop> {
    vec![prop("C24", "random walks of 40 operations over pools of secret keys, public keys, signatures, messages and recovery ids, results feeding later operations unserialised (also after failed operations); every result and every pairwise equality compared with a model twin and with the freshly parsed value; distinct by walk state", (2500, 300000), 0, c24)]
}

type Pt = (U, U);
struct Pool {
    sks: Vec<(SecretKey, U, &'static str)>,
    pks: Vec<(PublicKey, Pt, &'static str)>,
    sigs: Vec<(Signature, (U, U), &'static str)>,
    msgs: Vec<(Message, U)>,
    rids: Vec<(RecoveryId, u8)>,
    shs: Vec<(lib::SharedSecret<sha2::Sha256>, [u8; 32])>,
}
fn fresh(p: &Pt) -> Option<PublicKey> {
    PublicKey::parse(&model::ser65(&Some(*p))).ok()
}
/// coordinate written as a sum of several field elements: unnormalised, of magnitude up to mag
fn loose(cx: &mut Cx, u: &U, mag: usize) -> Field {
    let f = &k().fp;
    if cx.rng.one_in(3) {
        // magnitude one, but not the canonical limbs
        let v = if u.lt(&f.c) && cx.rng.coin() { u.wadd(&k().p) } else { *u };
        let mut l = [0u32; 10];
        for (i, x) in l.iter_mut().enumerate() {
            *x = v.shr(26 * i).words32()[0] & 0x3ffffff;
        }
        for i in 1..10 {
            if cx.rng.coin() && l[i] > 0 && l[i - 1] < 0x3ffffff {
                l[i] -= 1;
                l[i - 1] += 1 << 26;
            }
        }
        return Field::new_raw(l[9], l[8], l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0]);
    }
    let n = cx.rng.range(1, mag);
    let mut acc = ZERO;
    let mut r: Option<Field> = None;
    for _ in 1..n {
        let t = gen::fe0(&mut cx.rng);
        acc = f.add(&acc, &t);
        let e = fe(&t);
        r = Some(match r {
            None => e,
            Some(mut s) => {
                s += e;
                s
            }
        });
    }
    let last = fe(&f.sub(u, &acc));
    match r {
        None => last,
        Some(mut s) => {
            s += last;
            s
        }
    }
}
fn put<T>(cx: &mut Cx, v: &mut Vec<T>, x: T) {
    if v.len() < 14 {
        v.push(x);
    } else {
        let i = cx.rng.below(v.len());
        v[i] = x;
    }
}
fn hexp(p: &Pt) -> String {
    hex(&model::ser33(&Some(*p)))
}

/// use the key (not necessarily by serialising it) and judge what comes out
fn observe_pk(cx: &mut Cx, q: &PublicKey, p: &Pt, from: &str, pool: &Pool) {
    let ctx = || format!("public key {} obtained by {}", hexp(p), from);
    let pt = Some(*p);
    match cx.rng.below(10) {
        0 => {
            cx.ev("use_serialize");
            cx.eq(q.serialize(), model::ser65(&pt), "serialize", ctx);
        }
        1 => {
            cx.ev("use_serialize_compressed");
            cx.eq(q.serialize_compressed(), model::ser33(&pt), "serialize_compressed", ctx);
        }
        2 => {
            let Some(f) = fresh(p) else {
                cx.fail("a valid key does not parse", ctx());
                return;
            };
            cx.ev("use_equality");
            cx.check(*q == f && f == *q && *q == *q && !(*q != f), "unequal to the freshly parsed key", ctx);
            // near misses
            let f2 = &k().fp;
            let b = k().beta;
            for w in [(p.0, f2.neg(&p.1)), (f2.mul(&p.0, &b), p.1), (f2.mul(&p.0, &f2.sqr(&b)), f2.neg(&p.1))] {
                if let Some(o) = fresh(&w) {
                    cx.check(*q != o && o != *q, "equal to a different key", || format!("{} vs {}", ctx(), hexp(&w)));
                }
            }
        }
        3 => {
            let a: Affine = (*q).into();
            cx.ev("use_affine");
            cx.check(affpt(&a) == pt && a.is_valid_var() && !a.is_infinity(), "affine value", ctx);
        }
        4 => {
            let s = cx.rng.pick(&pool.sks).clone();
            cx.ev("use_ecdh");
            let got = lib::SharedSecret::<Tap>::new(q, &s.0).ok().map(|x| x.as_ref().to_vec());
            cx.eq(got, Some(model::ser33(&model::mul(&pt, &s.1)).to_vec()), "ECDH", || format!("{} with {} by {}", ctx(), s.1.hex(), s.2));
        }
        5 => {
            let b64 = model::b64_encode(&model::ser65(&pt));
            cx.ev("use_json");
            cx.eq(serde_json::to_string(q).ok(), Some(format!("\"{}\"", b64)), "json", ctx);
        }
        6 => {
            // a signature valid for the key, built from it
            let (u, v) = (gen::scalar(&mut cx.rng), gen::scalar(&mut cx.rng));
            let f = &k().fnn;
            if let Some((x, _)) = model::dmul(&pt, &u, &v) {
                let r = f.red(&x);
                if !r.is_zero() {
                    let s = f.mul(&r, &f.inv(&u));
                    let m = f.mul(&s, &v);
                    let heap = cx.rng.one_in(3);
                    cx.ev("use_verify");
                    let g = if heap { lib::verify_with_context(&msg(&m), &sig(&r, &s), q, boxed()) } else { lib::verify(&msg(&m), &sig(&r, &s), q) };
                    cx.check(g, "a valid signature is refused", || format!("{} m={} r={} s={}", ctx(), m.hex(), r.hex(), s.hex()));
                    let m2 = f.add(&m, &ONE);
                    let want = model::ecdsa_verify(&m2, &r, &s, &pt);
                    cx.check(lib::verify(&msg(&m2), &sig(&r, &s), q) == want, "verdict on another message", ctx);
                }
            }
        }
        7 => {
            let o = cx.rng.pick(&pool.pks).clone();
            let neg = cx.rng.one_in(4);
            let w = if neg { (p.0, k().fp.neg(&p.1)) } else { o.1 };
            let Some(ok) = (if neg { fresh(&w) } else { Some(o.0) }) else { return };
            let want = model::add(&pt, &Some(w));
            cx.ev("use_combine");
            let got = PublicKey::combine(&[*q, ok]).map(|x| x.serialize()).map_err(|e| e);
            cx.eq(got, want.map(|w| model::ser65(&Some(w))).ok_or(Error::InvalidPublicKey), "combine", || format!("{} with {} by {}", ctx(), hexp(&w), o.2));
        }
        8 => {
            let s = cx.rng.pick(&pool.sks).clone();
            let mut t = *q;
            let add = cx.rng.coin();
            let heap = cx.rng.one_in(4);
            let r = match (add, heap) {
                (true, false) => t.tweak_add_assign(&s.0),
                (true, true) => t.tweak_add_assign_with_context(&s.0, boxed()),
                (false, false) => t.tweak_mul_assign(&s.0),
                (false, true) => t.tweak_mul_assign_with_context(&s.0, boxed()),
            };
            let want = if add { model::add(&pt, &model::mul_g(&s.1)) } else { model::mul(&pt, &s.1) };
            cx.ev("use_tweak");
            let w = match want {
                None => (Err(Error::TweakOutOfRange), model::ser65(&pt)),
                Some(_) => (Ok(()), model::ser65(&want)),
            };
            cx.eq((r, t.serialize()), w, "tweak", || format!("{} add={} with {} by {}", ctx(), add, s.1.hex(), s.2));
        }
        _ => {
            cx.ev("use_bincode");
            let mut enc = 65u64.to_le_bytes().to_vec();
            enc.extend_from_slice(&model::ser65(&pt));
            cx.eq(bincode::serialize(q).ok(), Some(enc), "bincode", ctx);
        }
    }
}
fn observe_sk(cx: &mut Cx, d: &SecretKey, u: &U, from: &str, pool: &Pool) {
    let ctx = || format!("secret key {} obtained by {}", u.hex(), from);
    match cx.rng.below(8) {
        0 => {
            cx.ev("use_secret_serialize");
            cx.eq(d.serialize(), u.be(), "serialize", ctx);
        }
        1 => {
            cx.ev("use_secret_hex");
            cx.eq(format!("{:x}", d), u.hex(), "hex", ctx);
        }
        2 => {
            let Some(f) = sk(u) else {
                cx.fail("a valid key does not parse", ctx());
                return;
            };
            cx.ev("use_secret_equality");
            cx.check(*d == f && f == *d && !(*d != f) && !d.is_zero(), "unequal to the freshly parsed key", ctx);
            let i = cx.rng.below(256);
            let o = if u.bit(i) { u.wsub(&U::pow2(i)) } else { u.wadd(&U::pow2(i)) };
            if let Some(o) = sk(&o) {
                cx.check(*d != o && o != *d, "equal to a different key", ctx);
            }
        }
        3 => {
            cx.ev("use_derive");
            let q = if cx.rng.one_in(3) { PublicKey::from_secret_key_with_context(d, boxed_gen()) } else { PublicKey::from_secret_key(d) };
            cx.eq(q.serialize(), model::ser65(&model::mul_g(u)), "derive", ctx);
        }
        4 => {
            let m = cx.rng.pick(&pool.msgs).clone();
            cx.ev("use_sign");
            let (s, i) = if cx.rng.one_in(3) { lib::sign_with_context(&m.0, d, boxed_gen()) } else { lib::sign(&m.0, d) };
            let w = model::sign(u, &m.1);
            cx.eq((scu(&s.r), scu(&s.s), i.serialize()), w, "sign", || format!("{} m={}", ctx(), m.1.hex()));
        }
        5 => {
            let s: Scalar = (*d).into();
            cx.ev("use_secret_scalar");
            cx.check(scu(&s) == *u, "scalar value", ctx);
        }
        6 => {
            cx.ev("use_inverse");
            cx.eq(d.inv().serialize(), k().fnn.inv(u).be(), "inverse", ctx);
        }
        _ => {
            let q = cx.rng.pick(&pool.pks).clone();
            cx.ev("use_secret_ecdh");
            let got = lib::SharedSecret::<Tap>::new(&q.0, d).ok().map(|x| x.as_ref().to_vec());
            cx.eq(got, Some(model::ser33(&model::mul(&Some(q.1), u)).to_vec()), "ECDH", || format!("{} with {} by {}", ctx(), hexp(&q.1), q.2));
        }
    }
}
fn observe_sig(cx: &mut Cx, s: &Signature, v: &(U, U), from: &str, pool: &Pool) {
    let ctx = || format!("signature r={} s={} obtained by {}", v.0.hex(), v.1.hex(), from);
    match cx.rng.below(6) {
        0 => {
            let mut b = v.0.be().to_vec();
            b.extend_from_slice(&v.1.be());
            cx.ev("use_sig_serialize");
            cx.eq(s.serialize().to_vec(), b, "serialize", ctx);
        }
        1 => {
            cx.ev("use_sig_der");
            cx.eq(s.serialize_der().as_ref().to_vec(), model::der_encode(&v.0, &v.1), "serialize_der", ctx);
        }
        2 => {
            cx.ev("use_sig_equality");
            let mut b = [0u8; 64];
            b[..32].copy_from_slice(&v.0.be());
            b[32..].copy_from_slice(&v.1.be());
            let f = Signature::parse_standard(&b);
            cx.check(f.as_ref().ok() == Some(s) && f.map(|f| *s == f && !(*s != f)) == Ok(true), "unequal to the freshly parsed signature", ctx);
            for w in [(v.1, v.0), (v.0, k().fnn.neg(&v.1)), (k().fnn.neg(&v.0), v.1)] {
                if w != *v {
                    let o = sig(&w.0, &w.1);
                    cx.check(*s != o && o != *s, "equal to a different signature", ctx);
                }
            }
        }
        3 => {
            let (m, q) = (cx.rng.pick(&pool.msgs).clone(), cx.rng.pick(&pool.pks).clone());
            cx.ev("use_sig_verify");
            let want = model::ecdsa_verify(&m.1, &v.0, &v.1, &Some(q.1));
            let got = if cx.rng.one_in(3) { lib::verify_with_context(&m.0, s, &q.0, boxed()) } else { lib::verify(&m.0, s, &q.0) };
            cx.eq(got, want, "verify", || format!("{} m={} key {} by {}", ctx(), m.1.hex(), hexp(&q.1), q.2));
        }
        4 => {
            let mut t = *s;
            t.normalize_s();
            let n = k().fnn.neg(&v.1);
            let want = if v.1.cmp(&k().half_n) == std::cmp::Ordering::Greater { n } else { v.1 };
            cx.ev("use_sig_normalize");
            cx.eq((scu(&t.r), scu(&t.s)), (v.0, want), "normalize_s", ctx);
        }
        _ => {
            let (m, i) = (cx.rng.pick(&pool.msgs).clone(), cx.rng.pick(&pool.rids).clone());
            cx.ev("use_sig_recover");
            let want = model::ecdsa_recover(&m.1, &v.0, &v.1, i.1);
            let got = if cx.rng.one_in(3) { lib::recover_with_context(&m.0, s, &i.0, boxed()) } else { lib::recover(&m.0, s, &i.0) };
            let ok = match (&got, &want) {
                (Ok(q), Some(_)) => q.serialize() == model::ser65(&want),
                (Err(_), None) => true,
                _ => false,
            };
            cx.check(ok, "recover", || format!("{} m={} id={} got {:02x?}", ctx(), m.1.hex(), i.1, got.map(|q| q.serialize_compressed())));
        }
    }
}

fn step(cx: &mut Cx, po: &mut Pool) {
    let f = &k().fnn;
    let s = cx.rng.pick(&po.sks).clone();
    let t = cx.rng.pick(&po.sks).clone();
    let q = cx.rng.pick(&po.pks).clone();
    let m = cx.rng.pick(&po.msgs).clone();
    let g = cx.rng.pick(&po.sigs).clone();
    let rid = cx.rng.pick(&po.rids).clone();
    let heap = cx.rng.one_in(4);
    match cx.rng.below(24) {
        // ---- secret keys
        0 => {
            let mut a = s.0;
            let add = cx.rng.coin();
            let (r, w) = if add { (a.tweak_add_assign(&t.0), f.add(&s.1, &t.1)) } else { (a.tweak_mul_assign(&t.0), f.mul(&s.1, &t.1)) };
            let w = if w.is_zero() {
                cx.ev("secret_tweak_failed");
                cx.check(r == Err(Error::TweakOutOfRange), "vanishing tweak accepted", || s.1.hex());
                s.1
            } else {
                cx.ev("secret_tweaked");
                cx.check(r.is_ok(), "tweak refused", || format!("{} {}", s.1.hex(), t.1.hex()));
                w
            };
            put(cx, &mut po.sks, (a, w, "tweak"));
        }
        1 => {
            cx.ev("secret_inverted");
            put(cx, &mut po.sks, (s.0.inv(), f.inv(&s.1), "inv"));
        }
        2 => {
            // through the raw scalar
            let a: Scalar = s.0.into();
            let b: Scalar = t.0.into();
            let (x, w) = match cx.rng.below(4) {
                0 => (a + b, f.add(&s.1, &t.1)),
                1 => (a * b, f.mul(&s.1, &t.1)),
                2 => (-a, f.neg(&s.1)),
                _ => (a, s.1),
            };
            let r = SecretKey::try_from(x);
            cx.ev("secret_from_scalar");
            cx.check(r.is_ok() != w.is_zero(), "conversion of a scalar", || w.hex());
            if let (Ok(d), false) = (r, w.is_zero()) {
                put(cx, &mut po.sks, (d, w, "scalar"));
            }
        }
        3 => {
            // opposite of a pooled key: makes later tweaks vanish
            let w = f.neg(&s.1);
            if let Some(d) = sk(&w) {
                cx.ev("secret_parsed");
                put(cx, &mut po.sks, (d, w, "parse"));
            }
        }
        4 => {
            let r = SecretKey::parse_slice(&s.0.serialize()[..]);
            cx.ev("secret_reparsed");
            let d = cx.must(r, "reparse secret", || s.1.hex());
            put(cx, &mut po.sks, (d, s.1, "parse_slice"));
        }
        // ---- public keys
        5 | 6 => {
            let d = if heap { PublicKey::from_secret_key_with_context(&s.0, boxed_gen()) } else { PublicKey::from_secret_key(&s.0) };
            let w = model::mul_g(&s.1).unwrap();
            cx.ev("derived");
            put(cx, &mut po.pks, (d, w, "derivation"));
        }
        7 | 8 => {
            let mut a = q.0;
            let r = if heap { a.tweak_add_assign_with_context(&s.0, boxed()) } else { a.tweak_add_assign(&s.0) };
            let w = model::add(&Some(q.1), &model::mul_g(&s.1));
            cx.ev(if w.is_none() { "public_tweak_failed" } else { "public_tweaked" });
            cx.check(r.is_ok() == w.is_some(), "public tweak", || format!("{} by {} t={} {:?}", hexp(&q.1), q.2, s.1.hex(), r));
            put(cx, &mut po.pks, (a, w.unwrap_or(q.1), "tweak_add"));
        }
        9 => {
            let mut a = q.0;
            let r = if heap { a.tweak_mul_assign_with_context(&s.0, boxed()) } else { a.tweak_mul_assign(&s.0) };
            cx.ev("public_multiplied");
            cx.check(r.is_ok(), "public tweak_mul", || format!("{} by {} t={}", hexp(&q.1), q.2, s.1.hex()));
            put(cx, &mut po.pks, (a, model::mul(&Some(q.1), &s.1).unwrap(), "tweak_mul"));
        }
        10 | 11 => {
            let n = cx.rng.range(1, 5);
            let (mut v, mut w) = (vec![], None);
            for _ in 0..n {
                let x = cx.rng.pick(&po.pks).clone();
                v.push(x.0);
                w = model::add(&w, &Some(x.1));
            }
            let r = PublicKey::combine(&v);
            cx.ev(if w.is_none() { "combine_failed" } else { "combined" });
            cx.check(r.is_ok() == w.is_some(), "combine", || format!("{} keys", n));
            if let (Ok(a), Some(w)) = (r, w) {
                put(cx, &mut po.pks, (a, w, "combine"));
            }
        }
        12 => {
            // opposite of a pooled key, unnormalised, through the raw type
            let a: Affine = q.0.into();
            let r = PublicKey::try_from(a.neg());
            cx.ev("negated");
            let a = cx.must(r, "try_from", || hexp(&q.1));
            put(cx, &mut po.pks, (a, (q.1 .0, k().fp.neg(&q.1 .1)), "negated affine"));
        }
        13 => {
            // same point, coordinates in loose representation
            let mag = 8;
            let a = Affine { x: loose(cx, &q.1 .0, mag), y: loose(cx, &q.1 .1, mag), infinity: false };
            let r = PublicKey::try_from(a);
            cx.ev("loose_affine");
            let a = cx.must(r, "try_from", || hexp(&q.1));
            put(cx, &mut po.pks, (a, q.1, "loose affine"));
        }
        14 => {
            let r = match cx.rng.below(5) {
                0 => PublicKey::parse(&q.0.serialize()),
                1 => PublicKey::parse_compressed(&q.0.serialize_compressed()),
                2 => PublicKey::parse_slice(&q.0.serialize()[1..], None),
                3 => serde_json::to_string(&q.0).ok().and_then(|s| serde_json::from_str(&s).ok()).ok_or(Error::InvalidPublicKey),
                _ => bincode::serialize(&q.0).ok().and_then(|s| bincode::deserialize(&s).ok()).ok_or(Error::InvalidPublicKey),
            };
            cx.ev("reparsed");
            let a = cx.must(r, "reparse", || format!("{} by {}", hexp(&q.1), q.2));
            put(cx, &mut po.pks, (a, q.1, "reparse"));
        }
        15 => {
            let p = P { x: q.1 .0, y: q.1 .1, dl: None };
            let w = *cx.rng.pick(&[0usize, 1, 2, 3, 4, 6, 7, 8, 9]);
            if let Some(a) = route(&mut cx.rng, &p, w) {
                cx.ev("other_route");
                put(cx, &mut po.pks, (a, q.1, ROUTES[w]));
            }
        }
        16 => {
            let p = gen::point(&mut cx.rng);
            if let Some(a) = pk(&p) {
                cx.ev("special_point");
                put(cx, &mut po.pks, (a, (p.x, p.y), "parse"));
            }
        }
        // ---- signatures
        17 | 18 => {
            let (a, i) = if heap { lib::sign_with_context(&m.0, &s.0, boxed_gen()) } else { lib::sign(&m.0, &s.0) };
            let (r, w, id) = model::sign(&s.1, &m.1);
            cx.ev("signed");
            put(cx, &mut po.sigs, (a, (r, w), "sign"));
            put(cx, &mut po.rids, (i, id));
            // the key that verifies it, recovered
            let b = if cx.rng.coin() { lib::recover_with_context(&m.0, &a, &i, boxed()) } else { lib::recover(&m.0, &a, &i) };
            cx.ev("recovered");
            let b = cx.must(b, "recover own signature", || format!("d={} m={}", s.1.hex(), m.1.hex()));
            put(cx, &mut po.pks, (b, model::mul_g(&s.1).unwrap(), "recovery"));
            cx.ev("verified");
            cx.check(lib::verify(&m.0, &a, &b), "own signature refused", || format!("d={} m={}", s.1.hex(), m.1.hex()));
        }
        19 => {
            let mut a = g.0;
            a.normalize_s();
            let n = f.neg(&g.1 .1);
            let w = if g.1 .1.cmp(&k().half_n) == std::cmp::Ordering::Greater { n } else { g.1 .1 };
            cx.ev("sig_normalised");
            put(cx, &mut po.sigs, (a, (g.1 .0, w), "normalize_s"));
        }
        20 => {
            // components through scalar arithmetic
            let (r, w) = match cx.rng.below(3) {
                0 => (Signature { r: g.0.r, s: -g.0.s }, (g.1 .0, f.neg(&g.1 .1))),
                1 => (Signature { r: g.0.r, s: g.0.s * s.0.into() }, (g.1 .0, f.mul(&g.1 .1, &s.1))),
                _ => (Signature { r: g.0.s, s: g.0.r }, (g.1 .1, g.1 .0)),
            };
            cx.ev("sig_built");
            put(cx, &mut po.sigs, (r, w, "components"));
        }
        21 => {
            let r = match cx.rng.below(4) {
                0 => Signature::parse_standard(&g.0.serialize()),
                1 => Signature::parse_overflowing_slice(&g.0.serialize()),
                2 => Signature::parse_der(g.0.serialize_der().as_ref()),
                _ => Signature::parse_der_lax(g.0.serialize_der().as_ref()),
            };
            cx.ev("sig_reparsed");
            let a = cx.must(r, "reparse signature", || format!("{} {}", g.1 .0.hex(), g.1 .1.hex()));
            put(cx, &mut po.sigs, (a, g.1, "reparse"));
        }
        // ---- messages, recovery ids, secrets
        22 => {
            let b = gen::msg(&mut cx.rng);
            let w = f.red(&U::from_be(&b));
            cx.ev("message");
            let x = match cx.rng.below(3) {
                0 => Message::parse(&b),
                1 => {
                    let r = Message::parse_slice(&b);
                    cx.must(r, "message", || hex(&b))
                }
                _ => Message(sc(&w)),
            };
            let y = Message::parse(&w.be());
            cx.check(x == y && y == x, "messages unequal", || hex(&b));
            cx.check((x == m.0) == (w == m.1), "message equality", || hex(&b));
            cx.eq(x.serialize(), w.be(), "message serialize", || hex(&b));
            put(cx, &mut po.msgs, (x, w));
            let i = cx.rng.below(4) as u8;
            let r = if cx.rng.coin() { RecoveryId::parse(i) } else { RecoveryId::parse_rpc(i + 27) };
            let r = cx.must(r, "recovery id", || format!("{}", i));
            cx.check((r == rid.0) == (i == rid.1), "recovery id equality", || format!("{} {}", i, rid.1));
            put(cx, &mut po.rids, (r, i));
        }
        _ => {
            let r = if heap { lib::SharedSecret::<sha2::Sha256>::new_with_context(&q.0, &s.0, boxed()) } else { lib::SharedSecret::new(&q.0, &s.0) };
            let w = model::sha256(&model::ser33(&model::mul(&Some(q.1), &s.1)));
            cx.ev("shared");
            let a = cx.must(r, "shared secret", || format!("{} {}", hexp(&q.1), s.1.hex()));
            cx.eq(a.as_ref().to_vec(), w.to_vec(), "shared secret", || format!("{} by {} d={} by {}", hexp(&q.1), q.2, s.1.hex(), s.2));
            cx.eq(a.clone().as_ref().to_vec(), w.to_vec(), "clone of a shared secret", || hex(&w));
            put(cx, &mut po.shs, (a, w));
        }
    }


}
fn pairwise(cx: &mut Cx, po: &Pool) {
    for (i, a) in po.pks.iter().enumerate() {
        for b in &po.pks[i..] {
            cx.ev("pair_of_public_keys");
            if a.1 == b.1 {
                cx.seen("pair_equal");
            }
            let w = a.1 == b.1;
            cx.check((a.0 == b.0) == w && (b.0 == a.0) == w && (a.0 != b.0) != w, "equality of public keys", || format!("{} by {} and {} by {}", hexp(&a.1), a.2, hexp(&b.1), b.2));
        }
    }
    for (i, a) in po.sks.iter().enumerate() {
        for b in &po.sks[i..] {
            cx.ev("pair_of_secret_keys");
            cx.check((a.0 == b.0) == (a.1 == b.1) && (b.0 == a.0) == (a.1 == b.1), "equality of secret keys", || format!("{} by {} and {} by {}", a.1.hex(), a.2, b.1.hex(), b.2));
        }
    }
    for (i, a) in po.sigs.iter().enumerate() {
        for b in &po.sigs[i..] {
            cx.ev("pair_of_signatures");
            cx.check((a.0 == b.0) == (a.1 == b.1) && (b.0 == a.0) == (a.1 == b.1), "equality of signatures", || format!("{:?} by {} and {:?} by {}", a.1, a.2, b.1, b.2));
        }
    }
}
fn c24(cx: &mut Cx) {
    let mut po = Pool { sks: vec![], pks: vec![], sigs: vec![], msgs: vec![], rids: vec![], shs: vec![] };
    po.sks.push((SecretKey::default(), ONE, "default"));
    while po.sks.len() < 3 {
        let d = gen::scalar(&mut cx.rng);
        let Some(s) = sk(&d) else { continue };
        po.sks.push((s, d, "parse"));
    }
    for _ in 0..2 {
        let p = gen::point(&mut cx.rng);
        match pk(&p) {
            Some(q) => po.pks.push((q, (p.x, p.y), "parse")),
            None => {
                cx.fail("a valid key does not parse", format!("{} {}", p.x.hex(), p.y.hex()));
                return;
            }
        }
        let b = gen::msg(&mut cx.rng);
        po.msgs.push((Message::parse(&b), k().fnn.red(&U::from_be(&b))));
        let (r, s) = (gen::scalar(&mut cx.rng), gen::scalar(&mut cx.rng));
        po.sigs.push((sig(&r, &s), (r, s), "components"));
    }
    for i in 0..4u8 {
        let r = RecoveryId::parse(i);
        let r = cx.must(r, "recovery id", || format!("{}", i));
        po.rids.push((r, i));
    }
    for i in 0..40 {
        step(cx, &mut po);
        let (a, b, c) = (cx.rng.pick(&po.pks).clone(), cx.rng.pick(&po.sks).clone(), cx.rng.pick(&po.sigs).clone());
        match cx.rng.below(6) {
            0 | 1 => observe_pk(cx, &a.0, &a.1, a.2, &po),
            2 => observe_sk(cx, &b.0, &b.1, b.2, &po),
            3 => observe_sig(cx, &c.0, &c.1, c.2, &po),
            _ => {}
        }
        if i % 10 == 9 {
            cx.nt(&[&a.1 .0.be(), &b.1.be(), &c.1 .0.be()]);
        }
        if !cx.viols.is_empty() {
            return;
        }
    }
    pairwise(cx, &po);
    let (pks, sks, sigs) = (po.pks.clone(), po.sks.clone(), po.sigs.clone());
    for a in &pks {
        observe_pk(cx, &a.0, &a.1, a.2, &po);
        cx.ev("final_public");
        cx.eq(a.0.serialize(), model::ser65(&Some(a.1)), "serialize", || format!("{} by {}", hexp(&a.1), a.2));
        cx.eq(a.0.serialize_compressed(), model::ser33(&Some(a.1)), "serialize_compressed", || format!("{} by {}", hexp(&a.1), a.2));
    }
    for a in &sks {
        observe_sk(cx, &a.0, &a.1, a.2, &po);
        cx.ev("final_secret");
        cx.eq(a.0.serialize(), a.1.be(), "serialize", || format!("{} by {}", a.1.hex(), a.2));
    }
    for a in &sigs {
        observe_sig(cx, &a.0, &a.1, a.2, &po);
        cx.ev("final_signature");
        cx.check(scu(&a.0.r) == a.1 .0 && scu(&a.0.s) == a.1 .1, "signature components", || format!("{:?} by {}", a.1, a.2));
    }
    for a in &po.shs {
        cx.ev("final_shared");
        cx.eq(a.0.as_ref().to_vec(), a.1.to_vec(), "pooled shared secret", String::new);
    }
    cx.sample(|| format!("walk of 40 operations ending with {} public keys, {} secrets, {} signatures; one key {} by {}", po.pks.len(), po.sks.len(), po.sigs.len(), hexp(&po.pks[0].1), po.pks[0].2));
}
