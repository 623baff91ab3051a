//! C10 ECDH, C11 tweaks, C12 combination.
use super::prop;
use crate::gen::{self, P};
use crate::lib_api::*;
use crate::model::{self, k};
use crate::mon::*;
use crate::u256::*;
use digest::generic_array::{typenum::U33, GenericArray};
use libsecp256k1 as lib;
use secp256k1 as c;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C10", "pairs (Q, d) with biased d and special Q (small and endomorphism multiples, extreme coordinates, ten origin routes), digests SHA-224/256/384/512 and a transparent digest that exposes the exact bytes hashed; compared with the reference and, for SHA-256, the C library; both parties compared; distinct by (Q, d)", (1800, 200000), 0, c10),
        prop("C11", "triples (d, t, Q) with sums that vanish, wrap or collide; secret and public tweaks with both contexts compared with the reference, commuting square checked, operands compared before and after failures; distinct by content", (1200, 140000), 0, c11),
        prop("C12", "lists of 0..=200 keys (enumerated lengths up to 66,000) with duplicates, opposites, endomorphism images, vanishing prefixes and totals, in shuffled orders and groupings; result compared with the reference group sum; distinct by list", (1500, 180000), 1, c12),
    ]
}

/// digest whose output is exactly what was fed in: makes the hashed bytes observable
#[derive(Clone, Default)]
pub struct Tap(Vec<u8>);
impl digest::Update for Tap {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref());
    }
}
impl digest::FixedOutput for Tap {
    type OutputSize = U33;
    fn finalize_into(self, out: &mut GenericArray<u8, U33>) {
        out.copy_from_slice(&fit(&self.0));
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U33>) {
        out.copy_from_slice(&fit(&self.0));
        self.0.clear();
    }
}
fn fit(v: &[u8]) -> [u8; 33] {
    let mut o = [0xEEu8; 33];
    if v.len() == 33 {
        o.copy_from_slice(v);
    }
    o
}
impl digest::Reset for Tap {
    fn reset(&mut self) {
        self.0.clear();
    }
}

fn dh<D: digest::Digest + Default>(cx: &mut Cx, q: &PublicKey, s: &SecretKey, heap: bool) -> Option<Vec<u8>> {
    let r = if heap {
        cx.seen("heap_context");
        lib::SharedSecret::<D>::new_with_context(q, s, boxed())
    } else {
        lib::SharedSecret::<D>::new(q, s)
    };
    r.ok().map(|x| x.as_ref().to_vec())
}
fn h<D: digest::Digest>(b: &[u8]) -> Vec<u8> {
    D::digest(b).to_vec()
}
fn c10(cx: &mut Cx) {
    let f = &k().fnn;
    for i in 0..24 {
        let p = gen::point(&mut cx.rng);
        let mut d = gen::scalar(&mut cx.rng);
        if cx.rng.one_in(3) {
            // small, near n, around powers of two, both parities
            let t = U::from_u64(1 + cx.rng.below(70) as u64);
            d = match cx.rng.below(4) {
                0 => t,
                1 => f.neg(&t),
                2 => f.add(&U::pow2(cx.rng.below(256)), &t),
                _ => f.sub(&U::pow2(cx.rng.below(256)), &t),
            };
            if d.is_zero() {
                d = ONE;
            }
        }
        let (Some(q), Some(key)) = (any_route(&mut cx.rng, &p), sk(&d)) else {
            cx.seen("setup_skipped");
            continue;
        };
        let want = model::ser33(&model::mul(&p.pt(), &d));
        let ctx = || format!("Q=({},{}) d={}", p.x.hex(), p.y.hex(), d.hex());
        cx.nt(&[&p.x.be(), &p.y.be(), &d.be()]);
        let heap = cx.rng.one_in(3);
        cx.ev("hashed_bytes");
        let got = dh::<Tap>(cx, &q, &key, heap);
        cx.eq(got, Some(want.to_vec()), "bytes hashed", ctx);
        let got = dh::<sha2::Sha256>(cx, &q, &key, heap);
        cx.ev("sha256");
        cx.eq(got.clone(), Some(model::sha256(&want).to_vec()), "sha256 secret", ctx);
        match i % 4 {
            0 => {
                cx.ev("sha512");
                let g = dh::<sha2::Sha512>(cx, &q, &key, heap);
                cx.eq(g, Some(h::<sha2::Sha512>(&want)), "sha512 secret", ctx);
            }
            1 => {
                cx.ev("sha224");
                let g = dh::<sha2::Sha224>(cx, &q, &key, heap);
                cx.eq(g, Some(h::<sha2::Sha224>(&want)), "sha224 secret", ctx);
            }
            2 => {
                cx.ev("sha384");
                let g = dh::<sha2::Sha384>(cx, &q, &key, heap);
                cx.eq(g, Some(h::<sha2::Sha384>(&want)), "sha384 secret", ctx);
            }
            _ => {
                // the C library as second oracle
                let cq = c::PublicKey::from_slice(&model::ser65(&p.pt())).unwrap();
                let cs = c::SecretKey::from_slice(&d.be()).unwrap();
                let w = c::ecdh::SharedSecret::new(&cq, &cs);
                cx.ev("c_library");
                cx.eq(got, Some(w[..].to_vec()), "C library secret", ctx);
            }
        }
        // both parties
        if i % 3 == 0 {
            let e = gen::scalar(&mut cx.rng);
            if let Some(ek) = sk(&e) {
                let (qa, qb) = (PublicKey::from_secret_key(&key), PublicKey::from_secret_key(&ek));
                cx.ev("both_parties");
                let (a, b) = (dh::<sha2::Sha256>(cx, &qb, &key, false), dh::<sha2::Sha256>(cx, &qa, &ek, heap));
                cx.check(a.is_some() && a == b, "the two parties disagree", || format!("d={} e={}", d.hex(), e.hex()));
            }
        }
        // wiped key
        if i % 8 == 0 {
            let mut z = key;
            z.clear();
            cx.ev("wiped_key");
            let r = if heap {
                lib::SharedSecret::<sha2::Sha256>::new_with_context(&q, &z, boxed()).err()
            } else {
                lib::SharedSecret::<sha2::Sha256>::new(&q, &z).err()
            };
            cx.eq(r, Some(Error::InvalidSecretKey), "wiped key", ctx);
        }
        cx.sample(ctx);
    }
}

fn c11(cx: &mut Cx) {
    let f = &k().fnn;
    for i in 0..20 {
        let d = gen::scalar(&mut cx.rng);
        let t = match cx.rng.below(10) {
            0 | 1 => f.neg(&d),
            2 => d,
            3 => f.sub(&ONE, &d),
            4 => f.neg(&f.add(&d, &ONE)),
            5 => f.neg(&f.muli(&d, 2)),
            6 => f.inv(&d),
            7 => ONE,
            _ => gen::scalar(&mut cx.rng),
        };
        let (Some(key), false) = (sk(&d), t.is_zero()) else { continue };
        let zero_tweak = cx.rng.one_in(12);
        let Some(mut tw) = sk(&t) else { continue };
        let mut t = t;
        if zero_tweak {
            tw.clear();
            t = ZERO;
        }
        let p = gen::from_dl(&d);
        let Some(q) = any_route(&mut cx.rng, &p) else {
            cx.seen("setup_skipped");
            continue;
        };
        let ctx = || format!("d={} t={}", d.hex(), t.hex());
        cx.nt(&[&d.be(), &t.be()]);
        // secret, additive
        let sum = f.add(&d, &t);
        let mut a = key;
        let r = a.tweak_add_assign(&tw);
        cx.ev(if sum.is_zero() { "add_vanishes" } else { "add" });
        let want = if sum.is_zero() { (Err(Error::TweakOutOfRange), d) } else { (Ok(()), sum) };
        cx.eq((r, U::from_be(&a.serialize())), want, "secret tweak_add", ctx);
        // secret, multiplicative
        let mut b = key;
        let r = b.tweak_mul_assign(&tw);
        let want = if t.is_zero() { (Err(Error::TweakOutOfRange), d) } else { (Ok(()), f.mul(&d, &t)) };
        cx.ev(if t.is_zero() { "mul_by_zero" } else { "mul" });
        cx.eq((r, U::from_be(&b.serialize())), want, "secret tweak_mul", ctx);
        cx.check(tw.serialize() == t.be() && key.serialize() == d.be(), "operand modified", ctx);
        // public
        let heap = cx.rng.one_in(3);
        pub_tweak(cx, &p, &q, &t, &tw, heap);
        // the two ways round
        if !sum.is_zero() {
            let mut q2 = q;
            let ok = q2.tweak_add_assign(&tw).is_ok();
            cx.ev("commutes_add");
            cx.check(ok && q2 == PublicKey::from_secret_key(&a), "tweak then derive != derive then tweak", ctx);
        }
        if !t.is_zero() {
            let mut q2 = q;
            let ok = q2.tweak_mul_assign(&tw).is_ok();
            cx.ev("commutes_mul");
            cx.check(ok && q2 == PublicKey::from_secret_key(&b), "tweak then derive != derive then tweak (mul)", ctx);
        }
        // arbitrary points and small-logarithm points, chains
        if i % 2 == 0 {
            let p = gen::point(&mut cx.rng);
            if let Some(q) = any_route(&mut cx.rng, &p) {
                pub_tweak(cx, &p, &q, &t, &tw, heap);
            }
            if let Some(dl) = p.dl {
                // vanishing and colliding tweaks for the special point
                for t in [f.neg(&dl), dl, f.neg(&f.add(&dl, &dl))] {
                    if let (Some(q), Some(tw)) = (pk(&p), sk(&t)) {
                        pub_tweak(cx, &p, &q, &t, &tw, heap);
                    }
                }
            }
        }
        cx.sample(ctx);
    }
}
fn pub_tweak(cx: &mut Cx, p: &P, q: &PublicKey, t: &U, tw: &SecretKey, heap: bool) {
    let before = model::ser65(&p.pt());
    let ctx = || format!("Q=({},{}) t={} heap={}", p.x.hex(), p.y.hex(), t.hex(), heap);
    if heap {
        cx.seen("heap_context");
    }
    let want = model::Jac::of(&p.pt()).add(&model::mul_g_j(t)).aff();
    let mut a = *q;
    let r = if heap { a.tweak_add_assign_with_context(tw, boxed()) } else { a.tweak_add_assign(tw) };
    cx.ev(if want.is_none() { "public_add_vanishes" } else { "public_add" });
    cx.nt(&[&before, &t.be()]);
    let w = match want {
        None => (Err(Error::TweakOutOfRange), before),
        Some(_) => (Ok(()), model::ser65(&want)),
    };
    cx.eq((r, a.serialize()), w, "public tweak_add", ctx);
    let mut b = *q;
    let r = if heap { b.tweak_mul_assign_with_context(tw, boxed()) } else { b.tweak_mul_assign(tw) };
    let w = if t.is_zero() { (Err(Error::TweakOutOfRange), before) } else { (Ok(()), model::ser65(&model::mul(&p.pt(), t))) };
    cx.ev(if t.is_zero() { "public_mul_by_zero" } else { "public_mul" });
    cx.eq((r, b.serialize()), w, "public tweak_mul", ctx);
    cx.check(q.serialize() == before && tw.serialize() == t.be(), "operand modified", ctx);
}

fn judge_combine(cx: &mut Cx, kind: &'static str, ps: &[P]) -> Option<PublicKey> {
    let mut ks = vec![];
    for p in ps {
        match any_route(&mut cx.rng, p) {
            Some(q) => ks.push(q),
            None => {
                cx.seen("setup_skipped");
                return None;
            }
        }
    }
    let mut s = model::Jac::inf();
    let mut inter_inf = false;
    for (i, p) in ps.iter().enumerate() {
        s = s.add(&model::Jac::of(&p.pt()));
        if i + 1 < ps.len() && s.is_inf() {
            inter_inf = true;
        }
    }
    let want = s.aff();
    let got = PublicKey::combine(&ks);
    cx.ev(kind);
    cx.seen(if want.is_some() { "finite_sum" } else { "sum_at_infinity" });
    if inter_inf {
        cx.seen("intermediate_infinity");
    }
    let enc: Vec<u8> = ps.iter().flat_map(|p| model::ser33(&p.pt()).to_vec()).collect();
    cx.nt(&[&enc]);
    let ctx = || format!("{} keys=[{}]", kind, ps.iter().map(|p| hex(&model::ser33(&p.pt()))).collect::<Vec<_>>().join(","));
    let w = want.map(|x| model::ser65(&Some(x))).ok_or(Error::InvalidPublicKey);
    cx.eq(got.as_ref().map(|q| q.serialize()).map_err(|e| *e), w, "combine", ctx);
    for (q, p) in ks.iter().zip(ps) {
        if q.serialize() != model::ser65(&p.pt()) {
            cx.fail("combine modified its input", ctx());
        }
    }
    cx.sample(ctx);
    got.ok()
}
fn related(cx: &mut Cx, p: &P) -> P {
    let kk = k();
    let b2 = kk.fp.sqr(&kk.beta);
    let l2 = kk.fnn.sqr(&kk.lambda);
    let q = match cx.rng.below(5) {
        0 => *p,
        1 => P { x: kk.fp.mul(&p.x, &kk.beta), y: p.y, dl: p.dl.map(|d| kk.fnn.mul(&d, &kk.lambda)) },
        2 => P { x: kk.fp.mul(&p.x, &b2), y: p.y, dl: p.dl.map(|d| kk.fnn.mul(&d, &l2)) },
        3 => match model::add(&p.pt(), &p.pt()) {
            Some((x, y)) => P { x, y, dl: None },
            None => *p,
        },
        _ => *p,
    };
    if cx.rng.coin() {
        q.neg()
    } else {
        q
    }
}
fn c12(cx: &mut Cx) {
    if cx.block == 0 {
        judge_combine(cx, "empty", &[]);
        for n in [1usize, 2, 3, 17, 64, 200] {
            let p = gen::from_dl(&U::from_u64(7));
            judge_combine(cx, "repeated", &vec![p; n]);
            let mut v = vec![];
            for i in 0..n {
                v.push(gen::from_dl(&U::from_u64(1 + i as u64)));
            }
            judge_combine(cx, "ascending_multiples", &v);
            v.reverse();
            judge_combine(cx, "ascending_multiples", &v);
        }
        very_long_lists(cx);
        return;
    }
    for _ in 0..16 {
        // short related lists
        let n = *cx.rng.pick(&[1usize, 2, 2, 2, 3, 3, 4, 5, 8]);
        let first = gen::point(&mut cx.rng);
        let mut v = vec![first];
        while v.len() < n {
            let base = *cx.rng.pick(&v);
            let p = if cx.rng.one_in(3) { gen::point(&mut cx.rng) } else { related(cx, &base) };
            v.push(p);
        }
        // sometimes force the running or total sum to a chosen relation with the next key
        if cx.rng.coin() {
            let s = v.iter().fold(model::Jac::inf(), |a, p| a.add(&model::Jac::of(&p.pt()))).aff();
            if let Some((x, y)) = s {
                let q = P { x, y, dl: None };
                let q = match cx.rng.below(3) {
                    0 => q.neg(),
                    _ => related(cx, &q),
                };
                v.push(q);
                for _ in 0..cx.rng.below(3) {
                    v.push(gen::point(&mut cx.rng));
                }
            }
        }
        judge_combine(cx, "list", &v);
        // order
        for i in (1..v.len()).rev() {
            v.swap(i, cx.rng.below(i + 1));
        }
        let whole = judge_combine(cx, "shuffled", &v);
        // grouping
        if v.len() >= 2 && whole.is_some() {
            let cut = cx.rng.range(1, v.len() - 1);
            let part = |ps: &[P]| -> Option<PublicKey> {
                let ks: Option<Vec<PublicKey>> = ps.iter().map(pk).collect();
                PublicKey::combine(&ks?).ok()
            };
            if let (Some(a), Some(b)) = (part(&v[..cut]), part(&v[cut..])) {
                cx.ev("grouped");
                let g = PublicKey::combine(&[a, b]).ok();
                cx.check(g == whole, "grouping changes the sum", || format!("cut={} keys=[{}]", cut, v.iter().map(|p| hex(&model::ser33(&p.pt()))).collect::<Vec<_>>().join(",")));
            }
        }
    }
    if cx.rng.one_in(4) {
        let n = cx.rng.range(10, 60);
        let v: Vec<P> = (0..n).map(|_| gen::point(&mut cx.rng)).collect();
        judge_combine(cx, "long_list", &v);
    }
    if cx.rng.one_in(3) {
        structured_list(cx);
    }
}
/// lists long enough for a counter or index of one or two octets to wrap
fn very_long_lists(cx: &mut Cx) {
    let f = &k().fnn;
    let base: Vec<(PublicKey, U)> = (0..97)
        .filter_map(|_| {
            let d = gen::scalar(&mut cx.rng);
            Some((pk(&gen::from_dl(&d))?, d))
        })
        .collect();
    if base.len() < 97 {
        cx.seen("setup_skipped");
        return;
    }
    let mut lens = vec![128usize, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 66000];
    if cx.tier == Tier::Thorough {
        lens.extend([131072, 262145, 1 << 20]);
    }
    for n in lens {
        for kind in 0..3 {
            let (mut v, mut s) = (vec![], ZERO);
            for i in 0..n {
                let (q, d) = match kind {
                    0 => base[0],
                    1 => base[i % 97],
                    _ => base[cx.rng.below(97)],
                };
                v.push(q);
                s = f.add(&s, &d);
            }
            let want = model::mul_g(&s);
            cx.ev("very_long_list");
            let w = want.map(|x| model::ser65(&Some(x))).ok_or(Error::InvalidPublicKey);
            cx.eq(PublicKey::combine(&v).map(|q| q.serialize()), w, "combine of a very long list", || format!("{} keys, kind {}", n, kind));
            // the total cancelled by the last key, then by the last but one
            if let Some(q) = model::mul_g(&f.neg(&s)).and_then(|x| PublicKey::parse(&model::ser65(&Some(x))).ok()) {
                v.push(q);
                cx.ev("very_long_list_vanishing");
                cx.eq(PublicKey::combine(&v).map(|q| q.serialize()), Err(Error::InvalidPublicKey), "combine of a very long vanishing list", || format!("{} keys, kind {}", n + 1, kind));
                v.push(base[5].0);
                let w = model::ser65(&model::mul_g(&base[5].1));
                cx.eq(PublicKey::combine(&v).map(|q| q.serialize()), Ok(w), "combine of a very long list with a vanishing prefix", || format!("{} keys, kind {}", n + 2, kind));
            }
        }
    }
}
/// A long list made of equally long groups whose sums vanish, repeat, or oppose the sum so far, in list order or
/// with the groups interleaved: whatever way a list is split up, some split meets such sums.
fn structured_list(cx: &mut Cx) {
    let g = *cx.rng.pick(&[2usize, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 10, 12, 15, 16, 16, 20, 24, 25, 31, 32, 32, 33, 50, 64, 64, 100, 128]);
    let k = cx.rng.range(1, (160 / g).clamp(1, 12));
    let pool: Vec<P> = (0..6).map(|_| gen::point(&mut cx.rng)).collect();
    let mut v: Vec<P> = vec![];
    let mut total = model::Jac::inf();
    let mut last = model::Jac::inf();
    for _ in 0..k {
        let kind = cx.rng.below(6);
        let mut s = model::Jac::inf();
        for _ in 1..g {
            let mut p = *cx.rng.pick(&pool);
            if cx.rng.one_in(3) {
                p = related(cx, &p);
            }
            s = s.add(&model::Jac::of(&p.pt()));
            v.push(p);
        }
        let want = match kind {
            0 | 1 => model::Jac::inf(),
            2 => total,
            3 => model::Jac::of(&model::neg(&total.aff())),
            4 => last,
            _ => model::Jac::of(&model::neg(&last.aff())),
        };
        let p = match want.add(&model::Jac::of(&model::neg(&s.aff()))).aff() {
            Some((x, y)) => P { x, y, dl: None },
            None => *cx.rng.pick(&pool),
        };
        v.push(p);
        s = s.add(&model::Jac::of(&p.pt()));
        if s.aff().is_none() {
            cx.seen("group_sum_infinite");
        }
        total = total.add(&s);
        last = s;
    }
    match cx.rng.below(4) {
        0 => {
            // interleave the groups
            let w: Vec<P> = (0..v.len()).map(|i| v[(i % k) * g + i / k]).collect();
            v = w;
        }
        1 => v.reverse(),
        _ => {}
    }
    for _ in 0..*cx.rng.pick(&[0usize, 0, 1, 1, 2, 5]) {
        v.push(gen::point(&mut cx.rng));
    }
    judge_combine(cx, "structured_list", &v);
}
