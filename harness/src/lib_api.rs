//! Conversions between model values and values of the crate under test.
use crate::gen::P;
use crate::model::{self, k};
use crate::rng::Rng;
use crate::u256::*;
use libsecp256k1 as lib;
pub use lib::curve::{Affine, ECMultContext, ECMultGenContext, Field, Jacobian, Scalar};
pub use lib::{Error, Message, PublicKey, PublicKeyFormat, RecoveryId, SecretKey, Signature};
use std::convert::TryFrom;
use std::sync::OnceLock;

pub fn sc(u: &U) -> Scalar {
    Scalar(u.words32())
}
pub fn scu(s: &Scalar) -> U {
    U::from_words32(&s.0)
}
pub fn fe(u: &U) -> Field {
    let w = u.words32();
    Field::new(w[7], w[6], w[5], w[4], w[3], w[2], w[1], w[0])
}
pub fn feu(f: &Field) -> U {
    let mut f = *f;
    f.normalize();
    U::from_be(&f.b32())
}
pub fn aff(p: &P) -> Affine {
    Affine::new(fe(&p.x), fe(&p.y))
}
/// model point denoted by an Affine
pub fn affpt(a: &Affine) -> model::Pt {
    if a.infinity {
        None
    } else {
        Some((feu(&a.x), feu(&a.y)))
    }
}
/// model point denoted by a Jacobian
pub fn jacpt(a: &Jacobian) -> model::Pt {
    if a.infinity {
        return None;
    }
    let f = &k().fp;
    let zi = f.inv(&feu(&a.z));
    let zi2 = f.sqr(&zi);
    Some((f.mul(&feu(&a.x), &zi2), f.mul(&feu(&a.y), &f.mul(&zi, &zi2))))
}
pub fn sk(d: &U) -> Option<SecretKey> {
    SecretKey::parse(&d.be()).ok()
}
pub fn sig(r: &U, s: &U) -> Signature {
    Signature { r: sc(r), s: sc(s) }
}
pub fn msg(m: &U) -> Message {
    Message(sc(&k().fnn.red(m)))
}
pub fn pk(p: &P) -> Option<PublicKey> {
    PublicKey::parse(&model::ser65(&p.pt())).ok()
}
pub fn boxed() -> &'static ECMultContext {
    static C: OnceLock<Box<ECMultContext>> = OnceLock::new();
    C.get_or_init(ECMultContext::new_boxed)
}
pub fn boxed_gen() -> &'static ECMultGenContext {
    static C: OnceLock<Box<ECMultGenContext>> = OnceLock::new();
    C.get_or_init(ECMultGenContext::new_boxed)
}
pub const ROUTES: [&str; 10] = [
    "route_parse_full", "route_hybrid", "route_raw", "route_compressed", "route_affine", "route_derive",
    "route_tweak_add", "route_tweak_mul", "route_combine", "route_recover",
];
/// obtain a key for point p by one of the ways the API offers; None when that way failed
pub fn route(r: &mut Rng, p: &P, which: usize) -> Option<PublicKey> {
    let f = &k().fnn;
    let full = model::ser65(&p.pt());
    Some(match which {
        0 => PublicKey::parse(&full).ok()?,
        1 => {
            let mut b = full;
            b[0] = 6 + p.y.is_odd() as u8;
            PublicKey::parse(&b).ok()?
        }
        2 => PublicKey::parse_slice(&full[1..], if r.coin() { None } else { Some(PublicKeyFormat::Raw) }).ok()?,
        3 => PublicKey::parse_compressed(&model::ser33(&p.pt())).ok()?,
        4 => {
            let a = match r.below(3) {
                0 => aff(p),
                1 => {
                    let mut a = Affine::default();
                    if !a.set_xo_var(&fe(&p.x), p.y.is_odd()) {
                        return None;
                    }
                    a
                }
                _ => aff(&p.neg()).neg(),
            };
            PublicKey::try_from(a).ok()?
        }
        5 => PublicKey::from_secret_key(&sk(&p.dl?)?),
        6 => {
            let t = crate::gen::scalar(r);
            let base = model::Jac::of(&p.pt()).add(&model::mul_g_j(&f.neg(&t))).aff();
            let mut q = PublicKey::parse(&model::ser65(&Some(base?))).ok()?;
            q.tweak_add_assign(&sk(&t)?).ok()?;
            q
        }
        7 => {
            let t = crate::gen::scalar(r);
            let base = model::mul(&p.pt(), &f.inv(&t));
            let mut q = PublicKey::parse(&model::ser65(&Some(base?))).ok()?;
            q.tweak_mul_assign(&sk(&t)?).ok()?;
            q
        }
        8 => {
            let a = crate::gen::point(r);
            let b = model::add(&p.pt(), &a.neg().pt());
            let ka = pk(&a)?;
            match b {
                None => PublicKey::combine(&[ka]).ok()?,
                Some(_) => PublicKey::combine(&[ka, PublicKey::parse(&model::ser65(&b)).ok()?]).ok()?,
            }
        }
        _ => {
            // r^-1 (s R - m G) = P  with R = uP + vG
            let (u, v) = (crate::gen::scalar(r), crate::gen::scalar0(r));
            let rp = model::dmul(&p.pt(), &u, &v);
            let (x, y) = rp?;
            let (rr, over) = if x.lt(&k().n) { (x, 0) } else { (x.wsub(&k().n), 2) };
            if rr.is_zero() {
                return None;
            }
            // s u = r, m = s v
            let s = f.mul(&rr, &f.inv(&u));
            let m = f.mul(&s, &v);
            lib::recover(&msg(&m), &sig(&rr, &s), &RecoveryId::parse(over | y.is_odd() as u8).ok()?).ok()?
        }
    })
}
/// key for p by a random route, falling back to plain parsing when the route went wrong
pub fn any_route(r: &mut Rng, p: &P) -> Option<PublicKey> {
    let w = r.below(12);
    if w < 10 {
        if let Some(q) = route(r, p, w) {
            if q.serialize()[..] == model::ser65(&p.pt())[..] {
                return Some(q);
            }
        }
    }
    pk(p)
}
