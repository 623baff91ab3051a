//! C14 field arithmetic, C15 scalar arithmetic, C16 group law and multiplication routines:
//! differential monitors against the reference model, over every representation the
//! magnitude contract admits.
use super::prop;
use crate::gen::{self, P};
use crate::lib_api::*;
use crate::model::{self, k, Pt};
use crate::mon::*;
use crate::rng::Rng;
use crate::u256::*;
use libsecp256k1 as lib;
use lib::curve::{AffineStorage, FieldStorage, AFFINE_G};
use lib::util;
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C14", "one event per field operation whose result was compared with exact integer arithmetic; distinct = distinct (operation, operand value, operand representation) tuples with a non-canonical representation or a boundary operand", (120000, 20000000), 1, c14),
        prop("C15", "one event per scalar operation compared with exact integer arithmetic; distinct = distinct operand pairs", (16000, 2000000), 0, c15),
        prop("C16", "one event per group operation compared with the affine reference group law; distinct = distinct (operation, relation, operands)", (9000, 1000000), 0, c16),
    ]
}

// ------------------------------------------------------------------ representations
const M26: u64 = 0x3ff_ffff;
fn raw_field(l: &[u64; 10]) -> Field {
    let w = |i: usize| l[i] as u32;
    Field::new_raw(w(9), w(8), w(7), w(6), w(5), w(4), w(3), w(2), w(1), w(0))
}
fn limbs_val(l: &[u64; 10]) -> U {
    let f = &k().fp;
    let mut v = ZERO;
    for i in (0..10).rev() {
        v = f.muli(&v, 1 << 26);
        v = f.add(&v, &U::from_u64(l[i]));
    }
    v
}
/// unnormalised magnitude-1 representation of v (v < p), limbs spread by random borrows,
/// possibly holding v + p
pub fn field_rep(r: &mut Rng, v: &U) -> Field {
    if r.one_in(3) {
        return fe(v);
    }
    let (s, carry) = if r.coin() { (*v, false) } else { v.add(&k().p) };
    let mut l = [0u64; 10];
    for i in 0..10 {
        l[i] = s.shr(26 * i).0[0] & M26;
    }
    l[9] = s.shr(234).0[0] & 0x3f_ffff;
    if carry {
        l[9] += 1 << 22;
    }
    let dens = r.below(4);
    for i in (1..10).rev() {
        if l[i] > 0 && l[i - 1] <= 2 * M26 - (1 << 26) && (dens == 0 || r.below(4) < dens) {
            l[i] -= 1;
            l[i - 1] += 1 << 26;
        }
    }
    if l[9] > 2 * 0x3f_ffff {
        return fe(v);
    }
    raw_field(&l)
}
/// arbitrary magnitude-1 limbs
fn raw_rand(r: &mut Rng) -> (Field, U) {
    let mut l = [0u64; 10];
    let mode = r.below(4);
    for i in 0..10 {
        let top = if i == 9 { 0x3f_ffff } else { M26 };
        l[i] = match if mode == 0 { 9 } else { r.below(10) } {
            0 => 0,
            1 => 2 * top,
            2 => top,
            3 => top + 1,
            4 => top - 1,
            5 => 1,
            6 => 1 << r.below(if i == 9 { 22 } else { 26 }),
            7 => (top + 1).saturating_sub(r.below(2048) as u64),
            _ => r.u64() % (2 * top + 1),
        };
    }
    if mode == 3 {
        // near a multiple of p
        for i in 2..10 {
            l[i] = if i == 9 { 0x3f_ffff } else { M26 };
        }
        l[1] = M26 - r.below(130) as u64;
        l[0] = M26 - r.below(2000) as u64;
    }
    (raw_field(&l), limbs_val(&l))
}
/// representation of v with documented magnitude at most max (returned)
pub fn field_mag(r: &mut Rng, v: &U, max: u32) -> (Field, u32) {
    let f = &k().fp;
    match r.below(4) {
        0 => (field_rep(r, v), 1),
        1 if max >= 2 => {
            // -( -v )
            let m = 1 + r.below(max as usize - 1) as u32;
            let n = f.neg(v);
            (field_rep(r, &n).neg(m), m + 1)
        }
        2 if max >= 2 => {
            let a = 2 + r.below(max as usize - 1) as u32;
            let q = f.mul(v, &f.inv(&U::from_u64(a as u64)));
            let mut x = field_rep(r, &q);
            x.mul_int(a);
            (x, a)
        }
        _ => {
            let parts = 1 + r.below(max as usize) as u32;
            let mut acc: Option<Field> = None;
            let mut left = *v;
            for i in 0..parts {
                let (x, xv) = if i + 1 == parts { (field_rep(r, &left), left) } else { raw_rand(r) };
                left = f.sub(&left, &xv);
                acc = Some(match acc {
                    None => x,
                    Some(mut a) => {
                        a += &x;
                        a
                    }
                });
            }
            (acc.unwrap(), parts)
        }
    }
}

// ------------------------------------------------------------------ C14
/// largest magnitude the random machine uses; 32 itself is the subject of a known finding
const MAXM: u32 = 31;
/// normalisation of the largest representation `Field`'s own bound admits (see known_findings.txt)
fn c14_max_magnitude(cx: &mut Cx) {
    let l = [2 * M26, 2 * M26, 2 * M26, 2 * M26, 2 * M26, 2 * M26, 2 * M26, 2 * M26, 2 * M26, 2 * 0x3f_ffff];
    let v = k().fp.muli(&limbs_val(&l), 32);
    let mut outs = vec![];
    for which in 0..3 {
        let g = guarded(|| {
            let mut x = raw_field(&l);
            x.mul_int(32);
            match which {
                0 => x.normalize(),
                1 => x.normalize_var(),
                _ => {
                    x.normalize_weak();
                    x.normalize()
                }
            }
            U::from_be(&x.b32())
        });
        outs.push(match g {
            Ok(g) => g == v,
            Err(_) => false,
        });
    }
    cx.ev("max_magnitude");
    if outs.iter().any(|x| !x) {
        cx.fail("KF:normalize-magnitude-32", format!("normalisation of all limbs at the magnitude 32 bound is wrong (normalize, normalize_var, normalize_weak correct: {:?})", outs));
    }
}
#[derive(Clone, Copy)]
struct Reg {
    f: Field,
    v: U,
    m: u32,
    norm: bool,
}
fn fresh(r: &mut Rng) -> Reg {
    match r.below(6) {
        0 => {
            let v = gen::fe0(r);
            Reg { f: fe(&v), v, m: 1, norm: true }
        }
        1 | 2 => {
            let (f, v) = raw_rand(r);
            Reg { f, v, m: 1, norm: false }
        }
        3 => {
            let v = gen::reduction_target(r, &k().fp);
            Reg { f: field_rep(r, &v), v, m: 1, norm: false }
        }
        4 => {
            let a = r.below(0x400_0000) as u32 >> r.below(26);
            Reg { f: Field::from_int(a), v: U::from_u64(a as u64), m: 1, norm: true }
        }
        _ => {
            let v = gen::fe0(r);
            let (f, m) = field_mag(r, &v, 8);
            Reg { f, v, m, norm: false }
        }
    }
}
fn reduce(g: &mut Reg, max: u32) {
    if g.m > max {
        g.f.normalize_weak();
        g.m = 1;
    }
}
fn normed(g: &Reg) -> Field {
    let mut f = g.f;
    if !g.norm {
        f.normalize();
    }
    f
}
fn c14(cx: &mut Cx) {
    if cx.block == 0 {
        c14_max_magnitude(cx);
    }
    let f = &k().fp;
    let mut r = crate::rng::Rng::new(cx.rng.u64(), "c14", cx.block);
    let r = &mut r;
    let mut regs: Vec<Reg> = (0..6).map(|_| fresh(r)).collect();
    if r.coin() {
        let (a, b) = gen::product_pair(r, f);
        let (fa, ma) = field_mag(r, &a, 8);
        let (fb, mb) = field_mag(r, &b, 8);
        regs[0] = Reg { f: fa, v: a, m: ma, norm: false };
        regs[1] = Reg { f: fb, v: b, m: mb, norm: false };
    }
    for step in 0..60 {
        let (i, j) = if step == 0 { (0, 1) } else { (r.below(6), r.below(6)) };
        let d = r.below(6);
        let (mut a, mut b) = (regs[i], regs[j]);
        let op = if step == 0 { 3 } else { r.below(30) };
        let want: Option<(U, u32, bool, Field)>;
        let name: &'static str;
        match op {
            0 | 1 => {
                if a.m + b.m > MAXM {
                    reduce(&mut a, 8);
                    reduce(&mut b, 8);
                }
                let g = match r.below(4) {
                    0 => a.f + b.f,
                    1 => &a.f + &b.f,
                    2 => {
                        let mut x = a.f;
                        x += &b.f;
                        x
                    }
                    _ => {
                        let mut x = a.f;
                        x += b.f;
                        x
                    }
                };
                name = "add";
                want = Some((f.add(&a.v, &b.v), a.m + b.m, false, g));
            }
            2 => {
                reduce(&mut a, MAXM - 1);
                let m = a.m + if r.coin() { 0 } else { r.below((MAXM - a.m) as usize) as u32 };
                let g = if r.coin() {
                    a.f.neg(m)
                } else {
                    let mut x = b.f;
                    x.neg_in_place(&a.f, m);
                    x
                };
                name = "neg";
                want = Some((f.neg(&a.v), m + 1, false, g));
            }
            3..=7 => {
                reduce(&mut a, 8);
                reduce(&mut b, 8);
                let g = match r.below(5) {
                    0 => a.f * b.f,
                    1 => &a.f * &b.f,
                    2 => {
                        let mut x = a.f;
                        x *= &b.f;
                        x
                    }
                    3 => {
                        let mut x = a.f;
                        x *= b.f;
                        x
                    }
                    _ => {
                        let mut x = b.f;
                        x.mul_in_place(&a.f, &b.f);
                        x
                    }
                };
                name = "mul";
                want = Some((f.mul(&a.v, &b.v), 1, false, g));
            }
            8..=10 => {
                reduce(&mut a, 8);
                let g = if r.coin() {
                    a.f.sqr()
                } else {
                    let mut x = b.f;
                    x.sqr_in_place(&a.f);
                    x
                };
                name = "sqr";
                want = Some((f.sqr(&a.v), 1, false, g));
            }
            11 => {
                let kk = 1 + r.below(8) as u32;
                reduce(&mut a, MAXM / kk);
                let mut g = a.f;
                g.mul_int(kk);
                name = "mul_int";
                want = Some((f.muli(&a.v, kk as u64), a.m * kk, false, g));
            }
            12 => {
                reduce(&mut a, 8);
                if a.v.is_zero() || !r.one_in(3) {
                    continue;
                }
                let g = if r.coin() { a.f.inv() } else { a.f.inv_var() };
                name = "inv";
                want = Some((f.inv(&a.v), 1, false, g));
            }
            13 => {
                reduce(&mut a, 8);
                if !r.one_in(3) {
                    continue;
                }
                if r.coin() {
                    // a square in hand
                    let (x, m) = { let s = f.sqr(&a.v); field_mag(r, &s, 8) };
                    a = Reg { f: x, v: f.sqr(&a.v), m, norm: false };
                }
                let root = model::sqrt(&a.v);
                let (g, ok) = a.f.sqrt();
                cx.ev(if root.is_some() { "sqrt_square" } else { "sqrt_nonsquare" });
                cx.eq(ok, root.is_some(), "sqrt_flag", || format!("sqrt of {}", a.v.hex()));
                cx.eq(a.f.is_quad_var(), root.is_some(), "is_quad", || format!("is_quad {}", a.v.hex()));
                // root of a, or of -a when a is not a square; itself a square
                let t = if ok { a.v } else { f.neg(&a.v) };
                let gv = feu(&g);
                cx.check(f.sqr(&gv) == t, "sqrt_value", || format!("sqrt of {} gave {}", a.v.hex(), gv.hex()));
                cx.check(model::sqrt(&gv).is_some(), "sqrt_root_square", || format!("root {} of {} is not a square", gv.hex(), a.v.hex()));
                name = "sqrt";
                want = Some((gv, 1, false, g));
            }
            14 | 15 => {
                let mut g = a.f;
                let (n, m) = match r.below(3) {
                    0 => {
                        g.normalize();
                        ("normalize", true)
                    }
                    1 => {
                        g.normalize_var();
                        ("normalize_var", true)
                    }
                    _ => {
                        g.normalize_weak();
                        ("normalize_weak", false)
                    }
                };
                name = n;
                if m {
                    let bytes = g.b32();
                    cx.eq(U::from_be(&bytes), a.v, n, || format!("bytes after {} of magnitude {}", n, a.m));
                    cx.eq(g.is_zero(), a.v.is_zero(), "is_zero", || a.v.hex());
                    cx.eq(g.is_odd(), a.v.is_odd(), "is_odd", || a.v.hex());
                    let mut o = [0xAAu8; 32];
                    g.fill_b32(&mut o);
                    cx.eq(o, bytes, "fill_b32", || a.v.hex());
                }
                want = Some((a.v, 1, m, g));
            }
            16 | 17 => {
                // zero tests: also on forged zeros
                let z = match r.below(3) {
                    0 => a,
                    1 => {
                        reduce(&mut a, 15);
                        let mut x = a.f.neg(a.m);
                        let q = field_rep(r, &a.v);
                        x += &q;
                        let _ = q;
                        Reg { f: x, v: ZERO, m: a.m + 2, norm: false }
                    }
                    _ => {
                        let v = match r.below(5) {
                            0 | 1 => ZERO,
                            2 => U::from_u64(1 + r.below(3) as u64),
                            3 => k().p.wsub(&U::from_u64(1 + r.below(3) as u64)),
                            _ => U::pow2(r.below(256)),
                        };
                        let mx = 1 + r.below(MAXM as usize) as u32;
                        let v = f.red(&v);
                        let (x, m) = field_mag(r, &v, mx);
                        Reg { f: x, v, m, norm: false }
                    }
                };
                cx.ev(if z.v.is_zero() { "normalizes_to_zero_true" } else { "normalizes_to_zero_false" });
                cx.eq(z.f.normalizes_to_zero(), z.v.is_zero(), "normalizes_to_zero", || format!("{} mag {} {:?}", z.v.hex(), z.m, z.f));
                cx.eq(z.f.normalizes_to_zero_var(), z.v.is_zero(), "normalizes_to_zero_var", || format!("{} mag {} {:?}", z.v.hex(), z.m, z.f));
                continue;
            }
            18 | 19 => {
                // equality, also between different representations of one value
                if r.coin() {
                    let mx = 1 + r.below(12) as u32;
                    let (x, m) = field_mag(r, &a.v, mx);
                    b = Reg { f: x, v: a.v, m, norm: false };
                } else if r.coin() {
                    let dv = f.add(&a.v, &f.red(&U::pow2(r.below(256))));
                    let (x, m) = field_mag(r, &dv, 4);
                    b = Reg { f: x, v: dv, m, norm: false };
                }
                reduce(&mut a, 15);
                reduce(&mut b, 15);
                let w = a.v == b.v;
                cx.ev(if w { "equal" } else { "unequal" });
                cx.eq(a.f == b.f, w, "eq", || format!("{} {}", a.v.hex(), b.v.hex()));
                cx.eq(b.f == a.f, w, "eq", || format!("{} {}", a.v.hex(), b.v.hex()));
                reduce(&mut a, 1);
                cx.eq(a.f.eq_var(&b.f), w, "eq_var", || format!("{} {}", a.v.hex(), b.v.hex()));
                continue;
            }
            20 | 21 => {
                let na = normed(&a);
                let mut bv = b.v;
                if r.one_in(3) {
                    bv = f.add(&a.v, &U::from_u64((r.below(3) as u64) << r.below(40)));
                } else if r.one_in(3) {
                    bv = f.sub(&a.v, &f.red(&U::pow2(r.below(256))));
                }
                let nb = if bv == b.v { normed(&b) } else { fe(&bv) };
                let w = ucmp(&a.v, &bv);
                cx.ev(match w {
                    Ordering::Less => "cmp_less",
                    Ordering::Equal => "cmp_equal",
                    _ => "cmp_greater",
                });
                cx.eq(na.cmp_var(&nb), w, "cmp_var", || format!("{} {}", a.v.hex(), bv.hex()));
                cx.eq(na.cmp(&nb), w, "cmp", || format!("{} {}", a.v.hex(), bv.hex()));
                cx.eq(na.partial_cmp(&nb), Some(w), "partial_cmp", || format!("{} {}", a.v.hex(), bv.hex()));
                continue;
            }
            22 | 23 => {
                // byte import
                let u = match r.below(4) {
                    0 => gen::raw(r),
                    1 => k().p.wadd(&U::from_u64(r.below(0x3d2) as u64)),
                    2 => k().p.wadd(&U::from_u64(r.u64() >> (31 + r.below(33)))),
                    _ => k().p.wsub(&U::from_u64(1 + r.below(1 << 20) as u64)),
                };
                let mut g = b.f;
                let ok = g.set_b32(&u.be());
                let inr = u.lt(&k().p);
                cx.ev(if inr { "set_b32_ok" } else { "set_b32_overflow" });
                cx.eq(ok, inr, "set_b32_flag", || u.hex());
                if !ok || !inr {
                    continue;
                }
                cx.eq(g.b32(), u.be(), "set_b32_value", || u.hex());
                name = "set_b32";
                want = Some((u, 1, true, g));
            }
            24 => {
                let na = normed(&a);
                let st: FieldStorage = na.into();
                cx.eq(st.0, a.v.words32(), "storage_words", || a.v.hex());
                let w = a.v.words32();
                let st2 = FieldStorage::new(w[7], w[6], w[5], w[4], w[3], w[2], w[1], w[0]);
                cx.eq(st, st2, "storage_new", || a.v.hex());
                name = "storage";
                want = Some((a.v, 1, true, Field::from(st)));
            }
            25 => {
                let (x, y) = (f.red(&gen::raw(r)).words32(), f.red(&gen::raw(r)).words32());
                let flag = r.coin();
                let mut s = FieldStorage(x);
                s.cmov(&FieldStorage(y), flag);
                cx.ev("storage_cmov");
                cx.eq(s.0, if flag { y } else { x }, "storage_cmov", || format!("flag {}", flag));
                continue;
            }
            26 | 27 => {
                let flag = r.coin();
                let mut g = a.f;
                g.cmov(&b.f, flag);
                let s = if flag { b } else { a };
                name = "cmov";
                want = Some((s.v, s.m, s.norm, g));
            }
            28 => {
                let mut g = a.f;
                if r.coin() {
                    g.clear();
                    name = "clear";
                    cx.check(g.is_zero() && g.b32() == [0u8; 32], "clear", || a.v.hex());
                    want = Some((ZERO, 1, true, g));
                } else {
                    let v = r.below(0x400_0000) as u32;
                    g.set_int(v);
                    name = "set_int";
                    want = Some((U::from_u64(v as u64), 1, true, g));
                }
            }
            _ => {
                regs[d] = fresh(r);
                continue;
            }
        }
        if let Some((v, m, norm, g)) = want {
            cx.ev(name);
            let got = if norm { U::from_be(&g.b32()) } else { feu(&g) };
            if got != v {
                cx.fail(name, format!("{} of {} (mag {}, {:?}) and {} (mag {}, {:?}) gave {} want {}", name, a.v.hex(), a.m, a.f, b.v.hex(), b.m, b.f, got.hex(), v.hex()));
                cx.abort();
            }
            // the contract of magnitude 1 results is what the next steps rely on
            if m > 1 || !norm {
                cx.nt(&[name.as_bytes(), &a.v.be(), &b.v.be(), &[a.m as u8, b.m as u8]]);
            }
            cx.sample(|| format!("{}({} mag {}, {} mag {}) = {}", name, a.v.hex(), a.m, b.v.hex(), b.m, v.hex()));
            regs[d] = Reg { f: g, v, m, norm };
        }
    }
}

// ------------------------------------------------------------------ C15
fn edge_sum(r: &mut Rng, a: &U) -> U {
    let f = &k().fnn;
    // b so that a + b is near n, 2^256, n/2, 0
    let t = match r.below(5) {
        0 => k().n,
        1 => ZERO,
        2 => k().half_n,
        3 => f.c,
        _ => f.red(&U::pow2(32 * r.below(8))),
    };
    let dlt = U::from_u64(match r.below(3) {
        0 => r.below(4) as u64,
        1 => 1 << r.below(64),
        _ => r.u64() >> r.below(64),
    });
    let t = if r.coin() { f.add(&t, &dlt) } else { f.sub(&t, &dlt) };
    f.sub(&t, a)
}
fn c15(cx: &mut Cx) {
    let f = &k().fnn;
    let mut rr = crate::rng::Rng::new(cx.rng.u64(), "c15", cx.block);
    let r = &mut rr;
    for _ in 0..60 {
        let (a, b) = match r.below(5) {
            0 | 1 => gen::product_pair(r, f),
            2 => {
                let a = gen::scalar0(r);
                (a, edge_sum(r, &a))
            }
            3 => {
                let a = gen::scalar0(r);
                (a, a)
            }
            _ => (gen::scalar0(r), gen::scalar0(r)),
        };
        let (sa, sb) = (sc(&a), sc(&b));
        cx.nt(&[&a.be(), &b.be()]);
        let who = || format!("a={} b={}", a.hex(), b.hex());
        // import / export
        cx.ev("bytes");
        cx.eq(sa.b32(), a.be(), "b32", who);
        let mut o = [0x55u8; 32];
        sb.fill_b32(&mut o);
        cx.eq(o, b.be(), "fill_b32", who);
        cx.eq(format!("{:x}", sa), a.hex(), "lowerhex", who);
        // sum and product
        cx.ev("add");
        let w = f.add(&a, &b);
        let g = match r.below(4) {
            0 => sa + sb,
            1 => &sa + &sb,
            2 => {
                let mut x = sa;
                x += &sb;
                x
            }
            _ => {
                let mut x = sa;
                x += sb;
                x
            }
        };
        cx.eq(scu(&g), w, "add", who);
        cx.ev("mul");
        let w = f.mul(&a, &b);
        let g = match r.below(5) {
            0 => sa * sb,
            1 => &sa * &sb,
            2 => {
                let mut x = sa;
                x *= &sb;
                x
            }
            3 => {
                let mut x = sa;
                x *= sb;
                x
            }
            _ => {
                let mut x = sb;
                x.mul_in_place(&sa, &sb);
                x
            }
        };
        cx.eq(scu(&g), w, "mul", who);
        cx.ev("sqr");
        cx.eq(scu(&sa.sqr()), f.sqr(&a), "sqr", who);
        let mut x = sb;
        x.sqr_in_place(&sb);
        cx.eq(scu(&x), f.sqr(&b), "sqr_in_place", who);
        // negation
        cx.ev("neg");
        let na = f.neg(&a);
        cx.eq(scu(&-sa), na, "neg", who);
        cx.eq(scu(&-&sa), na, "neg_ref", who);
        let mut x = sa;
        x.cond_neg_assign(1u8.into());
        cx.eq(scu(&x), na, "cond_neg_1", who);
        let mut x = sa;
        x.cond_neg_assign(0u8.into());
        cx.eq(scu(&x), a, "cond_neg_0", who);
        // tests
        cx.ev("tests");
        cx.eq(sa.is_zero(), a.is_zero(), "is_zero", who);
        cx.eq(sa.is_one(), a == ONE, "is_one", who);
        cx.eq(sa.is_even(), !a.is_odd(), "is_even", who);
        cx.eq(sa == sb, a == b, "eq", who);
        // high: both sides of the boundary
        let h = if r.coin() {
            a
        } else {
            let d = U::from_u64(match r.below(3) { 0 => r.below(3) as u64, 1 => 1u64 << r.below(64), _ => 0 }).shl(32 * r.below(7));
            f.red(&if r.coin() { k().half_n.wadd(&d) } else { k().half_n.wsub(&d) })
        };
        cx.ev(if k().half_n.lt(&h) { "high" } else { "low" });
        cx.eq(sc(&h).is_high(), k().half_n.lt(&h), "is_high", || h.hex());
        if r.one_in(6) {
            cx.ev("inv");
            if !a.is_zero() {
                let w = f.inv(&a);
                let g = match r.below(3) {
                    0 => sa.inv(),
                    1 => sa.inv_var(),
                    _ => {
                        let mut x = sb;
                        x.inv_in_place(&sa);
                        x
                    }
                };
                cx.eq(scu(&g), w, "inv", who);
            } else {
                cx.eq(scu(&sa.inv()), ZERO, "inv_zero", who);
            }
        }
        // bits
        for _ in 0..4 {
            let count = 1 + r.below(31);
            let off = r.below(257 - count);
            let w = a.shr(off).mask(count).0[0] as u32;
            cx.ev("bits");
            cx.eq(sa.bits_var(off, count), w, "bits_var", || format!("{} off {} count {}", a.hex(), off, count));
            if (off + count - 1) >> 5 == off >> 5 {
                cx.eq(sa.bits(off, count), w, "bits", || format!("{} off {} count {}", a.hex(), off, count));
            }
        }
        let n = 1 + r.below(15);
        let mut x = sa;
        cx.ev("shr_int");
        let low = x.shr_int(n);
        cx.eq(low, a.mask(n).0[0] as u32, "shr_int_low", || format!("{} by {}", a.hex(), n));
        cx.eq(scu(&x), a.shr(n), "shr_int", || format!("{} by {}", a.hex(), n));
        // conditional addition of a power of two, no overflow allowed
        let bit = r.below(256);
        let base = match r.below(4) {
            0 => a,
            1 => a.mask(256 - r.below(2)),
            2 => U::pow2(bit).wsub(&U::from_u64(1 + r.below(2) as u64)),
            _ => {
                // ones from bit upward to force a long carry
                let hi = bit + r.below(256 - bit);
                U::pow2(hi).wsub(&U::pow2(bit)).wadd(&a.mask(bit))
            }
        };
        let (s, c) = base.add(&U::pow2(bit));
        if !c && s.lt(&k().n) {
            let flag = r.below(4) != 0;
            let mut x = sc(&base);
            x.cadd_bit(bit, flag);
            cx.ev("cadd_bit");
            cx.eq(scu(&x), if flag { s } else { base }, "cadd_bit", || format!("{} bit {} flag {}", base.hex(), bit, flag));
        }
        // byte import with overflow
        let u = match r.below(3) {
            0 => gen::raw(r),
            1 => {
                let d = U::from_u64(match r.below(3) { 0 => r.below(3) as u64, 1 => 1u64 << r.below(64), _ => 0 }).shl(32 * r.below(5));
                if r.coin() { k().n.wadd(&d) } else { k().n.wsub(&d) }
            }
            _ => ZERO.wsub(&U::from_be(&r.b32()).mask(r.below(130))),
        };
        let mut x = sb;
        let ov: bool = x.set_b32(&u.be()).into();
        cx.ev(if ov { "set_b32_overflow" } else { "set_b32" });
        cx.eq(ov, !u.lt(&k().n), "set_b32_flag", || u.hex());
        cx.eq(scu(&x), f.red(&u), "set_b32_value", || u.hex());
        let v = r.u32() >> r.below(32);
        let mut x = sa;
        x.set_int(v);
        cx.ev("set_int");
        cx.eq(scu(&x), U::from_u64(v as u64), "set_int", || format!("{}", v));
        cx.eq(scu(&Scalar::from_int(v)), U::from_u64(v as u64), "from_int", || format!("{}", v));
        let mut x = sa;
        x.clear();
        cx.check(x.is_zero() && x.b32() == [0u8; 32], "clear", who);
        cx.sample(|| format!("a={} b={}: all operators agree with integer arithmetic mod n", a.hex(), b.hex()));
    }
}

// ------------------------------------------------------------------ C16
/// Jacobian representation of p with a chosen z and coordinate magnitudes the crate's own
/// operations produce
fn jac_rep(r: &mut Rng, p: &Pt) -> Jacobian {
    let f = &k().fp;
    match p {
        None => match r.below(3) {
            0 => util::JACOBIAN_INFINITY,
            1 => {
                let mut j = Jacobian::default();
                j.set_infinity();
                j
            }
            _ => {
                // infinity as produced by an addition
                let q = gen::point(r);
                let j = jac_rep(r, &q.pt());
                j.add_ge_var(&aff(&q.neg()), None)
            }
        },
        Some((x, y)) => {
            let z = match r.below(6) {
                0 => ONE,
                1 => f.red(&U::from_u64(2 + r.below(5) as u64)),
                2 => k().p.wsub(&ONE),
                _ => loop {
                    let z = gen::fe0(r);
                    if !z.is_zero() {
                        break z;
                    }
                },
            };
            let z2 = f.sqr(&z);
            let (jx, jy) = (f.mul(x, &z2), f.mul(y, &f.mul(&z2, &z)));
            let (fx, fy, fz) = if r.one_in(3) {
                (fe(&jx), fe(&jy), fe(&z))
            } else {
                (field_mag(r, &jx, 6).0, field_mag(r, &jy, 4).0, field_mag(r, &z, 2).0)
            };
            Jacobian { x: fx, y: fy, z: fz, infinity: false }
        }
    }
}
fn aff_rep(r: &mut Rng, p: &Pt) -> Affine {
    match p {
        None => {
            if r.coin() {
                util::AFFINE_INFINITY
            } else {
                let mut a = Affine::default();
                a.set_gej_var(&util::JACOBIAN_INFINITY);
                a
            }
        }
        Some((x, y)) => {
            if r.one_in(3) {
                Affine::new(fe(x), fe(y))
            } else {
                let (fx, fy) = (field_mag(r, x, 5).0, field_mag(r, y, 4).0);
                if r.coin() {
                    Affine::new(fx, fy)
                } else {
                    let mut a = Affine::default();
                    a.set_xy(&fx, &fy);
                    a
                }
            }
        }
    }
}
fn other_jac(r: &mut Rng) -> Jacobian {
    let p = gen::point(r).pt();
    jac_rep(r, &p)
}
fn other_aff(r: &mut Rng) -> Affine {
    let p = gen::point(r).pt();
    aff_rep(r, &p)
}
fn ucmp(a: &U, b: &U) -> Ordering {
    a.be().cmp(&b.be())
}
const RELS: [&str; 10] = ["random", "equal", "opposite", "b_infinity", "a_infinity", "both_infinity", "lambda_same_y", "lambda_opposite_y", "double_of", "generator"];
fn related(r: &mut Rng) -> (&'static str, Pt, Pt) {
    let f = &k().fp;
    let p = gen::point(r);
    let w = r.below(13);
    let rel = RELS[if w >= 10 { [6, 7, 1][w - 10] } else { w }];
    let beta = |r: &mut Rng, x: &U| {
        let b = k().beta;
        f.mul(x, &if r.coin() { b } else { f.sqr(&b) })
    };
    let (a, b) = match rel {
        "random" => (p.pt(), gen::point(r).pt()),
        "equal" => (p.pt(), p.pt()),
        "opposite" => (p.pt(), p.neg().pt()),
        "b_infinity" => (p.pt(), None),
        "a_infinity" => (None, p.pt()),
        "both_infinity" => (None, None),
        "lambda_same_y" => (p.pt(), Some((beta(r, &p.x), p.y))),
        "lambda_opposite_y" => (p.pt(), Some((beta(r, &p.x), f.neg(&p.y)))),
        "double_of" => {
            let d = model::add(&p.pt(), &p.pt());
            let d = if r.coin() { d } else { model::neg(&d) };
            if r.coin() { (p.pt(), d) } else { (d, p.pt()) }
        }
        _ => (p.pt(), if r.coin() { model::g() } else { model::neg(&model::g()) }),
    };
    (rel, a, b)
}
fn ptx(p: &Pt) -> String {
    match p {
        None => "inf".into(),
        Some((x, y)) => format!("({},{})", x.hex(), y.hex()),
    }
}
fn key_of(p: &Pt) -> Vec<u8> {
    match p {
        None => vec![0],
        Some((x, y)) => [x.be(), y.be()].concat(),
    }
}
fn zratio(cx: &mut Cx, what: &'static str, a: &Jacobian, out: &Jacobian, rzr: &Field, who: &str) {
    // out.z = a.z * rzr, infinity counting as z = 0
    let f = &k().fp;
    let want = if out.infinity { ZERO } else { feu(&out.z) };
    let az = if a.infinity { ZERO } else { feu(&a.z) };
    cx.ev("z_ratio");
    cx.check(f.mul(&az, &feu(rzr)) == want, what, || format!("z ratio {} does not relate the z coordinates; {}", feu(rzr).hex(), who));
}

fn c16(cx: &mut Cx) {
    let mut rr = crate::rng::Rng::new(cx.rng.u64(), "c16", cx.block);
    let r = &mut rr;
    match cx.block % 4 {
        0 | 1 => {
            for _ in 0..6 {
                c16_pair(cx, r);
            }
            c16_conv(cx, r);
        }
        2 => {
            c16_mult(cx, r);
            c16_mult(cx, r);
        }
        _ => {
            c16_tables(cx, r);
            c16_conv(cx, r);
            c16_mult(cx, r);
        }
    }
}

fn c16_pair(cx: &mut Cx, r: &mut Rng) {
    let (rel, a, b) = related(r);
    let (ja, jb) = (jac_rep(r, &a), jac_rep(r, &b));
    let gb = aff_rep(r, &b);
    let want = model::add(&a, &b);
    let who = format!("{} a={} b={} ja={:?} jb={:?}", rel, ptx(&a), ptx(&b), ja, jb);
    cx.seen(rel);
    cx.nt(&[rel.as_bytes(), &key_of(&a), &key_of(&b)]);
    let chk = |cx: &mut Cx, name: &'static str, got: &Jacobian| {
        cx.ev(name);
        let g = jacpt(got);
        if g != want {
            cx.fail(name, format!("{} gave {} want {}; {}", name, ptx(&g), ptx(&want), who));
        }
        cx.check(got.is_infinity() == want.is_none(), name, || format!("infinity flag; {}", who));
    };
    chk(cx, "add_var", &ja.add_var(&jb, None));
    let mut out = jb;
    out.add_var_in_place(&ja, &jb, None);
    chk(cx, "add_var_in_place", &out);
    if a.is_some() {
        let mut z = field_rep(r, &U::from_u64(77));
        let o = ja.add_var(&jb, Some(&mut z));
        chk(cx, "add_var_rzr", &o);
        zratio(cx, "add_var_rzr", &ja, &o, &z, &who);
    }
    chk(cx, "add_ge_var", &ja.add_ge_var(&gb, None));
    let mut out = jb;
    out.add_ge_var_in_place(&ja, &gb, None);
    chk(cx, "add_ge_var_in_place", &out);
    if a.is_some() {
        let mut z = field_rep(r, &U::from_u64(77));
        let o = ja.add_ge_var(&gb, Some(&mut z));
        chk(cx, "add_ge_var_rzr", &o);
        zratio(cx, "add_ge_var_rzr", &ja, &o, &z, &who);
    }
    if b.is_some() {
        chk(cx, "add_ge", &ja.add_ge(&gb));
        let mut out = jb;
        out.add_ge_in_place(&ja, &gb);
        chk(cx, "add_ge_in_place", &out);
    }
    // b scaled: affine coordinates relative to z, with 1/z handed over
    {
        let f = &k().fp;
        let zi = loop {
            let z = gen::fe0(r);
            if !z.is_zero() {
                break z;
            }
        };
        let zz = f.inv(&zi);
        let (b2, zi) = match &b {
            None => (None, zi),
            Some((x, y)) => {
                let z2 = f.sqr(&zz);
                (Some((f.mul(x, &z2), f.mul(y, &f.mul(&z2, &zz)))), zi)
            }
        };
        let gb2 = aff_rep(r, &b2);
        let zif = field_mag(r, &zi, 2).0;
        let mut jm = ja;
        chk(cx, "add_zinv_var", &jm.add_zinv_var(&gb2, &zif));
        let mut out = jb;
        out.add_zinv_var_in_place(&ja, &gb2, &zif);
        chk(cx, "add_zinv_var_in_place", &out);
    }
    // doubling and negation of a
    let da = model::add(&a, &a);
    let d = ja.double_var(None);
    cx.ev("double_var");
    cx.check(jacpt(&d) == da, "double_var", || format!("double of {}", ptx(&a)));
    let mut z = Field::default();
    let d = ja.double_var(Some(&mut z));
    cx.check(jacpt(&d) == da, "double_var_rzr", || format!("double of {}", ptx(&a)));
    if a.is_some() {
        zratio(cx, "double_var_rzr", &ja, &d, &z, &who);
        let mut o = other_jac(r);
        o.double_nonzero_in_place(&ja, None);
        cx.ev("double_nonzero");
        cx.check(jacpt(&o) == da, "double_nonzero", || format!("double of {}", ptx(&a)));
        let mut o = jb;
        o.double_var_in_place(&ja, None);
        cx.check(jacpt(&o) == da, "double_in_place", || format!("double of {}", ptx(&a)));
    }
    cx.ev("neg");
    cx.check(jacpt(&ja.neg()) == model::neg(&a), "jac_neg", || ptx(&a));
    let mut o = jb;
    o.neg_in_place(&ja);
    cx.check(jacpt(&o) == model::neg(&a), "jac_neg_in_place", || ptx(&a));
    cx.check(affpt(&gb.neg()) == model::neg(&b), "aff_neg", || ptx(&b));
    let mut o = aff_rep(r, &a);
    o.neg_in_place(&gb);
    cx.check(affpt(&o) == model::neg(&b), "aff_neg_in_place", || ptx(&b));
    // a chain: the outcome of one operation feeds the next
    let c = gen::point(r);
    let mut acc = ja.add_var(&jb, None);
    let mut m = model::Jac::of(&want);
    for _ in 0..3 {
        match r.below(4) {
            0 => {
                acc = acc.double_var(None);
                m = m.dbl();
            }
            1 => {
                acc = acc.add_ge_var(&aff(&c), None);
                m = m.add(&model::Jac::of(&c.pt()));
            }
            2 => {
                acc = acc.add_ge(&aff(&c));
                m = m.add(&model::Jac::of(&c.pt()));
            }
            _ => {
                acc = jb.add_var(&acc, None);
                m = m.add(&model::Jac::of(&b));
            }
        }
    }
    cx.ev("chain");
    cx.check(jacpt(&acc) == m.aff(), "chain", || who.clone());
    cx.sample(|| format!("{}: {} + {} = {}", rel, ptx(&a), ptx(&b), ptx(&want)));
}

fn c16_conv(cx: &mut Cx, r: &mut Rng) {
    let f = &k().fp;
    let p = if r.one_in(8) { None } else { gen::point(r).pt() };
    let j = jac_rep(r, &p);
    let g = aff_rep(r, &p);
    let who = ptx(&p);
    cx.nt(&[b"conv", &key_of(&p)]);
    let mut a = other_aff(r);
    a.set_gej_var(&j);
    cx.ev("set_gej_var");
    cx.check(affpt(&a) == p, "set_gej_var", || who.clone());
    cx.check(jacpt(&Jacobian::from_ge(&g)) == p, "from_ge", || who.clone());
    let mut jj = j;
    jj.set_ge(&g);
    cx.check(jacpt(&jj) == p, "set_ge", || who.clone());
    cx.ev("infinity");
    cx.eq(j.is_infinity(), p.is_none(), "is_infinity", || who.clone());
    cx.eq(g.is_infinity(), p.is_none(), "aff_is_infinity", || who.clone());
    if let Some((x, y)) = p {
        cx.ev("set_gej");
        cx.check(affpt(&Affine::from_gej(&j)) == p, "from_gej", || who.clone());
        let mut a = g;
        a.set_gej(&j);
        cx.check(affpt(&a) == p, "set_gej", || who.clone());
        let zi = f.inv(&feu(&j.z));
        let zif = field_mag(r, &zi, 8).0;
        let mut a = g;
        a.set_gej_zinv(&j, &zif);
        cx.check(affpt(&a) == p, "set_gej_zinv", || who.clone());
        let s = loop {
            let s = gen::fe0(r);
            if !s.is_zero() {
                break s;
            }
        };
        let mut jr = j;
        jr.rescale(&fe(&s));
        cx.ev("rescale");
        cx.check(jacpt(&jr) == p && feu(&jr.z) == f.mul(&feu(&j.z), &s), "rescale", || format!("{} by {}", who, s.hex()));
        cx.ev("storage");
        let st: AffineStorage = g.into();
        cx.check(st.x.0 == x.words32() && st.y.0 == y.words32(), "affine_storage", || who.clone());
        cx.check(affpt(&st.into()) == p, "affine_from_storage", || who.clone());
        let q = gen::point(r);
        let st2: AffineStorage = aff(&q).into();
        let flag = r.coin();
        let mut s3 = st;
        s3.cmov(&st2, flag);
        cx.check(s3 == if flag { st2 } else { st }, "storage_cmov", || who.clone());
        // y parity related queries
        cx.ev("has_quad_y");
        cx.eq(j.has_quad_y_var(), model::sqrt(&y).is_some(), "has_quad_y_var", || who.clone());
        cx.ev("eq_x");
        let other = match r.below(4) {
            0 => x,
            1 => f.add(&x, &f.red(&U::pow2(r.below(256)))),
            2 => f.mul(&x, &k().beta),
            _ => gen::fe0(r),
        };
        let of = field_mag(r, &other, 8).0;
        cx.eq(j.eq_x_var(&of), other == x, "eq_x_var", || format!("{} vs {}", who, other.hex()));
        cx.check(j.eq_x_var(&fe(&x)), "eq_x_var", || format!("{} own x", who));
    } else {
        cx.eq(j.has_quad_y_var(), false, "has_quad_y_inf", || who.clone());
    }
    // curve membership
    let (x, y) = match r.below(4) {
        0 => {
            let q = gen::point(r);
            (q.x, q.y)
        }
        1 => {
            let q = gen::point(r);
            (q.x, f.add(&q.y, &f.red(&U::pow2(r.below(256)))))
        }
        2 => {
            let q = gen::point(r);
            (f.add(&q.x, &U::from_u64(1 + r.below(3) as u64)), q.y)
        }
        _ => (gen::fe0(r), gen::fe0(r)),
    };
    let on = model::on_curve(&x, &y);
    let a = aff_rep(r, &Some((x, y)));
    cx.ev(if on { "on_curve" } else { "off_curve" });
    cx.eq(a.is_valid_var(), on, "is_valid_var", || format!("{} {}", x.hex(), y.hex()));
    cx.eq(util::AFFINE_INFINITY.is_valid_var(), false, "infinity_valid", || String::new());
    // decompression
    let x = if r.coin() { gen::point(r).x } else { gen::fe0(r) };
    let odd = r.coin();
    let want = model::lift_x(&x, odd);
    cx.ev(if want.is_some() { "decompress" } else { "decompress_no_point" });
    let mut a = other_aff(r);
    let xf = field_mag(r, &x, 8).0;
    let ok = a.set_xo_var(&xf, odd);
    cx.eq(ok, want.is_some(), "set_xo_flag", || x.hex());
    if ok && want.is_some() {
        cx.check(affpt(&a) == want, "set_xo_var", || format!("{} odd {}", x.hex(), odd));
    }
    let mut a = other_aff(r);
    let ok = a.set_xquad(&xf);
    cx.eq(ok, want.is_some(), "set_xquad_flag", || x.hex());
    if ok {
        let q = affpt(&a);
        cx.check(q.map_or(false, |(qx, qy)| qx == x && model::on_curve(&qx, &qy) && model::sqrt(&qy).is_some()), "set_xquad", || format!("{} -> {}", x.hex(), ptx(&q)));
    }
    // generator constants and clear
    cx.check(affpt(&AFFINE_G) == model::g(), "generator", || ptx(&affpt(&AFFINE_G)));
    let (mut c1, mut c2) = (g, j);
    c1.clear();
    c2.clear();
    cx.check(feu(&c1.x).is_zero() && feu(&c1.y).is_zero() && feu(&c2.x).is_zero() && feu(&c2.z).is_zero(), "clear", || who.clone());
}

fn c16_tables(cx: &mut Cx, r: &mut Rng) {
    let f = &k().fp;
    // odd multiples, brought to one denominator
    let p = gen::point(r);
    let n = 1 + r.below(20);
    let j = jac_rep(r, &p.pt());
    let mut pre = vec![Jacobian::default(); n];
    let mut zr = vec![Field::default(); n];
    util::odd_multiples_table(&mut pre, &mut zr, &j);
    let mut odd = vec![];
    let two = model::Jac::of(&p.pt()).dbl();
    let mut q = model::Jac::of(&p.pt());
    for _ in 0..n {
        odd.push(q.aff());
        q = q.add(&two);
    }
    let mut out = vec![Affine::default(); n];
    util::set_table_gej_var(&mut out, &pre, &zr);
    cx.ev("odd_multiples_table");
    cx.nt(&[b"odd", &key_of(&p.pt()), &[n as u8]]);
    for i in 0..n {
        cx.check(affpt(&out[i]) == odd[i], "odd_multiples_table", || format!("entry {} of {} for {}", i, n, ptx(&p.pt())));
    }
    let mut out = vec![Affine::default(); n];
    let mut gz = Field::default();
    util::globalz_set_table_gej(&mut out, &mut gz, &pre, &zr);
    cx.ev("globalz_odd_multiples");
    for i in 0..n {
        let jj = Jacobian { x: out[i].x, y: out[i].y, z: gz, infinity: out[i].infinity };
        cx.check(jacpt(&jj) == odd[i], "globalz_odd_multiples", || format!("entry {} of {} for {}", i, n, ptx(&p.pt())));
    }
    // arbitrary chain linked by the z ratios of its own additions
    let n = 1 + r.below(12);
    let mut pts = vec![p.pt()];
    let mut js = vec![jac_rep(r, &p.pt())];
    let mut zr = vec![fe(&gen::fe0(r))];
    while js.len() < n {
        let last = *js.last().unwrap();
        let lp = *pts.last().unwrap();
        let mut z = Field::default();
        let (nj, np) = match r.below(3) {
            0 => (last.double_var(Some(&mut z)), model::add(&lp, &lp)),
            1 => {
                let b = gen::point(r);
                (last.add_ge_var(&aff(&b), Some(&mut z)), model::add(&lp, &b.pt()))
            }
            _ => {
                let b = gen::point(r);
                let bj = jac_rep(r, &b.pt());
                (last.add_var(&bj, Some(&mut z)), model::add(&lp, &b.pt()))
            }
        };
        if np.is_none() || nj.infinity {
            break;
        }
        js.push(nj);
        pts.push(np);
        zr.push(z);
    }
    let n = js.len();
    let mut out = vec![Affine::default(); n];
    util::set_table_gej_var(&mut out, &js, &zr);
    let mut out2 = vec![Affine::default(); n];
    util::globalz_set_table_gej(&mut out2, &mut gz, &js, &zr);
    cx.ev("set_table_gej_var");
    cx.ev("globalz_set_table_gej");
    for i in 0..n {
        cx.check(affpt(&out[i]) == pts[i], "set_table_gej_var", || format!("entry {} of {}", i, n));
        let jj = Jacobian { x: out2[i].x, y: out2[i].y, z: gz, infinity: out2[i].infinity };
        cx.check(jacpt(&jj) == pts[i], "globalz_set_table_gej", || format!("entry {} of {}", i, n));
    }
    let _ = f;
}

fn gen_ctx() -> &'static ECMultGenContext {
    &lib::ECMULT_GEN_CONTEXT
}
fn c16_mult(cx: &mut Cx, r: &mut Rng) {
    let f = &k().fnn;
    // a*P + b*G
    let p: P = gen::point(r);
    let mut na = gen::scalar0(r);
    let mut ng = gen::scalar0(r);
    let mut rel = "ecmult_random";
    match r.below(8) {
        0 => {
            if let Some(d) = p.dl {
                ng = f.neg(&f.mul(&na, &d));
                rel = "ecmult_sum_zero";
            }
        }
        1 => {
            if let Some(d) = p.dl {
                // same contribution from both sides
                ng = f.mul(&na, &d);
                rel = "ecmult_sum_equal";
            }
        }
        2 => {
            ng = if r.coin() { na } else { f.neg(&na) };
            rel = "ecmult_related";
        }
        3 => {
            na = U::from_u64(r.below(40) as u64);
            ng = if r.coin() { U::from_u64(r.below(70000) as u64) } else { f.neg(&U::from_u64(r.below(70000) as u64)) };
            rel = "ecmult_small";
        }
        4 => {
            na = if r.coin() { ZERO } else { na };
            ng = if r.coin() { ZERO } else { ng };
            rel = "ecmult_zero_side";
        }
        _ => {}
    }
    let p = if r.one_in(5) {
        // P = +-2^k G and small multiples: partial sums meet
        let d = f.mul(&U::from_u64(1 + r.below(16) as u64), &f.red(&U::pow2(r.below(250))));
        let q = gen::from_dl(&d);
        if r.coin() { q } else { q.neg() }
    } else {
        p
    };
    let want = model::dmul(&p.pt(), &na, &ng);
    let j = jac_rep(r, &p.pt());
    let mut out = other_jac(r);
    let ctx: &ECMultContext = if r.coin() { &lib::ECMULT_CONTEXT } else { boxed() };
    ctx.ecmult(&mut out, &j, &sc(&na), &sc(&ng));
    cx.ev(rel);
    cx.nt(&[b"ecmult", &key_of(&p.pt()), &na.be(), &ng.be()]);
    cx.check(jacpt(&out) == want, "ecmult", || format!("{}*{} + {}*G gave {} want {}", na.hex(), ptx(&p.pt()), ng.hex(), ptx(&jacpt(&out)), ptx(&want)));
    // constant-time a*P
    let s = if r.one_in(3) { *r.pick(&[ZERO, ONE, U::from_u64(2), k().n.wsub(&ONE), k().n.wsub(&U::from_u64(2)), k().half_n, k().half_n.wadd(&ONE)]) } else { gen::scalar0(r) };
    let a = aff_rep(r, &p.pt());
    let mut out = other_jac(r);
    ctx.ecmult_const(&mut out, &a, &sc(&s));
    let want = model::mul(&p.pt(), &s);
    cx.ev("ecmult_const");
    cx.nt(&[b"const", &key_of(&p.pt()), &s.be()]);
    cx.check(jacpt(&out) == want, "ecmult_const", || format!("{}*{} gave {} want {}", s.hex(), ptx(&p.pt()), ptx(&jacpt(&out)), ptx(&want)));
    // constant-time a*G
    for _ in 0..3 {
        let s = if r.one_in(6) { U::from_u64(r.below(4) as u64) } else { gen::scalar0(r) };
        let gctx = if r.coin() { gen_ctx() } else { boxed_gen() };
        let mut out = other_jac(r);
        gctx.ecmult_gen(&mut out, &sc(&s));
        let want = model::mul_g(&s);
        cx.ev("ecmult_gen");
        cx.nt(&[b"gen", &s.be()]);
        cx.check(jacpt(&out) == want, "ecmult_gen", || format!("{}*G gave {} want {}", s.hex(), ptx(&jacpt(&out)), ptx(&want)));
    }
}
