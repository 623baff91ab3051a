//! Input generators: biased towards limb boundaries, window patterns and algebraic coincidences.
use crate::model::{self, k, Pt};
use crate::rng::Rng;
use crate::u256::*;

fn anchors() -> &'static Vec<U> {
    use std::sync::OnceLock;
    static A: OnceLock<Vec<U>> = OnceLock::new();
    A.get_or_init(|| {
        let k = k();
        let f = &k.fnn;
        let l2 = f.mul(&k.lambda, &k.lambda);
        vec![
            ZERO,
            k.n,
            k.p,
            k.half_n,
            k.half_n.wadd(&ONE),
            k.p_minus_n,
            k.lambda,
            l2,
            f.neg(&k.lambda),
            f.neg(&l2),
            k.beta,
            k.fp.c,
            k.fnn.c,
            k.fnn.c.shr(1),
            ZERO.wsub(&ONE),
            k.p.shr(1),
            k.p.wsub(&k.fp.c),
            k.n.wsub(&k.fnn.c),
            U::pow2(255),
            U::pow2(224),
            U::pow2(128),
            U::pow2(32),
            f.inv(&U::from_u64(2)),
            f.inv(&U::from_u64(3)),
            f.inv(&k.lambda),
            k.gx,
            k.gy,
            U::from_words32(&GEN_BLIND),
            f.neg(&U::from_words32(&GEN_BLIND)),
        ]
    })
}

/// the fixed blinding scalar of the generator context (bits of d + blind select table entries)
pub const GEN_BLIND: [u32; 8] = [
    2217680822, 850875797, 1046150361, 1330484644, 4015777837, 2466086288, 2052467175, 2084507480,
];

fn word(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 | 1 => 0,
        2 | 3 => 0xffff_ffff,
        4 => 1,
        5 => 0x8000_0000,
        6 => 0xffff_fffe,
        7 => 0x7fff_ffff,
        8 => 1u32 << r.below(32),
        _ => r.u32(),
    }
}

/// any 256-bit value
pub fn raw(r: &mut Rng) -> U {
    match r.below(20) {
        0..=5 => U::from_be(&r.b32()),
        6 => U::from_u64(r.u64() >> (r.below(64) as u32)),
        7 => {
            // runs of equal bits
            let mut u = ZERO;
            let mut i = 0;
            let mut v = r.coin();
            while i < 256 {
                let m = 1 << r.range(1, 7);
                let n = 1 + r.below(m);
                for j in i..(i + n).min(256) {
                    if v {
                        u = u.wadd(&U::pow2(j));
                    }
                }
                v = !v;
                i += n;
            }
            u
        }
        8 | 9 => {
            let mut w = [0u32; 8];
            for x in w.iter_mut() {
                *x = word(r);
            }
            U::from_words32(&w)
        }
        10 | 11 | 12 => {
            let a = *r.pick(anchors());
            let d = U::from_u64(match r.below(4) {
                0 => r.below(4) as u64,
                1 => r.below(300) as u64,
                2 => r.u64() >> r.below(64),
                _ => 1 << r.below(64),
            });
            if r.coin() {
                a.wadd(&d)
            } else {
                a.wsub(&d)
            }
        }
        13 => {
            // 26-bit limb patterns
            let mut u = ZERO;
            for i in 0..10 {
                let l: u64 = match r.below(5) {
                    0 => 0,
                    1 => 0x3ffffff,
                    2 => 1 << r.below(26),
                    3 => 0x3fffffe,
                    _ => r.u64() & 0x3ffffff,
                };
                let l = if i == 9 { l & 0x3fffff } else { l };
                u = u.wadd(&U::from_u64(l).shl(26 * i));
            }
            u
        }
        14 => {
            // repeated digit patterns in windows of 4 / 5 / 16 bits
            let w = *r.pick(&[4usize, 4, 5, 8, 15, 16]);
            let ds: Vec<u64> = (0..r.range(1, 3))
                .map(|_| match r.below(4) {
                    0 => 0,
                    1 => (1 << w) - 1,
                    2 => 1 << (w - 1),
                    _ => r.u64() & ((1 << w) - 1),
                })
                .collect();
            let mut u = ZERO;
            let mut i = 0;
            while i * w < 256 {
                let d = ds[if r.one_in(8) { 0 } else { i % ds.len() }];
                u = u.wadd(&U::from_u64(d).shl(i * w));
                i += 1;
            }
            u
        }
        15 => {
            // exactly L significant bytes with a chosen top byte
            let l = r.range(1, 32);
            let mut b = [0u8; 32];
            for x in b[32 - l..].iter_mut() {
                *x = if r.one_in(4) { *r.pick(&[0, 0xff, 0x80, 0x7f]) } else { r.u8() };
            }
            b[32 - l] = *r.pick(&[0x01, 0x7f, 0x80, 0xff, 0x81]);
            U::from_be(&b)
        }
        16 | 17 => {
            let a = U::pow2(r.below(256));
            let b = U::pow2(r.below(256));
            if r.coin() {
                a.wadd(&b)
            } else {
                a.wsub(&b)
            }
        }
        18 => {
            // value whose sum with the blinding has a chosen digit pattern
            let mut w = [0u32; 8];
            for x in w.iter_mut() {
                *x = word(r);
            }
            U::from_words32(&w).wsub(&U::from_words32(&GEN_BLIND))
        }
        _ => {
            let u = U::from_be(&r.b32());
            let n = r.below(256);
            if r.coin() {
                u.mask(n)
            } else {
                u.shr(n).shl(n)
            }
        }
    }
}
/// in [0, n)
pub fn scalar0(r: &mut Rng) -> U {
    if r.one_in(40) {
        return U::from_u64(r.below(3) as u64);
    }
    let f = &k().fnn;
    let u = f.red(&raw(r));
    match r.below(12) {
        0 => f.inv(&u),
        1 => f.neg(&u),
        2 => f.mul(&u, &k().lambda),
        _ => u,
    }
}
/// in [1, n)
pub fn scalar(r: &mut Rng) -> U {
    loop {
        let u = scalar0(r);
        if !u.is_zero() {
            return u;
        }
    }
}
/// in [0, p)
pub fn fe0(r: &mut Rng) -> U {
    let f = &k().fp;
    let u = f.red(&raw(r));
    match r.below(12) {
        0 => f.inv(&u),
        1 => f.neg(&u),
        _ => u,
    }
}
/// value modulo m near the places where a folding reduction carries
pub fn reduction_target(r: &mut Rng, m: &Mod) -> U {
    let d = U::from_u64(match r.below(3) {
        0 => r.below(3) as u64,
        1 => r.below(1 << 16) as u64,
        _ => r.u64() >> r.below(64),
    });
    let base = match r.below(8) {
        0 => ZERO,
        1 => m.c,
        2 => m.c.wadd(&m.c),
        3 => U::pow2(r.below(134)),
        4 => m.m.wsub(&ONE),
        5 => m.m.wsub(&m.c),
        6 => U::from_be(&r.b32()).mask(m.c.bits() + r.below(4)),
        _ => U::from_be(&r.b32()).mask(r.below(140)),
    };
    m.red(&if r.coin() { base.wadd(&d) } else { m.sub(&base, &d) })
}
/// pair (a, b) whose product modulo m is a reduction target
pub fn product_pair(r: &mut Rng, m: &Mod) -> (U, U) {
    loop {
        let a = m.red(&raw(r));
        if !a.is_zero() {
            let t = reduction_target(r, m);
            return (a, m.mul(&t, &m.inv(&a)));
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct P {
    pub x: U,
    pub y: U,
    /// discrete logarithm when known
    pub dl: Option<U>,
}
impl P {
    pub fn pt(&self) -> Pt {
        Some((self.x, self.y))
    }
    pub fn neg(&self) -> P {
        P { x: self.x, y: k().fp.neg(&self.y), dl: self.dl.map(|d| k().fnn.neg(&d)) }
    }
}
pub fn from_dl(d: &U) -> P {
    let (x, y) = model::mul_g(d).expect("nonzero");
    P { x, y, dl: Some(*d) }
}
/// a finite curve point
pub fn point(r: &mut Rng) -> P {
    let kk = k();
    let p = match r.below(16) {
        0..=3 => from_dl(&scalar(r)),
        4 => from_dl(&U::from_u64(1 + r.below(40) as u64)),
        5 => {
            let s = U::from_u64(1 + r.below(20) as u64);
            let s = kk.fnn.mul(&s, &if r.coin() { kk.lambda } else { kk.fnn.sqr(&kk.lambda) });
            from_dl(&s)
        }
        6 => {
            // power-of-two multiple of the generator or a sum of two
            let s = kk.fnn.add(&U::pow2(r.below(256)), &U::pow2(r.below(256)));
            if s.is_zero() {
                from_dl(&ONE)
            } else {
                from_dl(&s)
            }
        }
        7 => walk_x(&U::from_u64(r.below(1000) as u64), r.coin()),
        8 => {
            // x in [n, p)
            let x = kk.n.wadd(&match r.below(3) {
                0 => U::from_u64(r.below(2000) as u64),
                1 => kk.p_minus_n.wsub(&U::from_u64(1 + r.below(2000) as u64)),
                _ => U::from_be(&r.b32()).mask(128),
            });
            walk_x(&x, r.coin())
        }
        9 => {
            // small or extreme y
            let mut y = match r.below(4) {
                0 => U::from_u64(1 + r.below(2000) as u64),
                1 => kk.p.wsub(&U::from_u64(1 + r.below(2000) as u64)),
                2 => U::from_u64(r.u64()),
                _ => kk.fp.red(&raw(r)),
            };
            loop {
                let f = &kk.fp;
                if let Some(x) = model::cbrt(&f.sub(&f.sqr(&y), &U::from_u64(7))) {
                    let x = match r.below(3) {
                        0 => x,
                        1 => f.mul(&x, &kk.beta),
                        _ => f.mul(&x, &f.sqr(&kk.beta)),
                    };
                    break P { x, y, dl: None };
                }
                y = f.add(&y, &ONE);
            }
        }
        10 => {
            // leading zero bytes in x
            let x = U::from_be(&r.b32()).mask(256 - 8 * r.range(1, 20));
            walk_x(&x, r.coin())
        }
        11 => walk_x(&kk.p.wsub(&U::from_u64(1 + r.below(1000) as u64)), r.coin()),
        _ => walk_x(&kk.fp.red(&raw(r)), r.coin()),
    };
    if r.one_in(6) {
        p.neg()
    } else {
        p
    }
}
/// first curve point with x-coordinate x, x+1, ...
pub fn walk_x(x: &U, odd: bool) -> P {
    let mut x = k().fp.red(x);
    loop {
        if let Some((x, y)) = model::lift_x(&x, odd) {
            return P { x, y, dl: None };
        }
        x = k().fp.add(&x, &ONE);
    }
}
/// 32 bytes for message positions, also values >= n
pub fn msg(r: &mut Rng) -> [u8; 32] {
    if r.one_in(5) {
        let kk = k();
        return match r.below(4) {
            0 => kk.n.wadd(&U::from_u64(r.below(4) as u64)),
            1 => ZERO.wsub(&U::from_u64(1 + r.below(4) as u64)),
            2 => kk.n.wadd(&U::from_be(&r.b32()).mask(r.range(1, 128))),
            _ => ZERO.wsub(&U::from_be(&r.b32()).mask(r.range(1, 128))),
        }
        .be();
    }
    raw(r).be()
}

/// all lengths up to max, and the longer ones that a narrowed or multiplied length would take for a core one
pub fn lens(max: usize, core: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=max).collect();
    for c in core {
        for m in [128usize, 256, 512, 768, 1024, 4096, 1 << 15, 1 << 16, (1 << 16) + 256, 1 << 20] {
            v.extend([m + c, m - c, m]);
        }
        v.extend([2 * c, 3 * c, 4 * c, 8 * c, 2 * c + 1]);
    }
    v.retain(|x| *x > max);
    v.sort();
    v.dedup();
    let mut all: Vec<usize> = (0..=max).collect();
    all.extend(v);
    all
}
