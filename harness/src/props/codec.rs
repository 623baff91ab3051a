//! C05 public keys, C06 secret keys, C07 compact encodings, C13 serde.
use super::prop;
use crate::gen::{self, P};
use crate::lib_api::*;
use crate::model::{self, k};
use crate::mon::*;
use crate::u256::*;
use libsecp256k1 as lib;
use std::convert::TryFrom;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C05", "encodings: valid points in every form, all 256 tags, coordinates shifted by p, off-curve and twisted variants, bit flips, every slice length 0..=80 and selected ones up to 2^20 with every format hint, keys obtained by ten different API routes; acceptance, error kind, parsed point, both serialisations and equality are compared with the reference; distinct by input bytes", (3000, 400000), 1, c05),
        prop("C06", "32-byte strings biased to 0, n and limb patterns, every slice length 0..=70 and selected ones up to 2^20, scalars built directly from limbs (also >= n), scripted random streams with inadmissible leading blocks; admission, value, hex, inverse compared with the reference; distinct by input bytes", (2000, 250000), 1, c06),
        prop("C07", "64-byte and 32-byte strings with components around 0, n/2, n and 2^256, every slice length 0..=80 and selected ones up to 2^20, all 256 recovery bytes; parsing, reduction, normalisation and serialisation compared with the reference; distinct by input bytes", (5000, 600000), 1, c07),
        prop("C13", "keys and mutated payloads through serde_json, bincode and value deserialisers: wrong alphabets, padding and trailing-bit variants, every payload length 0..=80 and selected ones up to 70,000, invalid points, wrong types; acceptance and the resulting key compared with the reference; distinct by payload", (4000, 500000), 1, c13),
    ]
}

pub fn ref65(b: &[u8]) -> Option<P> {
    let (x, y) = (U::from_be(&b[1..33]), U::from_be(&b[33..65]));
    if !(b[0] == 4 || b[0] == 6 || b[0] == 7) || !x.lt(&k().p) || !y.lt(&k().p) || !model::on_curve(&x, &y) {
        return None;
    }
    if b[0] != 4 && (b[0] == 7) != y.is_odd() {
        return None;
    }
    Some(P { x, y, dl: None })
}
pub fn ref33(b: &[u8]) -> Option<P> {
    let x = U::from_be(&b[1..33]);
    if !(b[0] == 2 || b[0] == 3) || !x.lt(&k().p) {
        return None;
    }
    let (x, y) = model::lift_x(&x, b[0] == 3)?;
    Some(P { x, y, dl: None })
}
pub fn ref_slice(b: &[u8]) -> Option<P> {
    match b.len() {
        33 => ref33(b),
        64 => {
            let mut f = vec![4];
            f.extend_from_slice(b);
            ref65(&f)
        }
        65 => ref65(b),
        _ => None,
    }
}
/// an interesting 65-byte candidate
pub fn cand65(cx: &mut Cx) -> [u8; 65] {
    let kk = k();
    let p = gen::point(&mut cx.rng);
    let mut b = model::ser65(&p.pt());
    let r = &mut cx.rng;
    if r.one_in(3) {
        b[0] = 6 + (p.y.is_odd() ^ r.one_in(3)) as u8;
    }
    match r.below(14) {
        0 => b[0] = r.u8(),
        1 => {
            // non-canonical x
            if p.x.lt(&kk.fp.c) {
                b[1..33].copy_from_slice(&p.x.wadd(&kk.p).be());
            } else {
                b[1..33].copy_from_slice(&kk.p.wadd(&U::from_u64(r.u64() & 0xffff)).be());
            }
        }
        2 => {
            if p.y.lt(&kk.fp.c) {
                b[33..].copy_from_slice(&p.y.wadd(&kk.p).be());
            } else {
                b[33..].copy_from_slice(&kk.p.wadd(&U::from_u64(r.u64() & 0xffff)).be());
            }
        }
        3 => {
            let i = r.range(1, 64);
            b[i] ^= 1 << r.below(8);
        }
        4 => b[33..].copy_from_slice(&gen::fe0(r).be()),
        5 => {
            // on another curve y^2 = x^3 + b'
            let x = gen::fe0(r);
            let y = gen::fe0(r);
            b[1..33].copy_from_slice(&x.be());
            b[33..].copy_from_slice(&y.be());
        }
        6 => {
            // y^2 = x^3 - 7 or y^2 = x^3 + 7 + small
            let f = &kk.fp;
            let d = U::from_u64(1 + r.below(20) as u64);
            let t = if r.coin() { f.add(&model::rhs(&p.x), &d) } else { f.sub(&model::rhs(&p.x), &d) };
            if let Some(y) = model::sqrt(&t) {
                b[33..].copy_from_slice(&y.be());
            }
        }
        7 => {
            for x in b[1..].iter_mut() {
                *x = *[0u8, 0xff].get(r.below(2)).unwrap();
            }
        }
        8 => b[1..33].copy_from_slice(&gen::raw(r).be()),
        _ => {}
    }
    b
}
/// small x for which x + p fits in 32 bytes, together with its representations
fn noncanonical(cx: &mut Cx) -> P {
    if cx.rng.coin() {
        gen::walk_x(&U::from_u64(cx.rng.u64() >> 33), cx.rng.coin())
    } else {
        // small y
        let f = &k().fp;
        let mut y = U::from_u64(cx.rng.u64() >> 33);
        loop {
            if let Some(x) = model::cbrt(&f.sub(&f.sqr(&y), &U::from_u64(7))) {
                return P { x, y, dl: None };
            }
            y = y.wadd(&ONE);
        }
    }
}
fn fmt_err(e: &Error) -> String {
    format!("{:?}", e)
}
fn judge_parse(cx: &mut Cx, kind: &'static str, bytes: &[u8], fmt: usize) {
    let f = match fmt {
        0 => None,
        1 => Some(PublicKeyFormat::Compressed),
        2 => Some(PublicKeyFormat::Full),
        _ => Some(PublicKeyFormat::Raw),
    };
    let len_ok = match fmt {
        0 => [33, 64, 65].contains(&bytes.len()),
        1 => bytes.len() == 33,
        2 => bytes.len() == 65,
        _ => bytes.len() == 64,
    };
    let want: Result<[u8; 65], String> = if !len_ok {
        Err("InvalidInputLength".into())
    } else {
        ref_slice(bytes).map(|p| model::ser65(&p.pt())).ok_or("InvalidPublicKey".into())
    };
    let got = PublicKey::parse_slice(bytes, f);
    cx.ev(kind);
    cx.seen(if want.is_ok() { "accepted" } else { "refused" });
    cx.nt(&[b"p", bytes, &[fmt as u8]]);
    let ctx = || format!("{} format={} bytes={}", kind, fmt, hex(bytes));
    cx.eq(got.as_ref().map(|q| q.serialize()).map_err(fmt_err), want.clone(), "parse_slice", ctx);
    if len_ok && bytes.len() != 64 {
        // the fixed-size entry points
        let direct = if bytes.len() == 65 {
            let mut a = [0u8; 65];
            a.copy_from_slice(bytes);
            PublicKey::parse(&a)
        } else {
            let mut a = [0u8; 33];
            a.copy_from_slice(bytes);
            PublicKey::parse_compressed(&a)
        };
        cx.eq(direct.as_ref().map(|q| q.serialize()).map_err(fmt_err), want, "parse", ctx);
    }
    if let Ok(q) = got {
        if let Some(p) = ref_slice(bytes) {
            cx.eq(q.serialize_compressed(), model::ser33(&p.pt()), "serialize_compressed after parse", ctx);
        }
    }
    cx.sample(ctx);
}
fn c05(cx: &mut Cx) {
    let kk = k();
    if cx.block == 0 {
        // every length with every format; valid prefixes so that only the length is wrong
        for len in gen::lens(80, &[33, 64, 65]) {
            for fmt in 0..4 {
                for first in [2u8, 3, 4, 6, 7, 0, 5] {
                    if len > 2000 && first != 2 + (len as u8 & 1) && first != 4 {
                        continue;
                    }
                    let mut b = cx.rng.bytes(len);
                    let p = gen::from_dl(&U::from_u64(1 + len as u64));
                    let s = model::ser65(&p.pt());
                    let n = len.min(65);
                    b[..n].copy_from_slice(&s[..n]);
                    if len == 64 {
                        b.copy_from_slice(&s[1..]);
                    } else if len > 0 {
                        b[0] = first;
                    }
                    judge_parse(cx, "length", &b, fmt);
                    if len > 65 && first < 5 {
                        // a valid key at the end instead of the beginning
                        match first {
                            2 | 3 => b[len - 33..].copy_from_slice(&model::ser33(&p.pt())),
                            4 => b[len - 65..].copy_from_slice(&s),
                            _ => b[len - 64..].copy_from_slice(&s[1..]),
                        }
                        judge_parse(cx, "length_suffix", &b, fmt);
                    }
                }
            }
        }
        // every tag on both forms
        for p in [gen::from_dl(&ONE), gen::from_dl(&U::from_u64(2)), gen::from_dl(&kk.n.wsub(&ONE)), gen::from_dl(&U::from_u64(6))] {
            for t in 0..=255u8 {
                let mut b = model::ser65(&p.pt());
                b[0] = t;
                judge_parse(cx, "tag65", &b, 0);
                judge_parse(cx, "tag33", &b[..33], 0);
            }
        }
        // exceptional affine inputs
        let inf = Affine { x: fe(&kk.gx), y: fe(&kk.gy), infinity: true };
        for a in [lib::util::AFFINE_INFINITY, inf, Affine::default()] {
            cx.ev("affine_invalid");
            let got = PublicKey::try_from(a).map(|_| ()).map_err(|e| fmt_err(&e));
            cx.eq(got, Err("InvalidAffine".into()), "try_from", || format!("{:?}", a));
        }
        return;
    }
    for _ in 0..12 {
        let b = cand65(cx);
        let f = if cx.rng.one_in(4) { 2 } else { 0 };
        judge_parse(cx, "full", &b, f);
        let f = if cx.rng.one_in(4) { 3 } else { 0 };
        judge_parse(cx, "raw", &b[1..], f);
        let mut c = [0u8; 33];
        c.copy_from_slice(&b[..33]);
        if !cx.rng.one_in(8) {
            c[0] = 2 + (cx.rng.u8() & 1);
        }
        if cx.rng.one_in(3) {
            c[1..].copy_from_slice(&gen::raw(&mut cx.rng).be());
        }
        let f = if cx.rng.one_in(4) { 1 } else { 0 };
        judge_parse(cx, "compressed", &c, f);
        // x + p, y + p in every form
        let p = noncanonical(cx);
        for (dx, dy) in [(0, 1), (1, 0), (1, 1)] {
            let x = if dx == 1 { p.x.add(&kk.p) } else { (p.x, false) };
            let y = if dy == 1 { p.y.add(&kk.p) } else { (p.y, false) };
            if x.1 || y.1 {
                continue;
            }
            let mut b = [4u8; 65];
            b[1..33].copy_from_slice(&x.0.be());
            b[33..].copy_from_slice(&y.0.be());
            if cx.rng.one_in(3) {
                b[0] = 6 + (cx.rng.u8() & 1);
            }
            judge_parse(cx, "coordinate_plus_p", &b, 0);
            judge_parse(cx, "coordinate_plus_p_raw", &b[1..], 0);
            if dx == 1 {
                b[0] = 2 + (cx.rng.u8() & 1);
                judge_parse(cx, "coordinate_plus_p_compressed", &b[..33], 0);
            }
        }
        // keys by route: canonical serialisation, re-parse, equality
        let p = if cx.rng.coin() { gen::point(&mut cx.rng) } else { gen::from_dl(&gen::scalar(&mut cx.rng)) };
        let (w1, w2) = (cx.rng.below(10), cx.rng.below(10));
        let (q1, q2) = (route(&mut cx.rng, &p, w1), route(&mut cx.rng, &p, w2));
        let full = model::ser65(&p.pt());
        let comp = model::ser33(&p.pt());
        for (q, w) in [(q1, w1), (q2, w2)] {
            let Some(q) = q else { continue };
            cx.ev(ROUTES[w]);
            cx.nt(&[b"r", &full, &[w as u8]]);
            let ctx = || format!("{} point={}", ROUTES[w], hex(&full));
            cx.eq(q.serialize(), full, "serialize by route", ctx);
            cx.eq(q.serialize_compressed(), comp, "serialize_compressed by route", ctx);
            for s in [&full[..], &comp[..], &full[1..]] {
                match PublicKey::parse_slice(s, None) {
                    Ok(q2) => {
                        cx.check(q2 == q && q == q2, "re-parsed key differs", ctx);
                    }
                    Err(e) => cx.fail("re-parse refused", format!("{:?} {}", e, ctx())),
                }
            }
            let a: Affine = q.into();
            cx.check(affpt(&a) == p.pt(), "into affine", ctx);
            // inequality with related points
            let other = match cx.rng.below(4) {
                0 => p.neg(),
                1 => P { x: kk.fp.mul(&p.x, &kk.beta), y: p.y, dl: None },
                2 => P { x: kk.fp.mul(&p.x, &kk.beta), y: kk.fp.neg(&p.y), dl: None },
                _ => gen::point(&mut cx.rng),
            };
            if let Some(o) = pk(&other) {
                let same = model::ser65(&other.pt()) == full;
                cx.check((q == o) == same && (o == q) == same && (q != o) != same, "equality", || format!("{} other={}", ctx(), hex(&model::ser65(&other.pt()))));
            }
        }
        if let (Some(a), Some(b)) = (q1, q2) {
            if a.serialize() == full && b.serialize() == full {
                cx.ev("equality_across_routes");
                cx.check(a == b, "equal points by two routes differ", || format!("{} {} {}", ROUTES[w1], ROUTES[w2], hex(&full)));
            }
        }
        // raw affine conversion
        let b = cand65(cx);
        let (x, y) = (kk.fp.red(&U::from_be(&b[1..33])), kk.fp.red(&U::from_be(&b[33..])));
        let (fx, fy) = (super::math::field_rep(&mut cx.rng, &x), super::math::field_rep(&mut cx.rng, &y));
        let want = if model::on_curve(&x, &y) { Ok(model::ser65(&Some((x, y)))) } else { Err("InvalidAffine".to_string()) };
        let got = PublicKey::try_from(Affine::new(fx, fy)).map(|q| q.serialize()).map_err(|e| fmt_err(&e));
        cx.ev("affine");
        cx.eq(got, want, "try_from affine", || format!("x={} y={}", x.hex(), y.hex()));
        let got = PublicKey::try_from(Affine { x: fx, y: fy, infinity: true }).map(|_| ()).map_err(|e| fmt_err(&e));
        cx.ev("affine_infinite");
        cx.eq(got, Err("InvalidAffine".into()), "try_from infinite affine", || format!("x={} y={}", x.hex(), y.hex()));
    }
}

/// generator that hands out a scripted byte stream and records what was asked
pub struct ScriptRng {
    pub blocks: Vec<[u8; 32]>,
    pub pos: usize,
    pub other: bool,
}
impl rand::RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        self.other = true;
        0x5a5a5a5a
    }
    fn next_u64(&mut self) -> u64 {
        self.other = true;
        0x5a5a5a5a5a5a5a5a
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest.iter_mut() {
            let i = self.pos / 32;
            *b = if i < self.blocks.len() { self.blocks[i][self.pos % 32] } else { 0x33 };
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
fn admissible(u: &U) -> bool {
    !u.is_zero() && u.lt(&k().n)
}
fn c06(cx: &mut Cx) {
    let kk = k();
    if cx.block == 0 {
        for len in gen::lens(70, &[32]) {
            for _ in 0..if len > 2000 { 1 } else { 4 } {
                let mut b = cx.rng.bytes(len);
                if let Some(x) = b.first_mut() {
                    *x &= 0x7f;
                }
                let got = SecretKey::parse_slice(&b).map(|k| k.serialize().to_vec()).map_err(|e| fmt_err(&e));
                let want = if len == 32 { Ok(b.clone()) } else { Err("InvalidInputLength".into()) };
                cx.ev("length");
                cx.nt(&[&b]);
                cx.eq(got, want, "parse_slice", || hex(&b));
            }
        }
        let mut one = [0u8; 32];
        one[31] = 1;
        cx.ev("default");
        cx.eq(SecretKey::default().serialize(), one, "default", || String::new());
        return;
    }
    for _ in 0..60 {
        let u = gen::raw(&mut cx.rng);
        let b = u.be();
        let ok = admissible(&u);
        let ctx = || format!("bytes={}", hex(&b));
        cx.ev(if ok { "admissible" } else { "inadmissible" });
        cx.nt(&[&b]);
        let want = if ok { Some(b) } else { None };
        let got = SecretKey::parse(&b);
        cx.eq(got.as_ref().ok().map(|s| s.serialize()), want, "parse", ctx);
        cx.eq(SecretKey::parse_slice(&b).ok().map(|s| s.serialize()), want, "parse_slice", ctx);
        let s: Scalar = Scalar(u.words32());
        let tf = SecretKey::try_from(s);
        cx.ev("from_scalar");
        cx.eq(tf.as_ref().ok().map(|s| s.serialize()), want, "try_from scalar", ctx);
        for key in [got, tf] {
            let Ok(key) = key else { continue };
            if !ok {
                continue;
            }
            let back: Scalar = key.into();
            cx.check(back.0 == u.words32(), "into scalar", ctx);
            cx.eq(format!("{:x}", key), u.hex(), "lower hex", ctx);
            cx.check(!key.is_zero(), "is_zero", ctx);
            cx.check(key == key.clone(), "eq", ctx);
            cx.eq(key.inv().serialize(), kk.fnn.inv(&u).be(), "inv", ctx);
            cx.eq(key.inv().inv().serialize(), b, "inv twice", ctx);
        }
        cx.sample(ctx);
    }
    // random generation
    for _ in 0..20 {
        let bad = cx.rng.below(6);
        let mut blocks: Vec<[u8; 32]> = (0..bad)
            .map(|_| match cx.rng.below(5) {
                0 => [0u8; 32],
                1 => kk.n.be(),
                2 => [0xff; 32],
                3 => kk.n.wadd(&U::from_be(&cx.rng.b32()).mask(128)).be(),
                _ => kk.n.wadd(&U::from_u64(cx.rng.below(5) as u64)).be(),
            })
            .collect();
        for _ in 0..3 {
            blocks.push(gen::scalar(&mut cx.rng).be());
        }
        let want = *blocks.iter().find(|b| admissible(&U::from_be(&b[..]))).unwrap();
        let mut r = ScriptRng { blocks: blocks.clone(), pos: 0, other: false };
        let key = SecretKey::random(&mut r);
        let v = U::from_be(&key.serialize());
        let ctx = || format!("stream={:?}", blocks.iter().map(|b| hex(b)).collect::<Vec<_>>());
        cx.ev("random_stream");
        cx.nt(&[b"rnd", &blocks.concat()]);
        cx.check(admissible(&v), "random key out of range", ctx);
        if !r.other {
            cx.eq(key.serialize(), want, "random", ctx);
        } else {
            cx.seen("random_stream_read_otherwise");
        }
    }
}

fn c07(cx: &mut Cx) {
    let kk = k();
    let f = &kk.fnn;
    if cx.block == 0 {
        for len in gen::lens(80, &[32, 64]) {
            for _ in 0..if len > 2000 { 1 } else { 4 } {
                let mut b = cx.rng.bytes(len);
                for i in [0, 32] {
                    if let Some(x) = b.get_mut(i) {
                        *x &= 0x7f;
                    }
                }
                cx.ev("length");
                cx.nt(&[&b]);
                let w64 = if len == 64 { Ok(b.clone()) } else { Err("InvalidInputLength".to_string()) };
                let w32 = if len == 32 { Ok(b.clone()) } else { Err("InvalidInputLength".to_string()) };
                let ctx = || hex(&b);
                cx.eq(Signature::parse_standard_slice(&b).map(|s| s.serialize().to_vec()).map_err(|e| fmt_err(&e)), w64.clone(), "parse_standard_slice", ctx);
                cx.eq(Signature::parse_overflowing_slice(&b).map(|s| s.serialize().to_vec()).map_err(|e| fmt_err(&e)), w64, "parse_overflowing_slice", ctx);
                cx.eq(Message::parse_slice(&b).map(|s| s.serialize().to_vec()).map_err(|e| fmt_err(&e)), w32, "Message::parse_slice", ctx);
            }
        }
        for v in 0..=255u8 {
            cx.ev("recovery_id");
            let w = if v < 4 { Some(v) } else { None };
            let g = RecoveryId::parse(v).ok();
            cx.eq(g.map(|i| i.serialize()), w, "RecoveryId::parse", || format!("{}", v));
            if let Some(i) = g {
                let (a, b): (u8, i32) = (i.into(), i.into());
                cx.eq((a, b), (v, v as i32), "RecoveryId into", || format!("{}", v));
            }
            let w = if (27..31).contains(&v) { Some(v - 27) } else { None };
            cx.eq(RecoveryId::parse_rpc(v).ok().map(|i| i.serialize()), w, "RecoveryId::parse_rpc", || format!("{}", v));
        }
        return;
    }
    for i in 0..60 {
        let comp = |cx: &mut Cx| {
            let t = U::from_u64(cx.rng.below(4) as u64);
            match cx.rng.below(8) {
                0 => kk.n.wadd(&t).wsub(&U::from_u64(2)),
                1 => kk.half_n.wadd(&t).wsub(&U::from_u64(2)),
                2 => t,
                3 => ZERO.wsub(&t),
                4 => kk.n.wadd(&U::from_be(&cx.rng.b32()).mask(128)),
                _ => gen::raw(&mut cx.rng),
            }
        };
        let (r, s) = (comp(cx), comp(cx));
        let mut b = [0u8; 64];
        b[..32].copy_from_slice(&r.be());
        b[32..].copy_from_slice(&s.be());
        let ok = r.lt(&kk.n) && s.lt(&kk.n);
        let ctx = || format!("bytes={}", hex(&b));
        cx.ev(if ok { "signature_in_range" } else { "signature_overflowing" });
        cx.nt(&[&b]);
        let want = if ok { Some(b) } else { None };
        cx.eq(Signature::parse_standard(&b).ok().map(|s| s.serialize()), want, "parse_standard", ctx);
        cx.eq(Signature::parse_standard_slice(&b).ok().map(|s| s.serialize()), want, "parse_standard_slice", ctx);
        let mut red = [0u8; 64];
        red[..32].copy_from_slice(&f.red(&r).be());
        red[32..].copy_from_slice(&f.red(&s).be());
        let o = Signature::parse_overflowing(&b);
        cx.eq(o.serialize(), red, "parse_overflowing", ctx);
        cx.eq(Signature::parse_overflowing_slice(&b).ok().map(|s| s.serialize()), Some(red), "parse_overflowing_slice", ctx);
        cx.eq((scu(&o.r), scu(&o.s)), (f.red(&r), f.red(&s)), "parse_overflowing components", ctx);
        // low-s
        let s0 = f.red(&s);
        let ns = f.neg(&s0);
        let low = if ns.lt(&s0) { ns } else { s0 };
        let mut g = sig(&f.red(&r), &s0);
        g.normalize_s();
        cx.eq((scu(&g.r), scu(&g.s)), (f.red(&r), low), "normalize_s", ctx);
        let once = g;
        g.normalize_s();
        cx.check(g == once, "normalize_s idempotent", ctx);
        // message
        let m = Message::parse(&r.be());
        cx.ev("message");
        cx.eq((scu(&m.0), m.serialize()), (f.red(&r), f.red(&r).be()), "Message::parse", ctx);
        cx.eq(Message::parse_slice(&r.be()).ok().map(|m| m.serialize()), Some(f.red(&r).be()), "Message::parse_slice", ctx);
        if i % 12 == 0 {
            // normalisation keeps the verdict
            let d = gen::scalar(&mut cx.rng);
            let (mm, kn) = (gen::scalar0(&mut cx.rng), gen::scalar(&mut cx.rng));
            if let (Some((r, s, _)), Some(key)) = (model::ecdsa_sign_raw(&d, &mm, &kn), pk(&gen::from_dl(&d))) {
                for s in [s, f.neg(&s)] {
                    let mut g = sig(&r, &s);
                    let before = lib::verify(&msg(&mm), &g, &key);
                    g.normalize_s();
                    cx.ev("normalize_keeps_verdict");
                    cx.eq(lib::verify(&msg(&mm), &g, &key), before, "verdict after normalize_s", || format!("d={} m={} r={} s={}", d.hex(), mm.hex(), r.hex(), s.hex()));
                }
            }
        }
        cx.sample(ctx);
    }
}

#[derive(serde::Serialize, serde::Deserialize, Debug)]
struct Wrap {
    a: Vec<PublicKey>,
    b: Option<PublicKey>,
    c: (PublicKey, u32),
}
fn judge_json(cx: &mut Cx, kind: &'static str, s: &str) {
    let want = model::b64_decode(s).and_then(|b| ref_slice(&b)).map(|p| model::ser65(&p.pt()));
    cx.ev(kind);
    cx.seen(if want.is_some() { "accepted" } else { "refused" });
    cx.nt(&[b"j", s.as_bytes()]);
    let ctx = || format!("{} string={:?}", kind, s);
    let js = serde_json::to_string(s).unwrap();
    cx.eq(serde_json::from_str::<PublicKey>(&js).ok().map(|q| q.serialize()), want, "json from_str", ctx);
    cx.eq(serde_json::from_slice::<PublicKey>(js.as_bytes()).ok().map(|q| q.serialize()), want, "json from_slice", ctx);
    cx.eq(serde_json::from_value::<PublicKey>(serde_json::Value::String(s.into())).ok().map(|q| q.serialize()), want, "json from_value", ctx);
    cx.eq(serde_json::from_reader::<_, PublicKey>(js.as_bytes()).ok().map(|q| q.serialize()), want, "json from_reader", ctx);
    cx.sample(ctx);
}
fn judge_bin(cx: &mut Cx, kind: &'static str, b: &[u8]) {
    let want = ref_slice(b).map(|p| model::ser65(&p.pt()));
    cx.ev(kind);
    cx.seen(if want.is_some() { "accepted" } else { "refused" });
    cx.nt(&[b"b", b]);
    let ctx = || format!("{} bytes={}", kind, hex(b));
    let mut enc = (b.len() as u64).to_le_bytes().to_vec();
    enc.extend_from_slice(b);
    cx.eq(bincode::deserialize::<PublicKey>(&enc).ok().map(|q| q.serialize()), want, "bincode deserialize", ctx);
    cx.eq(bincode::deserialize_from::<_, PublicKey>(&enc[..]).ok().map(|q| q.serialize()), want, "bincode deserialize_from", ctx);
}
fn c13(cx: &mut Cx) {
    if cx.block == 0 {
        for len in gen::lens(80, &[33, 64, 65]) {
            for first in [2u8, 3, 4, 6, 7] {
                if len > 2000 && (first != 4 || len > 70_000) {
                    continue;
                }
                let mut b = cx.rng.bytes(len);
                let s = model::ser65(&gen::from_dl(&U::from_u64(3 + len as u64)).pt());
                let n = len.min(65);
                b[..n].copy_from_slice(&s[..n]);
                if len == 64 {
                    b.copy_from_slice(&s[1..]);
                } else if len > 0 {
                    b[0] = first;
                }
                judge_bin(cx, "payload_length", &b);
                judge_json(cx, "payload_length_string", &model::b64_encode(&b));
            }
        }
        for bad in ["null", "1", "[1,2,3]", "{}", "true", "\"\"", "[]", "1.5", "\"AAAA\"", "", "\"", "[4,121]", "{\"x\":1}"] {
            cx.ev("wrong_type");
            let g = serde_json::from_str::<PublicKey>(bad).is_ok();
            cx.eq(g, false, "json wrong type", || bad.to_string());
        }
        let s = model::ser65(&gen::from_dl(&U::from_u64(3)).pt());
        let arr = serde_json::to_string(&s.to_vec()).unwrap();
        cx.ev("wrong_type");
        cx.eq(serde_json::from_str::<PublicKey>(&arr).is_ok(), false, "json array of bytes", || arr.clone());
        for n in 0..73 {
            let mut enc = 65u64.to_le_bytes().to_vec();
            enc.extend_from_slice(&s);
            enc.truncate(n);
            cx.ev("truncated");
            cx.eq(bincode::deserialize::<PublicKey>(&enc).is_ok(), false, "bincode truncated", || format!("{}", n));
        }
        // one foreign character in front of, inside and behind valid strings, and every last-character variant
        for form in [s.to_vec(), s[1..].to_vec(), model::ser33(&gen::from_dl(&U::from_u64(3)).pt()).to_vec()] {
            let good = model::b64_encode(&form);
            for x in [" ", "\n", "\r\n", "\t", "\0", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{3000}", "=", "==", "\"", "'", "-", "_", ",", ".", ":", "%", "0x", "AAAA", "data:;base64,"] {
                judge_json(cx, "affix_string", &format!("{}{}", x, good));
                judge_json(cx, "affix_string", &format!("{}{}", good, x));
                judge_json(cx, "affix_string", &format!("{}{}{}", x, good, x));
                for at in [1, 4, 40, good.len() - 4, good.len() - 1] {
                    judge_json(cx, "affix_string", &format!("{}{}{}", &good[..at], x, &good[at..]));
                }
            }
            let body = good.trim_end_matches('=');
            for pad in 0..4 {
                for i in 0..128u8 {
                    judge_json(cx, "last_character", &format!("{}{}{}", &body[..body.len() - 1], i as char, "=".repeat(pad)));
                }
            }
            for at in 0..good.len() {
                for x in ["-", "_", "=", " ", "+", "/"] {
                    judge_json(cx, "replaced_character", &format!("{}{}{}", &good[..at], x, &good[at + 1..]));
                }
            }
        }
        return;
    }
    for _ in 0..12 {
        let p = gen::point(&mut cx.rng);
        let full = model::ser65(&p.pt());
        let Some(q) = any_route(&mut cx.rng, &p) else {
            cx.seen("setup_skipped");
            continue;
        };
        let ctx = || format!("key={}", hex(&full));
        // serialise
        cx.ev("serialize");
        cx.nt(&[b"s", &full]);
        let b64 = model::b64_encode(&full);
        cx.eq(serde_json::to_string(&q).ok(), Some(format!("\"{}\"", b64)), "json serialize", ctx);
        cx.eq(serde_json::to_value(&q).ok(), Some(serde_json::Value::String(b64.clone())), "json to_value", ctx);
        let mut enc = 65u64.to_le_bytes().to_vec();
        enc.extend_from_slice(&full);
        cx.eq(bincode::serialize(&q).ok(), Some(enc.clone()), "bincode serialize", ctx);
        // round trip, nested
        let w = Wrap { a: vec![q; cx.rng.below(4)], b: if cx.rng.coin() { Some(q) } else { None }, c: (q, cx.rng.u32()) };
        let j = serde_json::to_string(&w).ok();
        let w2: Option<Wrap> = j.as_ref().and_then(|s| serde_json::from_str(s).ok());
        let w3: Option<Wrap> = bincode::serialize(&w).ok().and_then(|s| bincode::deserialize(&s).ok());
        for w2 in [w2, w3] {
            cx.ev("round_trip");
            match w2 {
                None => cx.fail("round trip failed", ctx()),
                Some(w2) => {
                    let same = w2.a == w.a && w2.b == w.b && w2.c == w.c;
                    cx.check(same, "round trip differs", ctx);
                }
            }
        }
        // deserialise: forms
        for b in [&full[..], &full[1..], &model::ser33(&p.pt())[..]] {
            judge_json(cx, "valid_string", &model::b64_encode(b));
            judge_bin(cx, "valid_bytes", b);
        }
        // invalid points
        let c = cand65(cx);
        judge_json(cx, "candidate_string", &model::b64_encode(&c));
        judge_bin(cx, "candidate_bytes", &c);
        let mut c33 = c[..33].to_vec();
        c33[0] = 2 + (cx.rng.u8() & 1) + if cx.rng.one_in(6) { 4 } else { 0 };
        if cx.rng.coin() {
            c33[1..].copy_from_slice(&gen::raw(&mut cx.rng).be());
        }
        judge_json(cx, "candidate_string", &model::b64_encode(&c33));
        judge_bin(cx, "candidate_bytes", &c33);
        judge_bin(cx, "candidate_bytes", &c[1..]);
        // string mutations
        let form = match cx.rng.below(3) {
            0 => full.to_vec(),
            1 => full[1..].to_vec(),
            _ => model::ser33(&p.pt()).to_vec(),
        };
        let s = model::b64_encode(&form);
        let mut t: Vec<char> = s.chars().collect();
        match cx.rng.below(12) {
            0 => {
                while t.last() == Some(&'=') {
                    t.pop();
                }
            }
            1 => t.push('='),
            2 => {
                for x in t.iter_mut() {
                    if *x == '+' {
                        *x = '-'
                    } else if *x == '/' {
                        *x = '_'
                    }
                }
            }
            3 => t.insert(cx.rng.below(s.len()), *cx.rng.pick(&[' ', '\n', '\r', '\t', '\0'])),
            4 => {
                // nonzero trailing bits
                let i = t.iter().rposition(|c| *c != '=').unwrap();
                t[i] = *cx.rng.pick(&['A', 'B', 'C', 'D', 'E', 'Q', 'R', '8', '/', 'g', 'h', 'w']);
            }
            5 => {
                let i = cx.rng.below(t.len());
                t[i] = *cx.rng.pick(&['=', '!', '\u{e9}', 'A', '/', '-']);
            }
            6 => {
                let n = cx.rng.below(t.len());
                t.truncate(n);
            }
            7 => t.extend("AAAA".chars()),
            8 => t.insert(0, *cx.rng.pick(&['A', '=', ' '])),
            9 => {
                let i = cx.rng.below(t.len());
                let mut b = [0u8; 1];
                b[0] = cx.rng.u8() & 0x7f;
                t[i] = b[0] as char;
            }
            10 => t = s.repeat(2).chars().collect(),
            _ => {
                let i = cx.rng.below(t.len());
                t.remove(i);
            }
        }
        let t: String = t.into_iter().collect();
        judge_json(cx, "mutated_string", &t);
    }
}
