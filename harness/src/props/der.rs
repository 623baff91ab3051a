//! C08 strict DER, C09 lax DER.
use super::prop;
use crate::gen;
use crate::lib_api::*;
use crate::model::{self, k, DerInt};
use crate::mon::*;
use crate::rng::Rng;
use crate::u256::*;
use secp256k1 as c;

pub fn props() -> Vec<Prop> {
    vec![
        prop("C08", "byte strings: exhaustive short strings over a DER-relevant alphabet, all single-byte substitutions, truncations and extensions of valid encodings, structure-aware construction (tag, length form, integer form, nesting, trailing data); acceptance and values compared with a reference strict decoder, encodings of biased (r, s) with the reference encoder; distinct by bytes", (6000, 900000), 24, c08),
        prop("C09", "byte strings as for C08 plus lax forms (long, padded and wrong lengths, zero padding, trailing data, oversized integers); acceptance compared exactly with a transcription of Bitcoin Core's lax parser and with the C library's, values compared when in range; distinct by bytes", (6000, 900000), 24, c09),
    ]
}

const ALPHA: [u8; 12] = [0x30, 0x02, 0x00, 0x01, 0x7f, 0x80, 0x81, 0xff, 0x03, 0x06, 0x04, 0x82];

type Judge = fn(&mut Cx, &'static str, &[u8]);

fn cmp(cx: &mut Cx, got: &Option<Signature>, want: &Option<(DerInt, DerInt)>, must_accept_oor: bool, what: &str, ctx: &dyn Fn() -> String) {
    match (got, want) {
        (None, None) => {}
        (Some(_), None) => cx.fail(what, format!("accepted an invalid encoding; {}", ctx())),
        (g, Some((a, b))) => {
            let oor = *a == DerInt::OutOfRange || *b == DerInt::OutOfRange;
            match g {
                None => {
                    if !oor || must_accept_oor {
                        cx.fail(what, format!("refused a valid encoding; {}", ctx()));
                    }
                }
                Some(s) => {
                    for (v, w) in [(scu(&s.r), a), (scu(&s.s), b)] {
                        let ok = match w {
                            DerInt::InRange(u) => v == *u || (oor && v.is_zero()),
                            DerInt::OutOfRange => v.is_zero(),
                        };
                        if !ok {
                            cx.fail(what, format!("wrong value {} for {:?}; {}", v.hex(), w, ctx()));
                        }
                    }
                }
            }
        }
    }
}
fn judge_strict(cx: &mut Cx, kind: &'static str, b: &[u8]) {
    let want = model::der_strict(b);
    let got = Signature::parse_der(b).ok();
    cx.ev(kind);
    cx.seen(match want {
        None => "model_invalid",
        Some((DerInt::InRange(_), DerInt::InRange(_))) => "model_in_range",
        _ => "model_out_of_range",
    });
    cx.nt(&[b]);
    let ctx = || format!("{} bytes={}", kind, hex(b));
    cmp(cx, &got, &want, false, "parse_der", &ctx);
    if let (Some((DerInt::InRange(r), DerInt::InRange(s))), Some(g)) = (want, got) {
        let e = g.serialize_der();
        cx.check(e.as_ref() == &b[..] && model::der_encode(&r, &s) == b, "re-encoding is not canonical", ctx);
    }
    cx.sample(ctx);
}
fn judge_lax(cx: &mut Cx, kind: &'static str, b: &[u8]) {
    let want = model::der_lax(b);
    let got = Signature::parse_der_lax(b).ok();
    cx.ev(kind);
    cx.seen(match want {
        None => "model_invalid",
        Some((DerInt::InRange(_), DerInt::InRange(_))) => "model_in_range",
        _ => "model_out_of_range",
    });
    cx.nt(&[b]);
    let ctx = || format!("{} bytes={}", kind, hex(b));
    cmp(cx, &got, &want, true, "parse_der_lax", &ctx);
    // second opinion on the oracle itself
    if cx.rng.one_in(16) && b.len() < 600 {
        let cl = c::Signature::from_der_lax(b);
        cx.seen("oracle_cross_checked");
        if !b.is_empty() && cl.is_ok() != want.is_some() {
            eprintln!("HARNESS-ERROR lax oracle disagrees with the C library on {}", hex(b));
            std::process::exit(2);
        }
        if let (Ok(cs), Some((DerInt::InRange(r), DerInt::InRange(s)))) = (cl, want) {
            let cb = cs.serialize_compact();
            if cb[..32] != r.be()[..] || cb[32..] != s.be()[..] {
                eprintln!("HARNESS-ERROR lax oracle value disagrees with the C library on {}", hex(b));
                std::process::exit(2);
            }
        }
    }
    if let Some((DerInt::InRange(_), DerInt::InRange(_))) = model::der_strict(b) {
        cx.seen("strictly_valid_in_range");
        let st = Signature::parse_der(b).ok();
        cx.check(st == got && got.is_some(), "strict and lax differ on a valid encoding", ctx);
    }
    cx.sample(ctx);
}

fn enc_len(r: &mut Rng, n: usize, lax: bool) -> Vec<u8> {
    let long = |w: usize| -> Vec<u8> {
        let mut v = vec![0x80 | w as u8];
        for i in (0..w).rev() {
            v.push(if i >= 8 { 0 } else { (n >> (8 * i)) as u8 });
        }
        v
    };
    let min = if n < 128 {
        vec![n as u8]
    } else if n < 256 {
        long(1)
    } else {
        long(2)
    };
    match r.below(if lax { 8 } else { 24 }) {
        0 => long(1),
        1 => {
            let w = *r.pick(&[1, 2, 3, 4, 7, 8, 9, 10, 16, 40, 126]);
            long(w)
        }
        2 => match r.below(7) {
            0 => vec![0x80],
            1 => vec![0xff],
            2 => vec![n.wrapping_add(1) as u8 & 0x7f],
            3 => vec![n.wrapping_sub(1) as u8 & 0x7f],
            4 => {
                let w = r.range(1, 9);
                let mut v = vec![0x80 | w as u8];
                v.extend(r.bytes(w));
                v
            }
            5 => {
                // huge lengths near the word size
                let w = r.range(4, 9);
                let mut v = vec![0x80 | w as u8];
                v.extend(vec![0xff; w]);
                if r.coin() {
                    let i = v.len() - 1;
                    v[i] = n as u8;
                }
                v
            }
            _ => {
                // right length behind many leading zeros
                let z = r.range(1, 100);
                let mut v = vec![0x80 | (z + 1) as u8];
                v.extend(vec![0; z]);
                v.push(n as u8);
                v
            }
        },
        _ => min,
    }
}
fn enc_int(r: &mut Rng, lax: bool) -> Vec<u8> {
    let u = match r.below(6) {
        0 => k().n.wadd(&U::from_u64(r.below(5) as u64)).wsub(&U::from_u64(2)),
        1 => U::from_u64(r.below(300) as u64),
        2 => ZERO,
        _ => gen::raw(r),
    };
    let e = model::der_encode_int(&u);
    let mut content = e[2..].to_vec();
    match r.below(if lax { 9 } else { 18 }) {
        0 => content.insert(0, 0),
        1 => {
            for _ in 0..r.range(1, 40) {
                content.insert(0, 0);
            }
        }
        2 => content.insert(0, 0xff),
        3 => content.clear(),
        4 => {
            while content.first() == Some(&0) {
                content.remove(0);
            }
        }
        5 => content[0] |= 0x80,
        6 => {
            // longer than 32 bytes
            let hi = if r.one_in(4) { 300 } else { 70 };
            let n = r.range(33, hi);
            content = r.bytes(n);
            match r.below(4) {
                0 => content[0] = 0,
                1 => content[0] = 1,
                2 => content[0] &= 0x7f,
                _ => {}
            }
            if r.one_in(3) {
                // a plausible integer hidden inside the oversized one
                let at = r.range(1, n.min(40));
                let inner = model::der_encode_int(&U::from_u64(5));
                for (i, x) in inner.iter().enumerate() {
                    if at + i < n {
                        content[at + i] = *x;
                    }
                }
            }
        }
        7 => content.push(r.u8()),
        _ => {}
    }
    let mut o = vec![if r.one_in(30) { r.u8() } else { 2 }];
    o.extend(enc_len(r, content.len(), lax));
    o.extend(content);
    o
}
pub fn build(r: &mut Rng, lax: bool) -> Vec<u8> {
    let mut body = enc_int(r, lax);
    if !r.one_in(40) {
        body.extend(enc_int(r, lax));
    }
    if r.one_in(30) {
        body.extend(enc_int(r, lax));
    }
    if r.one_in(if lax { 6 } else { 30 }) {
        let n = r.range(1, 6);
        body.extend(r.bytes(n));
    }
    let mut o = vec![if r.one_in(40) { r.u8() } else { 0x30 }];
    o.extend(enc_len(r, body.len(), lax));
    o.extend(body);
    if r.one_in(if lax { 5 } else { 20 }) {
        let n = r.range(1, 5);
        o.extend(r.bytes(n));
    }
    if r.one_in(if lax { 12 } else { 20 }) {
        let n = r.below(o.len());
        o.truncate(n);
    }
    if r.one_in(20) && !o.is_empty() {
        let i = r.below(o.len());
        o[i] = match r.below(3) {
            0 => r.u8(),
            1 => o[i].wrapping_add(1),
            _ => *r.pick(&ALPHA),
        };
    }
    o
}
fn random_rs(r: &mut Rng) -> (U, U) {
    let mut g = |_| loop {
        let u = match r.below(8) {
            0 => U::from_u64(r.below(300) as u64),
            1 => k().n.wsub(&U::from_u64(1 + r.below(300) as u64)),
            _ => k().fnn.red(&gen::raw(r)),
        };
        if u.lt(&k().n) {
            break u;
        }
    };
    (g(0), g(1))
}
/// enumerations shared by both parsers, split over the leading blocks
fn enumerate(cx: &mut Cx, j: Judge) {
    let b = cx.block;
    if b < 12 {
        // all strings over the alphabet starting with ALPHA[b]
        let max = if cx.tier == Tier::Quick { 5 } else { 6 };
        for len in 0..=max - 1 {
            let total = 12usize.pow(len as u32);
            for mut i in 0..total {
                let mut s = vec![ALPHA[b as usize]];
                for _ in 0..len {
                    s.push(ALPHA[i % 12]);
                    i /= 12;
                }
                j(cx, "exhaustive_short", &s);
            }
        }
        if b == 0 {
            j(cx, "exhaustive_short", &[]);
            // 30 L 02 l .. with everything small
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    j(cx, "exhaustive_prefix", &[0x30, 0x06, 0x02, 0x01, x, 0x02, 0x01, y]);
                    j(cx, "exhaustive_prefix", &[0x30, x, 0x02, 0x01, 1, 0x02, y, 1]);
                    j(cx, "exhaustive_prefix", &[0x30, 0x08, 0x02, 0x02, x, y, 0x02, 0x02, x, y]);
                    j(cx, "exhaustive_prefix", &[0x30, 0x07, 0x02, x, 1, 0x02, 0x02, y, 1]);
                }
            }
        }
        return;
    }
    // substitutions, truncations, extensions of a valid encoding
    let (r, s) = match b {
        12 => (ONE, ONE),
        13 => (ZERO, ZERO),
        14 => (k().n.wsub(&ONE), k().n.wsub(&ONE)),
        15 => (k().half_n, k().half_n.wadd(&ONE)),
        16 => (ZERO, U::from_u64(0x80)),
        17 => (U::from_u64(0x7f), ZERO),
        _ => random_rs(&mut cx.rng),
    };
    let e = model::der_encode(&r, &s);
    for i in 0..e.len() {
        for v in 0..=255u8 {
            let mut m = e.clone();
            m[i] = v;
            j(cx, "substitution", &m);
        }
        j(cx, "truncation", &e[..i]);
        let mut m = e.clone();
        m.remove(i);
        j(cx, "deletion", &m);
        for v in [0u8, 1, 2, 0x30, 0x80, 0xff] {
            let mut m = e.clone();
            m.insert(i, v);
            j(cx, "insertion", &m);
            // with the outer length fixed up
            if i > 1 {
                m[1] = m[1].wrapping_add(1);
                j(cx, "insertion_fixed_length", &m);
            }
        }
    }
    for n in (1..80).chain([127, 128, 254, 255, 256, 257, 258, 512, 768, 1024, 65535, 65536, 65537]) {
        let mut m = e.clone();
        m.extend(vec![0u8; n]);
        j(cx, "extension", &m);
    }
}
fn judge_encode(cx: &mut Cx, r: &U, s: &U) {
    let want = model::der_encode(r, s);
    let g = sig(r, s);
    let e = g.serialize_der();
    cx.ev("encode");
    cx.nt(&[b"e", &want]);
    let ctx = || format!("r={} s={}", r.hex(), s.hex());
    cx.check(e.as_ref() == &want[..], "serialize_der", || format!("{} got {}", ctx(), hex(e.as_ref())));
    cx.check(e.len() == want.len() && e.len() <= 72 && !e.is_empty(), "SignatureArray length", ctx);
    cx.eq(Signature::parse_der(e.as_ref()).ok(), Some(g), "parse_der of serialize_der", ctx);
    cx.eq(Signature::parse_der_lax(e.as_ref()).ok(), Some(g), "parse_der_lax of serialize_der", ctx);
}
fn c08(cx: &mut Cx) {
    if cx.block < 24 {
        enumerate(cx, judge_strict);
        if cx.block == 23 {
            // every length of r and s, top bit clear and set
            for lr in 0..=32usize {
                for ls in 0..=32usize {
                    for top in [0x01u8, 0x7f, 0x80, 0xfe] {
                        let mk = |l: usize, t: u8, r: &mut Rng| {
                            let mut b = r.bytes(l);
                            if let Some(x) = b.first_mut() {
                                *x = t;
                            }
                            U::from_be(&b)
                        };
                        let (r, s) = (mk(lr, top, &mut cx.rng), mk(ls, top ^ 0x80, &mut cx.rng));
                        judge_encode(cx, &r, &s);
                        let e = model::der_encode(&r, &s);
                        judge_strict(cx, "every_length", &e);
                    }
                }
            }
        }
        return;
    }
    for _ in 0..150 {
        let b = build(&mut cx.rng, false);
        judge_strict(cx, "built", &b);
        let (r, s) = random_rs(&mut cx.rng);
        judge_encode(cx, &r, &s);
        let e = model::der_encode(&r, &s);
        judge_strict(cx, "valid", &e);
    }
    for _ in 0..20 {
        let b = build(&mut cx.rng, true);
        judge_strict(cx, "built_lax", &b);
    }
}
fn c09(cx: &mut Cx) {
    if cx.block < 24 {
        return enumerate(cx, judge_lax);
    }
    for _ in 0..200 {
        let b = build(&mut cx.rng, true);
        judge_lax(cx, "built", &b);
        if cx.rng.one_in(3) {
            let b = build(&mut cx.rng, false);
            judge_lax(cx, "built_strict", &b);
        }
        if cx.rng.one_in(3) {
            let (r, s) = random_rs(&mut cx.rng);
            let e = model::der_encode(&r, &s);
            judge_lax(cx, "valid", &e);
        }
    }
}
