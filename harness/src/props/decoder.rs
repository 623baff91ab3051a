//! C25: the public DER decoder, operation by operation, against a model cursor.
use super::prop;
use crate::gen;
use crate::lib_api::*;
use crate::model::{self, DerInt};
use crate::mon::*;
use crate::u256::*;
use libsecp256k1::util::{Decoder, SignatureArray};

pub fn props() -> Vec<Prop> {
    vec![prop("C25", "byte strings (DER-shaped, mutated, random, up to 200 KB) walked by random sequences of decoder operations with counts from 0 to usize::MAX, each result and the position compared with a model cursor; distinct by string and operations", (4000, 500000), 1, c25)]
}

/// minimal definite length at b[p..]: (value, octets)
fn len_strict(b: &[u8]) -> Option<(usize, usize)> {
    let f = *b.first()?;
    if f < 0x80 {
        return Some((f as usize, 1));
    }
    let n = (f & 0x7f) as usize;
    if n == 0 || f == 0xff || b.len() < 1 + n || b[1] == 0 {
        return None;
    }
    let mut v: u128 = 0;
    for x in &b[1..1 + n] {
        v = (v << 8) + *x as u128;
        if v > b.len() as u128 {
            return None;
        }
    }
    if v < 128 || v as usize > b.len() - 1 - n {
        return None;
    }
    Some((v as usize, 1 + n))
}
/// length as Bitcoin Core's lax parser reads it, bounded by what follows: (value, octets)
fn len_lax(b: &[u8]) -> Option<(usize, usize)> {
    let f = *b.first()?;
    let (mut v, mut p) = (0u128, 1usize);
    if f < 0x80 {
        v = f as u128;
    } else {
        let end = 1 + (f & 0x7f) as usize;
        if end > b.len() {
            return None;
        }
        while p < end && b[p] == 0 {
            p += 1;
        }
        if end - p >= std::mem::size_of::<usize>() {
            return None;
        }
        while p < end {
            v = (v << 8) + b[p] as u128;
            p += 1;
        }
    }
    if v > (b.len() - p) as u128 {
        return None;
    }
    Some((v as usize, p))
}
fn value(c: &[u8]) -> DerInt {
    let z = c.iter().take_while(|x| **x == 0).count();
    let c = &c[z..];
    if c.len() > 32 {
        return DerInt::OutOfRange;
    }
    let v = U::from_be(c);
    if v.lt(&model::k().n) {
        DerInt::InRange(v)
    } else {
        DerInt::OutOfRange
    }
}
fn int_strict(b: &[u8]) -> Option<(DerInt, usize)> {
    if *b.first()? != 2 {
        return None;
    }
    let (l, o) = len_strict(&b[1..])?;
    let p = 1 + o;
    if l == 0 || l > b.len() - p {
        return None;
    }
    let c = &b[p..p + l];
    if l > 1 && ((c[0] == 0 && c[1] < 0x80) || (c[0] == 0xff && c[1] >= 0x80)) {
        return None;
    }
    Some((if c[0] >= 0x80 { DerInt::OutOfRange } else { value(c) }, p + l))
}
fn int_lax(b: &[u8]) -> Option<(DerInt, usize)> {
    if *b.first()? != 2 {
        return None;
    }
    let (l, o) = len_lax(&b[1..])?;
    Some((value(&b[1 + o..1 + o + l]), 1 + o + l))
}
fn count(cx: &mut Cx, left: usize, pos: usize) -> usize {
    match cx.rng.below(12) {
        0 => 0,
        1 => left,
        2 => left.wrapping_sub(1),
        3 => left + 1,
        4 => usize::MAX,
        5 => usize::MAX - pos,
        6 => (usize::MAX - pos).wrapping_add(1),
        7 => (usize::MAX - pos).wrapping_add(1 + cx.rng.below(4)),
        8 => usize::MAX / 2 + cx.rng.below(3),
        9 => cx.rng.u64() as usize,
        _ => cx.rng.below(6),
    }
}
fn string(cx: &mut Cx) -> Vec<u8> {
    let b = match cx.rng.below(10) {
        0..=2 => super::der::build(&mut cx.rng, false),
        3 | 4 => super::der::build(&mut cx.rng, true),
        5 => {
            let n = cx.rng.below(12);
            cx.rng.bytes(n)
        }
        6 => {
            // sequence of integers of any size
            let mut b = vec![];
            for _ in 0..cx.rng.range(1, 6) {
                b.extend(model::der_encode_int(&gen::raw(&mut cx.rng)));
            }
            b
        }
        7 => {
            // lengths alone, the exact and neighbouring amounts of data behind
            let v = match cx.rng.below(8) {
                0 => cx.rng.below(256),
                1 => 127 + cx.rng.below(3),
                2 => 254 + cx.rng.below(4),
                3 => 65534 + cx.rng.below(4),
                4 => cx.rng.below(66000),
                5 => 65536 + cx.rng.below(100_000),
                _ => cx.rng.below(1024),
            };
            let pad = if cx.rng.one_in(3) { cx.rng.below(12) } else { 0 };
            let be: Vec<u8> = v.to_be_bytes().iter().cloned().skip_while(|x| *x == 0).collect();
            let mut b = vec![];
            if cx.rng.one_in(4) {
                b.push(2);
            }
            if v < 128 && cx.rng.coin() {
                b.push(v as u8);
            } else {
                b.push(0x80 + (pad + be.len()) as u8);
                b.extend(vec![0u8; pad]);
                b.extend(be);
            }
            let n = (v + cx.rng.below(4)).saturating_sub(2);
            let fill = *cx.rng.pick(&[0u8, 0, 1, 2, 0x7f, 0x80, 0xff]);
            b.extend(vec![fill; n]);
            if cx.rng.one_in(5) {
                b.extend(model::der_encode_int(&gen::raw(&mut cx.rng)));
            }
            b
        }
        8 => {
            // enormous claimed lengths
            let n = cx.rng.range(1, 10);
            let mut b = vec![0x80 + n as u8];
            let mut l = cx.rng.bytes(n);
            if cx.rng.coin() {
                l.iter_mut().for_each(|x| *x = 0xff);
            }
            b.extend(l);
            let n = cx.rng.below(30);
            b.extend(cx.rng.bytes(n));
            b
        }
        _ => {
            let n = cx.rng.below(80);
            (0..n).map(|_| *cx.rng.pick(&[0x30u8, 2, 2, 2, 0, 0, 1, 0x7f, 0x80, 0x81, 0x82, 0xff, 0x20, 0x21])).collect()
        }
    };
    if cx.rng.one_in(3) {
        // aligned somewhere else
        let n = cx.rng.below(4);
        let mut v = cx.rng.bytes(n);
        v.extend(b);
        return v;
    }
    b
}
fn judge(cx: &mut Cx, b: &[u8]) {
    let mut d = Decoder::new(b);
    let mut pos = 0usize;
    let mut trail: Vec<String> = vec![];
    if d.remaining_len() != b.len() {
        cx.fail("remaining_len", hex(&b[..b.len().min(200)]));
        return;
    }
    let steps = cx.rng.range(1, 24);
    for _ in 0..steps {
        let left = b.len() - pos;
        let rest = &b[pos..];
        let bad: Option<String>;
        let mut moved = pos; // where the operation has to leave the cursor
        let mut free = false; // failed composite operation: anywhere ahead
        let op = cx.rng.below(16);
        match op {
            0 | 1 => {
                trail.push("read".into());
                cx.ev("read");
                let g = d.read();
                let w = rest.first().cloned().ok_or(Error::InvalidSignature);
                if w.is_ok() {
                    moved += 1;
                }
                bad = if g != w { Some(format!("read {:?} want {:?}", g, w)) } else { None };
            }
            2 | 3 => {
                let n = count(cx, left, pos);
                trail.push(format!("peek({})", n));
                cx.ev("peek");
                let (g, w) = (d.peek(n), rest.get(n).cloned().ok_or(Error::InvalidSignature));
                bad = if g != w { Some(format!("peek {:?} want {:?}", g, w)) } else { None };
            }
            4 | 5 => {
                let n = count(cx, left, pos);
                trail.push(format!("peek_slice({})", n));
                cx.ev("peek_slice");
                let (g, w) = (d.peek_slice(n), if n <= left { Ok(&rest[..n]) } else { Err(Error::InvalidSignature) });
                bad = if g != w { Some(format!("peek_slice {:?} want ok={}", g.map(|x| x.len()), w.is_ok())) } else { None };
            }
            6 | 7 => {
                let n = count(cx, left, pos);
                trail.push(format!("skip({})", n));
                cx.ev("skip");
                let (g, w) = (d.skip(n), if n <= left { Ok(()) } else { Err(Error::InvalidSignature) });
                if w.is_ok() {
                    moved += n;
                }
                bad = if g != w { Some(format!("skip {:?} want {:?}", g, w)) } else { None };
            }
            8 => {
                trail.push("read_constructed_sequence".into());
                cx.ev("read_constructed_sequence");
                let g = d.read_constructed_sequence();
                let w = rest.first() == Some(&0x30);
                if w {
                    moved += 1;
                } else {
                    free = true;
                }
                bad = if g.is_ok() != w || (!w && g != Err(Error::InvalidSignature)) { Some(format!("tag {:?}", g)) } else { None };
            }
            9 | 10 => {
                trail.push("read_len".into());
                let w = len_strict(rest);
                cx.ev(match w {
                    None => "read_len_refused",
                    Some((_, 1)) => "read_len_short",
                    Some(_) => "read_len_long",
                });
                let g = d.read_len();
                match w {
                    Some((v, o)) => {
                        moved += o;
                        bad = if g != Ok(v) { Some(format!("read_len {:?} want {}", g, v)) } else { None };
                    }
                    None => {
                        free = true;
                        bad = if g != Err(Error::InvalidSignature) { Some(format!("read_len {:?} want an error", g)) } else { None };
                    }
                }
            }
            11 => {
                trail.push("read_len_lax".into());
                let w = len_lax(rest);
                cx.ev(if w.is_some() { "read_len_lax" } else { "read_len_lax_refused" });
                let g = d.read_len_lax();
                match w {
                    Some((v, o)) => {
                        moved += o;
                        bad = if g != Ok(v) { Some(format!("read_len_lax {:?} want {}", g, v)) } else { None };
                    }
                    None => {
                        free = true;
                        bad = if g != Err(Error::InvalidSignature) { Some(format!("read_len_lax {:?} want an error", g)) } else { None };
                    }
                }
            }
            12 => {
                trail.push("read_seq_len_lax".into());
                let w = match rest.first() {
                    None => None,
                    Some(f) if *f < 0x80 => Some(1),
                    Some(f) => {
                        let n = 1 + (f & 0x7f) as usize;
                        if n <= rest.len() {
                            Some(n)
                        } else {
                            None
                        }
                    }
                };
                cx.ev(if w.is_some() { "read_seq_len_lax" } else { "read_seq_len_lax_refused" });
                let g = d.read_seq_len_lax();
                match w {
                    Some(o) => {
                        moved += o;
                        bad = if g.is_err() { Some(format!("read_seq_len_lax {:?}", g)) } else { None };
                    }
                    None => {
                        free = true;
                        bad = if g != Err(Error::InvalidSignature) { Some(format!("read_seq_len_lax {:?} want an error", g)) } else { None };
                    }
                }
            }
            _ => {
                let lax = op == 13;
                trail.push(if lax { "read_integer_lax" } else { "read_integer" }.into());
                let w = if lax { int_lax(rest) } else { int_strict(rest) };
                cx.ev(match (lax, &w) {
                    (false, Some((DerInt::InRange(_), _))) => "read_integer",
                    (false, Some(_)) => "read_integer_out_of_range",
                    (false, None) => "read_integer_refused",
                    (true, Some((DerInt::InRange(_), _))) => "read_integer_lax",
                    (true, Some(_)) => "read_integer_lax_out_of_range",
                    (true, None) => "read_integer_lax_refused",
                });
                let g = if lax { d.read_integer_lax() } else { d.read_integer() };
                bad = match (&w, &g) {
                    (None, Err(Error::InvalidSignature)) => {
                        free = true;
                        None
                    }
                    (Some((DerInt::InRange(v), o)), Ok(s)) if scu(s) == *v => {
                        moved += o;
                        None
                    }
                    // too large for a scalar: zero, and for the strict reader possibly an error
                    (Some((DerInt::OutOfRange, o)), Ok(s)) if s.is_zero() => {
                        moved += o;
                        None
                    }
                    (Some((DerInt::OutOfRange, _)), Err(Error::InvalidSignature)) if !lax => {
                        free = true;
                        None
                    }
                    _ => Some(format!("integer {:?} want {:?}", g, w)),
                };
            }
        }
        let ctx = || format!("operations {:?} on {} bytes {}", trail, b.len(), hex(&b[..b.len().min(300)]));
        if let Some(s) = bad {
            cx.fail("decoder result", format!("{}; {}", s, ctx()));
            return;
        }
        let rem = d.remaining_len();
        if rem > b.len() || (!free && rem != b.len() - moved) || (free && rem > left) {
            cx.fail("decoder position", format!("{} bytes left, want {}{}; {}", rem, b.len() - moved, if free { " or less" } else { "" }, ctx()));
            return;
        }
        pos = b.len() - rem;
    }
    let t = trail.join(",");
    cx.nt(&[b, t.as_bytes()]);
    cx.sample(|| format!("{} on {} bytes {}", t, b.len(), hex(&b[..b.len().min(60)])));
}
fn c25(cx: &mut Cx) {
    if cx.block == 0 {
        for n in 0..=72usize {
            let mut a = SignatureArray::new(n);
            cx.ev("signature_array");
            cx.check(a.len() == n && a.is_empty() == (n == 0) && a.as_ref().len() == n && a.as_mut().len() == n, "SignatureArray length", || n.to_string());
            cx.check(a.as_ref().iter().all(|x| *x == 0), "SignatureArray not zeroed", || n.to_string());
            let v = cx.rng.bytes(n);
            a.as_mut().copy_from_slice(&v);
            cx.check(a.as_ref() == &v[..] && a.len() == n, "SignatureArray contents", || n.to_string());
        }
        // every two-byte start of a length, exact and neighbouring amounts behind it
        for f in 0..=255u8 {
            for s in [0u8, 1, 0x7f, 0x80, 0x81, 0xff] {
                for n in [0usize, 1, 2, 126, 127, 128, 129, 130, 254, 255, 256, 257] {
                    let mut b = vec![f, s];
                    b.extend(vec![0x55; n]);
                    let mut d = Decoder::new(&b);
                    cx.ev("length_enumerated");
                    let w = len_strict(&b);
                    let g = d.read_len();
                    cx.check(g.ok() == w.map(|x| x.0) && (w.is_none() || d.remaining_len() == b.len() - w.unwrap().1), "read_len", || format!("{:?} want {:?}: {}", g, w, hex(&b)));
                    let mut d = Decoder::new(&b);
                    let w = len_lax(&b);
                    let g = d.read_len_lax();
                    cx.check(g.ok() == w.map(|x| x.0) && (w.is_none() || d.remaining_len() == b.len() - w.unwrap().1), "read_len_lax", || format!("{:?} want {:?}: {}", g, w, hex(&b)));
                }
            }
        }
        return;
    }
    for _ in 0..60 {
        let b = string(cx);
        for _ in 0..if b.len() > 1000 { 1 } else { 4 } {
            judge(cx, &b);
        }
    }
}
