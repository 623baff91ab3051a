//! Executable reference model: secp256k1, ECDSA, RFC 6979, SHA-256, DER. Shares no code with
//! the crate under test.
use crate::u256::*;
use std::sync::OnceLock;

pub const P_HEX: &str = "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f";
pub const N_HEX: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";

pub struct K {
    pub p: U,
    pub n: U,
    pub fp: Mod,
    pub fnn: Mod,
    pub gx: U,
    pub gy: U,
    pub half_n: U, // (n-1)/2
    pub p_minus_n: U,
    pub lambda: U,
    pub beta: U,
    pub sqrt_e: U,
    pub cbrt_e: U,
    pub gpow: Vec<(U, U)>, // 2^i * G affine
}

fn div_small(a: &U, d: u64) -> U {
    let mut r = ZERO;
    let mut rem = 0u128;
    for i in (0..4).rev() {
        let cur = (rem << 64) | a.0[i] as u128;
        r.0[i] = (cur / d as u128) as u64;
        rem = cur % d as u128;
    }
    r
}

pub fn k() -> &'static K {
    static C: OnceLock<K> = OnceLock::new();
    C.get_or_init(|| {
        let p = U::from_hex(P_HEX);
        let n = U::from_hex(N_HEX);
        let fp = Mod::new(p);
        let fnn = Mod::new(n);
        let gx = U::from_hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798");
        let gy = U::from_hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8");
        let mut gpow = Vec::new();
        let mut q = Jac::from_aff_raw(&gx, &gy);
        for _ in 0..256 {
            gpow.push(q.aff_with(&fp).unwrap());
            q = q.dbl_with(&fp);
        }
        K {
            p,
            n,
            fp,
            fnn,
            gx,
            gy,
            half_n: n.shr(1),
            p_minus_n: p.wsub(&n),
            lambda: U::from_hex("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72"),
            beta: U::from_hex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee"),
            sqrt_e: p.wadd(&ONE).shr(2),
            cbrt_e: div_small(&p.wadd(&U::from_u64(2)), 9),
            gpow,
        }
    })
}

pub type Pt = Option<(U, U)>; // affine or infinity

#[derive(Clone, Copy, Debug)]
pub struct Jac {
    x: U,
    y: U,
    z: U,
}

impl Jac {
    pub fn inf() -> Jac {
        Jac { x: ONE, y: ONE, z: ZERO }
    }
    pub fn is_inf(&self) -> bool {
        self.z == ZERO
    }
    fn from_aff_raw(x: &U, y: &U) -> Jac {
        Jac { x: *x, y: *y, z: ONE }
    }
    pub fn of(p: &Pt) -> Jac {
        match p {
            None => Jac::inf(),
            Some((x, y)) => Jac::from_aff_raw(x, y),
        }
    }
    fn aff_with(&self, f: &Mod) -> Pt {
        if self.z.is_zero() {
            return None;
        }
        let zi = f.inv(&self.z);
        let zi2 = f.sqr(&zi);
        Some((f.mul(&self.x, &zi2), f.mul(&self.y, &f.mul(&zi, &zi2))))
    }
    pub fn aff(&self) -> Pt {
        self.aff_with(&k().fp)
    }
    fn dbl_with(&self, f: &Mod) -> Jac {
        if self.z.is_zero() || self.y.is_zero() {
            return Jac::inf();
        }
        // S = 4xy^2, M = 3x^2
        let y2 = f.sqr(&self.y);
        let s = f.muli(&f.mul(&self.x, &y2), 4);
        let m = f.muli(&f.sqr(&self.x), 3);
        let x3 = f.sub(&f.sqr(&m), &f.muli(&s, 2));
        let y3 = f.sub(&f.mul(&m, &f.sub(&s, &x3)), &f.muli(&f.sqr(&y2), 8));
        let z3 = f.muli(&f.mul(&self.y, &self.z), 2);
        Jac { x: x3, y: y3, z: z3 }
    }
    pub fn dbl(&self) -> Jac {
        self.dbl_with(&k().fp)
    }
    pub fn add(&self, o: &Jac) -> Jac {
        if self.z.is_zero() {
            return *o;
        }
        if o.z.is_zero() {
            return *self;
        }
        let f = &k().fp;
        let z1z1 = f.sqr(&self.z);
        let z2z2 = f.sqr(&o.z);
        let u1 = f.mul(&self.x, &z2z2);
        let u2 = f.mul(&o.x, &z1z1);
        let s1 = f.mul(&self.y, &f.mul(&o.z, &z2z2));
        let s2 = f.mul(&o.y, &f.mul(&self.z, &z1z1));
        if u1 == u2 {
            return if s1 == s2 { self.dbl() } else { Jac::inf() };
        }
        let h = f.sub(&u2, &u1);
        let r = f.sub(&s2, &s1);
        let hh = f.sqr(&h);
        let hhh = f.mul(&hh, &h);
        let v = f.mul(&u1, &hh);
        let x3 = f.sub(&f.sub(&f.sqr(&r), &hhh), &f.muli(&v, 2));
        let y3 = f.sub(&f.mul(&r, &f.sub(&v, &x3)), &f.mul(&s1, &hhh));
        let z3 = f.mul(&h, &f.mul(&self.z, &o.z));
        Jac { x: x3, y: y3, z: z3 }
    }
}

/// affine forms of finite points with one inversion
#[allow(dead_code)]
pub fn batch_aff(v: &[Jac]) -> Vec<Pt> {
    let f = &k().fp;
    let mut pre = Vec::with_capacity(v.len());
    let mut acc = ONE;
    for j in v {
        assert!(!j.z.is_zero());
        pre.push(acc);
        acc = f.mul(&acc, &j.z);
    }
    let mut inv = f.inv(&acc);
    let mut out = vec![None; v.len()];
    for i in (0..v.len()).rev() {
        let zi = f.mul(&inv, &pre[i]);
        inv = f.mul(&inv, &v[i].z);
        let zi2 = f.sqr(&zi);
        out[i] = Some((f.mul(&v[i].x, &zi2), f.mul(&v[i].y, &f.mul(&zi, &zi2))));
    }
    out
}

pub fn g() -> Pt {
    Some((k().gx, k().gy))
}
pub fn neg(p: &Pt) -> Pt {
    p.map(|(x, y)| (x, k().fp.neg(&y)))
}
pub fn add(a: &Pt, b: &Pt) -> Pt {
    Jac::of(a).add(&Jac::of(b)).aff()
}
pub fn mul_g_j(s: &U) -> Jac {
    let mut r = Jac::inf();
    let s = k().fnn.red(s);
    for i in 0..s.bits() {
        if s.bit(i) {
            let (x, y) = &k().gpow[i];
            r = r.add(&Jac::from_aff_raw(x, y));
        }
    }
    r
}
pub fn mul_g(s: &U) -> Pt {
    mul_g_j(s).aff()
}
pub fn mul_j(p: &Pt, s: &U) -> Jac {
    let s = k().fnn.red(s);
    let b = Jac::of(p);
    let mut r = Jac::inf();
    for i in (0..s.bits()).rev() {
        r = r.dbl();
        if s.bit(i) {
            r = r.add(&b);
        }
    }
    r
}
pub fn mul(p: &Pt, s: &U) -> Pt {
    mul_j(p, s).aff()
}
/// a*P + b*G
pub fn dmul(p: &Pt, a: &U, b: &U) -> Pt {
    mul_j(p, a).add(&mul_g_j(b)).aff()
}
pub fn sqrt(a: &U) -> Option<U> {
    let f = &k().fp;
    let r = f.pow(a, &k().sqrt_e);
    if f.sqr(&r) == f.red(a) {
        Some(r)
    } else {
        None
    }
}
pub fn cbrt(a: &U) -> Option<U> {
    let f = &k().fp;
    let r = f.pow(a, &k().cbrt_e);
    if f.mul(&r, &f.sqr(&r)) == f.red(a) {
        Some(r)
    } else {
        None
    }
}
pub fn rhs(x: &U) -> U {
    let f = &k().fp;
    f.add(&f.mul(x, &f.sqr(x)), &U::from_u64(7))
}
pub fn on_curve(x: &U, y: &U) -> bool {
    k().fp.sqr(y) == rhs(x)
}
/// x < p assumed
pub fn lift_x(x: &U, odd: bool) -> Pt {
    let y = sqrt(&rhs(x))?;
    Some((*x, if y.is_odd() == odd { y } else { k().fp.neg(&y) }))
}
pub fn ser65(p: &Pt) -> [u8; 65] {
    let (x, y) = p.expect("finite");
    let mut o = [4u8; 65];
    o[1..33].copy_from_slice(&x.be());
    o[33..].copy_from_slice(&y.be());
    o
}
pub fn ser33(p: &Pt) -> [u8; 33] {
    let (x, y) = p.expect("finite");
    let mut o = [0u8; 33];
    o[0] = 2 + y.is_odd() as u8;
    o[1..].copy_from_slice(&x.be());
    o
}

// ---------------------------------------------------------------- ECDSA
pub fn ecdsa_verify(m: &U, r: &U, s: &U, q: &Pt) -> bool {
    let k = k();
    let f = &k.fnn;
    if r.is_zero() || s.is_zero() || !r.lt(&k.n) || !s.lt(&k.n) {
        return false;
    }
    let si = f.inv(s);
    match dmul(q, &f.mul(r, &si), &f.mul(&f.red(m), &si)) {
        None => false,
        Some((x, _)) => f.red(&x) == *r,
    }
}
/// Signature with the given nonce, low-s, with recovery id; None if r or s is zero.
pub fn ecdsa_sign_raw(d: &U, m: &U, nonce: &U) -> Option<(U, U, u8)> {
    ecdsa_sign_with(d, m, nonce, &mul_g(nonce))
}
/// the same for a nonce point given separately
pub fn ecdsa_sign_with(d: &U, m: &U, nonce: &U, rp: &Pt) -> Option<(U, U, u8)> {
    let k = k();
    let f = &k.fnn;
    let (x, y) = (*rp)?;
    let r = f.red(&x);
    let mut id = (if x.lt(&k.n) { 0 } else { 2 }) | (y.is_odd() as u8);
    let mut s = f.mul(&f.inv(nonce), &f.add(&f.red(m), &f.mul(&r, d)));
    if r.is_zero() || s.is_zero() {
        return None;
    }
    if k.half_n.lt(&s) {
        s = f.neg(&s);
        id ^= 1;
    }
    Some((r, s, id))
}
/// point whose recovery data is (r, id)
pub fn recover_point(r: &U, id: u8) -> Pt {
    let k = k();
    let x = if id & 2 != 0 {
        if !r.lt(&k.p_minus_n) {
            return None;
        }
        r.wadd(&k.n)
    } else {
        *r
    };
    lift_x(&x, id & 1 != 0)
}
pub fn ecdsa_recover(m: &U, r: &U, s: &U, id: u8) -> Pt {
    let f = &k().fnn;
    if r.is_zero() || s.is_zero() {
        return None;
    }
    let rp = recover_point(r, id)?;
    let ri = f.inv(r);
    dmul(&Some(rp), &f.mul(&ri, s), &f.neg(&f.mul(&ri, &f.red(m))))
}
/// key for which (r, s) with nonce point rp is a valid signature of m
pub fn key_for(m: &U, r: &U, s: &U, rp: &Pt) -> Pt {
    let f = &k().fnn;
    let ri = f.inv(r);
    dmul(rp, &f.mul(&ri, s), &f.neg(&f.mul(&ri, &f.red(m))))
}

// ---------------------------------------------------------------- SHA-256 / HMAC / RFC 6979
fn sha_consts() -> &'static ([u32; 64], [u32; 8]) {
    static C: OnceLock<([u32; 64], [u32; 8])> = OnceLock::new();
    C.get_or_init(|| {
        // fractional parts of the cube / square roots of the first primes, by integer search
        let mut primes = vec![];
        let mut c = 2u128;
        while primes.len() < 64 {
            if primes.iter().all(|p| c % p != 0) {
                primes.push(c);
            }
            c += 1;
        }
        let root = |v: u128, e: u32| -> u128 {
            // floor(v^(1/e))
            let (mut lo, mut hi) = (0u128, 1u128 << 42);
            while lo + 1 < hi {
                let mid = (lo + hi) / 2;
                if mid.checked_pow(e).map_or(false, |x| x <= v) {
                    lo = mid
                } else {
                    hi = mid
                }
            }
            lo
        };
        let mut kk = [0u32; 64];
        for i in 0..64 {
            kk[i] = (root(primes[i] << 96, 3) & 0xffff_ffff) as u32;
        }
        let mut h = [0u32; 8];
        for i in 0..8 {
            h[i] = (root(primes[i] << 64, 2) & 0xffff_ffff) as u32;
        }
        (kk, h)
    })
}
pub fn sha256(msg: &[u8]) -> [u8; 32] {
    let (kk, h0) = sha_consts();
    let mut h = *h0;
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for blk in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(kk[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
pub fn hmac(key: &[u8; 32], parts: &[&[u8]]) -> [u8; 32] {
    let mut i = vec![0x36u8; 64];
    let mut o = vec![0x5cu8; 64];
    for j in 0..32 {
        i[j] ^= key[j];
        o[j] ^= key[j];
    }
    for p in parts {
        i.extend_from_slice(p);
    }
    o.extend_from_slice(&sha256(&i));
    sha256(&o)
}
/// RFC 6979 candidate stream (all candidates, also inadmissible ones)
pub struct Rfc6979 {
    kk: [u8; 32],
    v: [u8; 32],
    first: bool,
}
impl Rfc6979 {
    pub fn new(x: &[u8; 32], h1: &[u8; 32]) -> Self {
        let mut kk = [0u8; 32];
        let mut v = [1u8; 32];
        kk = hmac(&kk, &[&v, &[0], x, h1]);
        v = hmac(&kk, &[&v]);
        kk = hmac(&kk, &[&v, &[1], x, h1]);
        v = hmac(&kk, &[&v]);
        Rfc6979 { kk, v, first: true }
    }
    pub fn next(&mut self) -> [u8; 32] {
        if !self.first {
            self.kk = hmac(&self.kk, &[&self.v, &[0]]);
            self.v = hmac(&self.kk, &[&self.v]);
        }
        self.first = false;
        self.v = hmac(&self.kk, &[&self.v]);
        self.v
    }
}
pub fn sign(d: &U, m_raw: &U) -> (U, U, u8) {
    let m = k().fnn.red(m_raw);
    let mut g = Rfc6979::new(&d.be(), &m.be());
    loop {
        let c = U::from_be(&g.next());
        if !c.is_zero() && c.lt(&k().n) {
            if let Some(r) = ecdsa_sign_raw(d, &m, &c) {
                return r;
            }
        }
    }
}

// ---------------------------------------------------------------- DER
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DerInt {
    InRange(U),
    OutOfRange,
}
fn der_len(b: &[u8], pos: &mut usize) -> Option<usize> {
    let f = *b.get(*pos)?;
    *pos += 1;
    if f < 0x80 {
        return Some(f as usize);
    }
    let cnt = (f & 0x7f) as usize;
    if f == 0x80 || f == 0xff || b.len() - *pos < cnt || b[*pos] == 0 {
        return None;
    }
    let mut v: u128 = 0;
    for _ in 0..cnt {
        v = v.checked_mul(256)?.checked_add(b[*pos] as u128)?;
        *pos += 1;
    }
    if v < 128 || v > usize::MAX as u128 {
        return None;
    }
    Some(v as usize)
}
fn der_int(b: &[u8], pos: &mut usize) -> Option<DerInt> {
    if *b.get(*pos)? != 2 {
        return None;
    }
    *pos += 1;
    let l = der_len(b, pos)?;
    if l == 0 || l > b.len() - *pos {
        return None;
    }
    let c = &b[*pos..*pos + l];
    *pos += l;
    if l > 1 && ((c[0] == 0 && c[1] < 0x80) || (c[0] == 0xff && c[1] >= 0x80)) {
        return None;
    }
    if c[0] >= 0x80 {
        return Some(DerInt::OutOfRange);
    }
    let c = if c[0] == 0 { &c[1..] } else { c };
    if c.len() > 32 {
        return Some(DerInt::OutOfRange);
    }
    let v = U::from_be(c);
    Some(if v.lt(&k().n) { DerInt::InRange(v) } else { DerInt::OutOfRange })
}
/// strict DER: exactly SEQUENCE { INTEGER, INTEGER }
pub fn der_strict(b: &[u8]) -> Option<(DerInt, DerInt)> {
    if *b.first()? != 0x30 {
        return None;
    }
    let mut pos = 1;
    let l = der_len(b, &mut pos)?;
    if l != b.len() - pos {
        return None;
    }
    let r = der_int(b, &mut pos)?;
    let s = der_int(b, &mut pos)?;
    if pos != b.len() {
        return None;
    }
    Some((r, s))
}
pub fn der_encode_int(v: &U) -> Vec<u8> {
    let b = v.be();
    let mut i = 0;
    while i < 31 && b[i] == 0 {
        i += 1;
    }
    let mut c = vec![];
    if b[i] >= 0x80 {
        c.push(0);
    }
    c.extend_from_slice(&b[i..]);
    let mut o = vec![2, c.len() as u8];
    o.extend(c);
    o
}
pub fn der_encode(r: &U, s: &U) -> Vec<u8> {
    let mut c = der_encode_int(r);
    c.extend(der_encode_int(s));
    let mut o = vec![0x30, c.len() as u8];
    o.extend(c);
    o
}
/// Bitcoin Core's ecdsa_signature_parse_der_lax, transcribed as a grammar over positions
pub fn der_lax(b: &[u8]) -> Option<(DerInt, DerInt)> {
    let n = b.len();
    let mut pos = 0usize;
    if pos == n || b[pos] != 0x30 {
        return None;
    }
    pos += 1;
    if pos == n {
        return None;
    }
    let l = b[pos];
    pos += 1;
    if l & 0x80 != 0 {
        let l = (l - 0x80) as usize;
        if l > n - pos {
            return None;
        }
        pos += l;
    }
    let mut out = [(0usize, 0usize); 2];
    for o in out.iter_mut() {
        if pos == n || b[pos] != 2 {
            return None;
        }
        pos += 1;
        if pos == n {
            return None;
        }
        let mut lb = b[pos];
        pos += 1;
        let len = if lb & 0x80 != 0 {
            lb -= 0x80;
            if lb as usize > n - pos {
                return None;
            }
            while lb > 0 && b[pos] == 0 {
                pos += 1;
                lb -= 1;
            }
            if lb >= 8 {
                return None;
            }
            let mut len = 0usize;
            while lb > 0 {
                len = (len << 8) + b[pos] as usize;
                pos += 1;
                lb -= 1;
            }
            len
        } else {
            lb as usize
        };
        if len > n - pos {
            return None;
        }
        *o = (pos, len);
        pos += len;
    }
    let dec = |(p, l): (usize, usize)| {
        let mut c = &b[p..p + l];
        while !c.is_empty() && c[0] == 0 {
            c = &c[1..];
        }
        if c.len() > 32 {
            return DerInt::OutOfRange;
        }
        let v = U::from_be(c);
        if v.lt(&k().n) {
            DerInt::InRange(v)
        } else {
            DerInt::OutOfRange
        }
    };
    Some((dec(out[0]), dec(out[1])))
}

// ---------------------------------------------------------------- base64 (standard, padded)
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64_encode(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(B64[(v >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
/// strict standard base64: padding required, no trailing bits
pub fn b64_decode(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut o = vec![];
    let nch = b.len() / 4;
    for (ci, c) in b.chunks(4).enumerate() {
        let pad = if ci + 1 == nch { c.iter().rev().take_while(|&&x| x == b'=').count() } else { 0 };
        if pad > 2 {
            return None;
        }
        let mut v = 0u32;
        for i in 0..4 - pad {
            v |= (B64.iter().position(|x| *x == c[i])? as u32) << (18 - 6 * i);
        }
        let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        if bytes[3 - pad..].iter().any(|x| *x != 0) {
            return None;
        }
        o.extend_from_slice(&bytes[..3 - pad]);
    }
    Some(o)
}
