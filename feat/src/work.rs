//! Workload over core and alloc only.
use alloc::boxed::Box;
use alloc::format;
use alloc::string::String;
use alloc::vec;
use alloc::vec::Vec;
use core::convert::TryFrom;
use digest::generic_array::{typenum::U40, GenericArray};
use libsecp256k1::curve::{Affine, ECMultContext, ECMultGenContext, Field, Scalar};
use libsecp256k1::*;

pub struct R(pub u64);
impl R {
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.u() % n
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u() as u8).collect()
    }
}
#[derive(Default)]
pub struct Out {
    pub groups: Vec<(&'static str, u64, u64)>,
    pub fails: Vec<String>,
    pub want: Option<String>,
    pub lines: Vec<String>,
}
impl Out {
    pub fn put(&mut self, g: &'static str, data: &[u8]) {
        let i = match self.groups.iter().position(|x| x.0 == g) {
            Some(i) => i,
            None => {
                self.groups.push((g, 0xcbf29ce484222325, 0));
                self.groups.len() - 1
            }
        };
        let e = &mut self.groups[i];
        e.2 += 1;
        for b in data.iter().chain(&[0x5a]) {
            e.1 = (e.1 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        if self.want.as_deref() == Some(g) {
            let s: String = data.iter().map(|b| format!("{:02x}", b)).collect();
            self.lines.push(format!("{} {} {}", g, e.2, s));
        }
    }
}
const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
const HALF: [u8; 32] = [
    0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x5d, 0x57, 0x6e, 0x73, 0x57, 0xa4, 0x50, 0x1d, 0xdf, 0xe9, 0x2f, 0x46, 0x68, 0x1b, 0x20, 0xa0,
];
const P: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xff, 0xff, 0xfc, 0x2f,
];
const GX: [u8; 32] = [
    0x79, 0xbe, 0x66, 0x7e, 0xf9, 0xdc, 0xbb, 0xac, 0x55, 0xa0, 0x62, 0x95, 0xce, 0x87, 0x0b, 0x07, 0x02, 0x9b, 0xfc, 0xdb, 0x2d, 0xce, 0x28, 0xd9, 0x59, 0xf2, 0x81, 0x5b, 0x16, 0xf8, 0x17, 0x98,
];
fn b32(r: &mut R) -> [u8; 32] {
    let mut o = [0u8; 32];
    match r.below(10) {
        0 => o[31] = r.below(4) as u8,
        1..=3 => {
            o = [N, HALF, P][r.below(3) as usize];
            o[31] = o[31].wrapping_add(r.below(5) as u8).wrapping_sub(2);
        }
        4 => o = [0xff; 32],
        5 => {
            let k = r.below(32) as usize;
            let f = r.bytes(32);
            o[k..].copy_from_slice(&f[k..]);
        }
        6 => {
            for c in o.chunks_mut(4) {
                let v: u32 = match r.below(4) {
                    0 => 0,
                    1 => u32::MAX,
                    2 => 1,
                    _ => r.u() as u32,
                };
                c.copy_from_slice(&v.to_be_bytes());
            }
        }
        _ => {
            let f = r.bytes(32);
            o.copy_from_slice(&f);
        }
    }
    o
}
/// a candidate key encoding, often valid
pub fn point(r: &mut R) -> Vec<u8> {
    let mut v = vec![2 + r.below(2) as u8];
    if r.below(8) == 0 {
        v.extend_from_slice(&GX);
    } else {
        v.extend_from_slice(&b32(r));
    }
    match r.below(4) {
        0 => {
            if let Ok(p) = PublicKey::parse_slice(&v, None) {
                v = p.serialize().to_vec();
                match r.below(5) {
                    0 => v[0] = 6 + r.below(2) as u8,
                    1 => {
                        v.remove(0);
                    }
                    2 => {
                        let i = r.below(65) as usize;
                        v[i] ^= 1 << r.below(8);
                    }
                    _ => {}
                }
            }
        }
        1 if r.below(6) == 0 => {
            let n = r.below(70) as usize;
            v = r.bytes(n);
        }
        _ => {}
    }
    v
}
/// hands the hashed bytes out instead of hashing them
#[derive(Clone, Default)]
pub struct Tap(Vec<u8>);
impl digest::Digest for Tap {
    type OutputSize = U40;
    fn new() -> Self {
        Tap(vec![])
    }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.0.extend_from_slice(d.as_ref())
    }
    fn chain(mut self, d: impl AsRef<[u8]>) -> Self {
        self.0.extend_from_slice(d.as_ref());
        self
    }
    fn finalize(self) -> GenericArray<u8, U40> {
        let mut o = GenericArray::default();
        for (i, b) in self.0.iter().enumerate() {
            let j = i % 40;
            let x: &mut u8 = &mut o[j];
            *x = x.wrapping_mul(31).wrapping_add(*b);
        }
        o
    }
    fn finalize_reset(&mut self) -> GenericArray<u8, U40> {
        let r = self.clone().finalize();
        self.0.clear();
        r
    }
    fn reset(&mut self) {
        self.0.clear()
    }
    fn output_size() -> usize {
        40
    }
    fn digest(d: &[u8]) -> GenericArray<u8, U40> {
        Tap(d.to_vec()).finalize()
    }
}
struct Rr<'a>(&'a mut R);
impl<'a> rand::RngCore for Rr<'a> {
    fn next_u32(&mut self) -> u32 {
        self.0.u() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.u()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        let b = if d.len() == 32 { b32(self.0).to_vec() } else { self.0.bytes(d.len()) };
        d.copy_from_slice(&b)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// a length, sometimes in a longer form or with bits that a 32-bit or 64-bit size loses
fn length(r: &mut R, n: u8, o: &mut Vec<u8>) {
    match r.below(24) {
        0 | 1 => o.push(0x81),
        2 => {
            let k = 2 + r.below(9) as usize;
            o.push(0x80 + k as u8);
            o.extend(vec![0; k - 1]);
        }
        3 | 4 => {
            let k = [5, 6, 7, 8, 9][r.below(5) as usize];
            o.push(0x80 + k as u8);
            let mut v = vec![0; k - 1];
            v[0] = 1 << r.below(8);
            o.extend(v);
        }
        5 => {
            let k = [3, 4, 7, 8][r.below(4) as usize];
            o.push(0x80 + k as u8);
            o.extend(vec![0xff; k - 1]);
            o.push(0xff - r.below(80) as u8);
            return;
        }
        _ => {}
    }
    o.push(n);
}
fn der(r: &mut R) -> Vec<u8> {
    let mut body = vec![];
    for _ in 0..2 {
        let mut v = b32(r).to_vec();
        while v.len() > 1 && v[0] == 0 && v[1] < 128 {
            v.remove(0);
        }
        if v[0] >= 128 {
            v.insert(0, 0)
        }
        match r.below(9) {
            0 => v.insert(0, 0),
            1 => v.truncate(r.below(33) as usize),
            2 => {
                let n = r.below(40) as usize;
                v.extend(r.bytes(n))
            }
            _ => {}
        }
        body.push(2);
        length(r, v.len() as u8, &mut body);
        body.extend(v);
    }
    let mut o = vec![0x30];
    length(r, body.len() as u8, &mut o);
    o.extend(body);
    match r.below(8) {
        0 => o.push(0),
        1 => {
            let k = r.below(o.len() as u64) as usize;
            o.truncate(k)
        }
        2 => {
            let i = r.below(o.len() as u64) as usize;
            o[i] ^= 1 << r.below(8)
        }
        _ => {}
    }
    o
}
fn pkb(p: &Result<PublicKey, Error>) -> Vec<u8> {
    match p {
        Ok(p) => {
            let mut v = p.serialize().to_vec();
            v.extend_from_slice(&p.serialize_compressed());
            v
        }
        Err(e) => vec![*e as u8],
    }
}
fn skb(p: &Result<SecretKey, Error>) -> Vec<u8> {
    match p {
        Ok(p) => p.serialize().to_vec(),
        Err(e) => vec![*e as u8],
    }
}
fn sgb(p: &Result<Signature, Error>) -> Vec<u8> {
    match p {
        Ok(p) => {
            let mut v = p.serialize().to_vec();
            v.extend_from_slice(p.serialize_der().as_ref());
            let mut q = *p;
            q.normalize_s();
            v.extend_from_slice(&q.serialize());
            v
        }
        Err(e) => vec![*e as u8],
    }
}
fn same(o: &mut Out, what: &str, a: &[u8], b: &[u8]) {
    if a != b {
        o.fails.push(format!("{}: built-in and heap context give different results", what));
    }
}

pub fn run(seed: u64, n: usize, o: &mut Out) {
    let r = &mut R(seed);
    #[cfg(not(miri))]
    let (eb, gb): (Box<ECMultContext>, Box<ECMultGenContext>) = (ECMultContext::new_boxed(), ECMultGenContext::new_boxed());
    #[cfg(not(miri))]
    let (ec, gc): (&ECMultContext, &ECMultGenContext) = (&eb, &gb);
    // under the interpreter the heap contexts take too long
    #[cfg(miri)]
    let (ec, gc): (&ECMultContext, &ECMultGenContext) = (&ECMULT_CONTEXT, &ECMULT_GEN_CONTEXT);
    for e in ec.inspect_raw().iter().step_by(97).chain(gc.inspect_raw().iter().flatten().step_by(7)) {
        let mut v = vec![];
        for w in e.x.0.iter().chain(e.y.0.iter()) {
            v.extend_from_slice(&w.to_le_bytes());
        }
        o.put("table_sample", &v);
    }
    #[cfg(not(miri))]
    for e in ec.inspect_raw().iter() {
        let mut v = vec![];
        for w in e.x.0.iter().chain(e.y.0.iter()) {
            v.extend_from_slice(&w.to_le_bytes());
        }
        o.put("table_g", &v);
    }
    #[cfg(not(miri))]
    for e in gc.inspect_raw().iter().flatten() {
        let mut v = vec![];
        for w in e.x.0.iter().chain(e.y.0.iter()) {
            v.extend_from_slice(&w.to_le_bytes());
        }
        o.put("table_gen", &v);
    }
    let mut pks: Vec<PublicKey> = vec![];
    let mut sks: Vec<SecretKey> = vec![SecretKey::default()];
    let mut sgs: Vec<Signature> = vec![];
    for _ in 0..20 * n {
        let b = point(r);
        let f = match r.below(6) {
            0 => Some(PublicKeyFormat::Full),
            1 => Some(PublicKeyFormat::Compressed),
            2 => Some(PublicKeyFormat::Raw),
            _ => None,
        };
        let p = PublicKey::parse_slice(&b, f);
        o.put("pk_parse", &pkb(&p));
        if let Ok(p) = p {
            if pks.len() < 40 {
                pks.push(p)
            }
        }
        let b = b32(r);
        let k = SecretKey::parse_slice(&b[..if r.below(10) == 0 { 31 } else { 32 }]);
        o.put("sk_parse", &skb(&k));
        if let Ok(k) = k {
            o.put("sk_hex", format!("{:x}", k).as_bytes());
            if sks.len() < 40 {
                sks.push(k)
            }
        }
        let mut b = b32(r).to_vec();
        b.extend_from_slice(&b32(r));
        o.put("sig_standard", &sgb(&Signature::parse_standard_slice(&b)));
        let s = Signature::parse_overflowing_slice(&b);
        o.put("sig_overflowing", &sgb(&s));
        if sgs.len() < 40 {
            sgs.extend(s.ok());
        }
        for _ in 0..20 {
            let d = der(r);
            o.put("sig_der", &sgb(&Signature::parse_der(&d)));
            o.put("sig_der_lax", &sgb(&Signature::parse_der_lax(&d)));
        }
        o.put("message", &Message::parse(&b32(r)).serialize());
        let x = r.u() as u8;
        o.put("recid", &[RecoveryId::parse(x).map_or(99, |v| v.serialize()), RecoveryId::parse_rpc(x).map_or(99, |v| v.serialize())]);
        o.put("sk_random", &SecretKey::random(&mut Rr(r)).serialize());
        let mut f = Field::default();
        let ok = f.set_b32(&b32(r));
        o.put("field_import", &[ok as u8]);
        if ok {
            let (q, ok) = f.sqrt();
            let mut v = vec![ok as u8];
            let mut q2 = if ok { q } else { f.sqr() };
            q2.normalize();
            v.extend_from_slice(&q2.b32());
            o.put("field_sqrt", &v);
        }
        let mut s = Scalar::default();
        let ov = s.set_b32(&b32(r));
        let mut v = vec![bool::from(ov) as u8, bool::from(s.is_high()) as u8, s.is_zero() as u8];
        v.extend_from_slice(&s.b32());
        v.extend_from_slice(&(s * s).b32());
        o.put("scalar", &v);
        let mut a = Affine::default();
        if ok {
            let w = a.set_xo_var(&f, true);
            let p = if w { PublicKey::try_from(a) } else { Err(Error::InvalidAffine) };
            o.put("pk_affine", &pkb(&p));
        }
    }
    // the public decoder, also on lengths that only just fit 32 bits
    let mut strings: Vec<Vec<u8>> = (0..8 * n).map(|_| der(r)).collect();
    for k in 1..6u32 {
        for v in [0xffu8, 0x7f, 0x80, 0x01] {
            let mut b = vec![0x80 + k as u8];
            b.extend(vec![v; k as usize]);
            b.extend(vec![0x30; 600]);
            strings.push(b);
        }
    }
    let mut big = vec![0x55; 0x1_0100_0a];
    big[..5].copy_from_slice(&[0x84, 0xff, 0xff, 0xff, 0xff]);
    strings.push(big);
    for b in &strings {
        let mut t = vec![];
        for op in 0..6 {
            let mut d = util::Decoder::new(b);
            if b.len() < 500 {
                t.push(d.skip((op as usize) % 3).is_ok() as u8);
            }
            let res = match op {
                0 | 1 => d.read_len().map(|x| format!("{}", x)),
                2 => d.read_len_lax().map(|x| format!("{}", x)),
                3 => d.read_integer().map(|x| format!("{:?}", x.0)),
                4 => d.read_integer_lax().map(|x| format!("{:?}", x.0)),
                _ => d.read_seq_len_lax().map(|x| format!("{}", x)),
            };
            // where a refused operation leaves the cursor is not specified
            let left = if res.is_ok() { d.remaining_len() } else { 0 };
            t.extend(format!("{:?}", (res, left, d.skip(usize::MAX - 1), d.peek(usize::MAX), d.peek_slice(usize::MAX).is_ok())).into_bytes());
        }
        o.put("decoder", &t);
    }
    drop(strings);
    for i in 0..n {
        let k = sks[(r.u() % sks.len() as u64) as usize];
        let t = sks[(r.u() % sks.len() as u64) as usize];
        let p = pks[(r.u() % pks.len() as u64) as usize];
        let s = sgs[(r.u() % sgs.len() as u64) as usize];
        let m = Message::parse(&b32(r));
        let mut a = k;
        o.put("sk_tweak_add", &skb(&a.tweak_add_assign(&t).map(|_| a)));
        let mut a = k;
        o.put("sk_tweak_mul", &skb(&a.tweak_mul_assign(&t).map(|_| a)));
        o.put("sk_inv", &k.inv().serialize());
        let d = PublicKey::from_secret_key_with_context(&k, gc);
        let db = pkb(&Ok(d));
        o.put("derive", &db);
        let e = SharedSecret::<Tap>::new_with_context(&p, &k, ec).map(|x| x.as_ref().to_vec()).unwrap_or_default();
        o.put("ecdh", &e);
        let mut q = p;
        let ta = q.tweak_add_assign_with_context(&t, ec).map(|_| q);
        o.put("pk_tweak_add", &pkb(&ta));
        let mut q = p;
        let tm = q.tweak_mul_assign_with_context(&t, ec).map(|_| q);
        o.put("pk_tweak_mul", &pkb(&tm));
        let id = RecoveryId::parse((i % 4) as u8).unwrap();
        let rc = recover_with_context(&m, &s, &id, ec);
        o.put("recover", &pkb(&rc));
        let vk = rc.unwrap_or(p);
        let v = verify_with_context(&m, &s, &vk, ec);
        o.put("verify", &[v as u8]);
        let l: Vec<PublicKey> = (0..r.below(6)).map(|j| if j % 2 == 0 { pks[(r.u() % pks.len() as u64) as usize] } else { d }).collect();
        o.put("combine", &pkb(&PublicKey::combine(&l)));
        let mut nonce = Scalar::default();
        let _ = nonce.set_b32(&t.serialize());
        let mut ks = Scalar::default();
        let _ = ks.set_b32(&k.serialize());
        if let Ok((rr, ss, id)) = gc.sign_raw(&ks, &m.0, &nonce) {
            let mut v = sgb(&Ok(Signature { r: rr, s: ss }));
            v.push(id);
            o.put("sign_raw", &v);
        }
        #[cfg(feature = "f_static")]
        {
            same(o, "derive", &pkb(&Ok(PublicKey::from_secret_key(&k))), &db);
            same(o, "ecdh", &SharedSecret::<Tap>::new(&p, &k).map(|x| x.as_ref().to_vec()).unwrap_or_default(), &e);
            let mut q = p;
            same(o, "pk_tweak_add", &pkb(&q.tweak_add_assign(&t).map(|_| q)), &pkb(&ta));
            let mut q = p;
            same(o, "pk_tweak_mul", &pkb(&q.tweak_mul_assign(&t).map(|_| q)), &pkb(&tm));
            same(o, "recover", &pkb(&recover(&m, &s, &id_of(i))), &pkb(&recover_with_context(&m, &s, &id_of(i), ec)));
            same(o, "verify", &[verify(&m, &s, &vk) as u8], &[v as u8]);
        }
        #[cfg(feature = "f_hmac")]
        {
            let (s, id) = sign_with_context(&m, &k, gc);
            let mut v = sgb(&Ok(s));
            v.push(id.serialize());
            o.put("sign", &v);
            #[cfg(feature = "f_static")]
            {
                let (s2, id2) = sign(&m, &k);
                let mut v2 = sgb(&Ok(s2));
                v2.push(id2.serialize());
                same(o, "sign", &v2, &v);
            }
            let back = recover_with_context(&m, &s, &id, ec);
            if back != Ok(d) {
                o.fails.push(String::from("a signature does not recover its key"));
            }
        }
    }
}
#[allow(dead_code)]
fn id_of(i: usize) -> RecoveryId {
    RecoveryId::parse((i % 4) as u8).unwrap()
}
