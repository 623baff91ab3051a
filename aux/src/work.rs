//! The hostile world: pools of values fed back into every entry point.
use crate::rng::Rng;
use libsecp256k1::curve::{Affine, Field, Scalar};
use libsecp256k1::*;
use std::collections::{BTreeMap, HashSet};
use std::convert::TryFrom;
use std::sync::OnceLock;

pub struct World {
    pub r: Rng,
    pub pk: Vec<PublicKey>,
    pub sk: Vec<SecretKey>,
    pub sg: Vec<Signature>,
    pub ms: Vec<Message>,
    pub blob: Vec<Vec<u8>>,
    pub h: u64,
    pub step: u64,
    pub cur: &'static str,
    pub events: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub fails: Vec<String>,
    pub dump: bool,
    pub lines: Vec<String>,
    light: bool,
    chunk: u64,
}
const HEXES: [&str; 22] = [
    "0000000000000000000000000000000000000000000000000000000000000000",
    "0000000000000000000000000000000000000000000000000000000000000001",
    "0000000000000000000000000000000000000000000000000000000000000002",
    "0000000000000000000000000000000000000000000000000000000000000003",
    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140",
    "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142",
    "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0",
    "7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a1",
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e",
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc30",
    "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
    "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
    "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8",
    "c6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5",
    "5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72",
    "7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee",
    "000000000000000000000000000000014551231950b75fc4402da1722fc9baee",
    "8000000000000000000000000000000000000000000000000000000000000000",
    "00000000000000000000000000000000ffffffffffffffffffffffffffffffff",
    "0000000000000000000000000000000000000000000000000000000100000000",
];
fn consts() -> &'static Vec<[u8; 32]> {
    static C: OnceLock<Vec<[u8; 32]>> = OnceLock::new();
    C.get_or_init(|| {
        HEXES
            .iter()
            .map(|h| {
                let mut o = [0u8; 32];
                for i in 0..32 {
                    o[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap();
                }
                o
            })
            .collect()
    })
}
pub struct Stream(pub Vec<u8>, pub usize, pub Rng);
impl rand::RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = if self.1 < self.0.len() { self.0[self.1] } else { self.2.u8() };
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
#[cfg(not(miri))]
pub fn heap() -> (&'static curve::ECMultContext, &'static curve::ECMultGenContext) {
    static A: OnceLock<Box<curve::ECMultContext>> = OnceLock::new();
    static B: OnceLock<Box<curve::ECMultGenContext>> = OnceLock::new();
    (A.get_or_init(curve::ECMultContext::new_boxed), B.get_or_init(curve::ECMultGenContext::new_boxed))
}
#[cfg(miri)]
pub fn heap() -> (&'static curve::ECMultContext, &'static curve::ECMultGenContext) {
    (&ECMULT_CONTEXT, &ECMULT_GEN_CONTEXT)
}
fn put<T>(r: &mut Rng, v: &mut Vec<T>, x: T, cap: usize) {
    if v.len() < cap {
        v.push(x)
    } else {
        let i = r.below(cap);
        v[i] = x
    }
}
fn arr<const N: usize>(v: &[u8]) -> [u8; N] {
    let mut o = [0; N];
    for (a, b) in o.iter_mut().zip(v) {
        *a = *b
    }
    o
}

impl World {
    pub fn new(seed: u64, chunk: u64, light: bool) -> World {
        let mut w = World {
            r: Rng::new(seed, "hostile", chunk),
            pk: vec![],
            sk: vec![],
            sg: vec![],
            ms: vec![],
            blob: vec![],
            h: 0xcbf29ce484222325,
            step: 0,
            cur: "init",
            events: BTreeMap::new(),
            distinct: HashSet::new(),
            fails: vec![],
            dump: false,
            lines: vec![],
            light,
            chunk,
        };
        w.sk.push(SecretKey::default());
        w.sg.push(Signature::parse_overflowing(&[7; 64]));
        w.ms.push(Message::parse(&[9; 32]));
        let mut g = [4u8; 65];
        g[1..33].copy_from_slice(&consts()[13]);
        g[33..].copy_from_slice(&consts()[14]);
        if let Ok(p) = PublicKey::parse(&g) {
            w.pk.push(p);
        } else {
            w.fails.push("the generator was refused as a public key".into());
            w.pk.push(PublicKey::from_secret_key(&SecretKey::default()));
        }
        w.blob.push(g.to_vec());
        w
    }
    fn rec(&mut self, op: &'static str, ok: bool, data: &[u8]) {
        for x in op.as_bytes().iter().chain(&[ok as u8]).chain(data) {
            self.h = (self.h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        *self.events.entry(op).or_insert(0) += 1;
        if !data.is_empty() {
            self.distinct.insert(crate::rng::hash_bytes(data) ^ op.len() as u64);
        }
        if self.dump {
            let hx: String = data.iter().map(|x| format!("{:02x}", x)).collect();
            self.lines.push(format!("{} {} {} {}", self.step, op, ok, hx));
        }
    }
    fn b32(&mut self) -> [u8; 32] {
        let r = &mut self.r;
        match r.below(12) {
            0..=2 => *r.pick(consts()),
            3 => {
                let mut b = *r.pick(consts());
                b[31] = b[31].wrapping_add(r.below(5) as u8).wrapping_sub(2);
                b
            }
            4 => {
                let mut b = [0; 32];
                let bit = r.below(256);
                b[bit / 8] |= 1 << (bit % 8);
                b
            }
            5 => {
                let n = r.below(33);
                let mut b = [if r.coin() { 0 } else { 0xff }; 32];
                let f = r.b32();
                b[n..].copy_from_slice(&f[n..]);
                b
            }
            6 => {
                let i = r.below(self.sg.len());
                self.sg[i].r.b32()
            }
            7 => {
                let i = r.below(self.sk.len());
                self.sk[i].serialize()
            }
            8 => {
                let i = r.below(self.blob.len());
                let b = &self.blob[i];
                let o = r.below(b.len().max(1));
                arr(&b[o.min(b.len())..])
            }
            9 => {
                // limb patterns
                let mut b = [0; 32];
                for c in b.chunks_mut(4) {
                    let v: u32 = match r.below(5) {
                        0 => 0,
                        1 => u32::MAX,
                        2 => 1,
                        3 => u32::MAX - 1,
                        _ => r.u32(),
                    };
                    c.copy_from_slice(&v.to_be_bytes());
                }
                b
            }
            _ => r.b32(),
        }
    }
    /// hostile byte string, mostly of a given length
    fn bytes(&mut self, len: usize) -> Vec<u8> {
        let mut v = match self.r.below(6) {
            0 => {
                let i = self.r.below(self.blob.len());
                self.blob[i].clone()
            }
            1 => self.r.bytes(len),
            _ => {
                let mut v = vec![];
                if len % 32 == 1 || self.r.one_in(10) {
                    v.push(*self.r.pick(&[2u8, 3, 4, 6, 7, 0, 5, 255]));
                }
                while v.len() < len {
                    v.extend_from_slice(&self.b32());
                }
                v.truncate(len);
                v
            }
        };
        match self.r.below(10) {
            0 if !v.is_empty() => {
                let n = self.r.below(v.len());
                v.truncate(n)
            }
            1 => {
                let n = self.r.below(9);
                v.extend(self.r.bytes(n))
            }
            2 | 3 if !v.is_empty() => {
                let i = self.r.below(v.len());
                v[i] ^= 1 << self.r.below(8)
            }
            _ => {}
        }
        v
    }
    /// the public decoder, driven in any order
    fn decoder(&mut self, b: &[u8]) {
        let o = "der_decoder";
        self.cur = o;
        let mut d = util::Decoder::new(b);
        let mut t: Vec<u8> = vec![];
        for _ in 0..1 + self.r.below(12) {
            let n = match self.r.below(8) {
                0 => usize::MAX - self.r.below(80),
                1 => usize::MAX,
                _ => self.r.below(12),
            };
            let op = self.r.below(10);
            t.push(op as u8);
            let num = |v: Result<usize, Error>, t: &mut Vec<u8>| match v {
                Ok(v) => t.extend_from_slice(&(v as u64).to_le_bytes()),
                Err(e) => t.push(e as u8),
            };
            match op {
                0 => num(d.read().map(|x| x as usize), &mut t),
                1 => num(d.peek(n).map(|x| x as usize), &mut t),
                2 => match d.peek_slice(n) {
                    Ok(v) => t.extend_from_slice(v),
                    Err(e) => t.push(e as u8),
                },
                3 => num(d.skip(n).map(|_| 0), &mut t),
                4 => num(d.read_constructed_sequence().map(|_| 0), &mut t),
                5 => num(d.read_len(), &mut t),
                6 => num(d.read_len_lax(), &mut t),
                7 => num(d.read_seq_len_lax(), &mut t),
                8 => match d.read_integer() {
                    Ok(v) => t.extend_from_slice(&v.b32()),
                    Err(e) => t.push(e as u8),
                },
                _ => match d.read_integer_lax() {
                    Ok(v) => t.extend_from_slice(&v.b32()),
                    Err(e) => t.push(e as u8),
                },
            }
            let left = d.remaining_len();
            if left > b.len() {
                self.fails.push(format!("decoder claims {} bytes of {} left: {:02x?}", left, b.len(), b));
                return;
            }
            t.extend_from_slice(&(left as u32).to_le_bytes());
        }
        self.rec(o, true, &t);
    }
    fn der(&mut self) -> Vec<u8> {
        fn len(r: &mut Rng, n: usize) -> Vec<u8> {
            match r.below(14) {
                0 => vec![0x81, n as u8],
                1 => vec![0x82, (n >> 8) as u8, n as u8],
                2 => vec![0x80],
                3 => {
                    let k = r.below(128);
                    let mut v = vec![0x80 | k as u8];
                    for i in (0..k).rev() {
                        v.push(if i < 8 { ((n as u64) >> (8 * i)) as u8 } else if r.one_in(40) { 1 } else { 0 })
                    }
                    v
                }
                4 => {
                    let k = 1 + r.below(9);
                    let mut v = vec![0x80 | k as u8];
                    v.extend(vec![0xff; k]);
                    v
                }
                5 => vec![n.wrapping_add(r.below(5)).wrapping_sub(2) as u8],
                6 => vec![0xff],
                _ => vec![n as u8],
            }
        }
        let mut body = vec![];
        let ints = if self.r.one_in(12) { self.r.below(4) } else { 2 };
        for _ in 0..ints {
            let mut v = self.b32().to_vec();
            match self.r.below(8) {
                0 => v = vec![],
                1 => v.truncate(self.r.below(33)),
                2 => {
                    let n = self.r.below(6);
                    for _ in 0..n {
                        v.insert(0, 0)
                    }
                }
                3 => {
                    let n = self.r.below(70);
                    v.extend(self.r.bytes(n))
                }
                _ => {
                    while v.len() > 1 && v[0] == 0 && v[1] < 0x80 {
                        v.remove(0);
                    }
                    if v[0] >= 0x80 && !self.r.one_in(12) {
                        v.insert(0, 0)
                    }
                }
            }
            body.push(if self.r.one_in(25) { self.r.u8() } else { 2 });
            let l = len(&mut self.r, v.len());
            body.extend(l);
            body.extend(v);
        }
        let mut o = vec![if self.r.one_in(25) { self.r.u8() } else { 0x30 }];
        let l = len(&mut self.r, body.len());
        o.extend(l);
        o.extend(body);
        match self.r.below(8) {
            0 => {
                let n = self.r.below(o.len() + 1);
                o.truncate(n)
            }
            1 => {
                let n = self.r.below(5);
                o.extend(self.r.bytes(n))
            }
            2 => {
                let i = self.r.below(o.len());
                o[i] = self.r.u8()
            }
            _ => {}
        }
        o
    }
    fn kpk(&mut self, p: PublicKey) {
        put(&mut self.r, &mut self.pk, p, 24)
    }
    fn kblob(&mut self, b: Vec<u8>) {
        put(&mut self.r, &mut self.blob, b, 24)
    }
    fn apk(&mut self) -> PublicKey {
        let i = self.r.below(self.pk.len());
        self.pk[i]
    }
    fn ask(&mut self) -> SecretKey {
        let i = self.r.below(self.sk.len());
        self.sk[i]
    }
    fn asg(&mut self) -> Signature {
        let i = self.r.below(self.sg.len());
        self.sg[i]
    }
    fn ams(&mut self) -> Message {
        let i = self.r.below(self.ms.len());
        self.ms[i]
    }
    fn opk(&mut self, op: &'static str, p: Result<PublicKey, Error>) {
        match p {
            Ok(p) => {
                let s = p.serialize();
                self.rec(op, true, &s);
                let c = p.serialize_compressed();
                // whatever the API hands out has to be usable again
                if PublicKey::parse(&s) != Ok(p) || PublicKey::parse_compressed(&c) != Ok(p) {
                    self.fails.push(format!("{}: a key the API produced does not parse back: {:02x?}", op, s));
                }
                self.kpk(p);
                let v = if self.r.coin() { s.to_vec() } else { c.to_vec() };
                self.kblob(v);
            }
            Err(e) => self.rec(op, false, &[e as u8]),
        }
    }
    fn osk(&mut self, op: &'static str, p: Result<SecretKey, Error>) {
        match p {
            Ok(k) => {
                self.rec(op, true, &k.serialize());
                put(&mut self.r, &mut self.sk, k, 16)
            }
            Err(e) => self.rec(op, false, &[e as u8]),
        }
    }
    fn osg(&mut self, op: &'static str, p: Result<Signature, Error>) {
        match p {
            Ok(s) => {
                self.rec(op, true, &s.serialize());
                put(&mut self.r, &mut self.sg, s, 24)
            }
            Err(e) => self.rec(op, false, &[e as u8]),
        }
    }
    pub fn run(&mut self, steps: u64) {
        for i in 0..steps {
            self.step = i;
            // under an interpreter most steps are cheap, and the expensive entry points take turns
            let op = if self.light {
                if i % 6 == 5 {
                    17 + ((self.chunk * 5 + i / 6) % 11) as usize
                } else {
                    *self.r.pick(&[0usize, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 28, 29, 30])
                }
            } else {
                self.r.below(31)
            };
            self.one(op);
        }
    }
    fn one(&mut self, op: usize) {
        macro_rules! at {
            ($n:expr) => {{
                self.cur = $n;
                $n
            }};
        }
        match op {
            0 | 1 => {
                let o = at!("pk_parse_slice");
                let l = *self.r.pick(&[33usize, 64, 65, 65, 33, 0, 1, 32, 66]);
                let b = self.bytes(l);
                let f = match self.r.below(5) {
                    0 => Some(PublicKeyFormat::Compressed),
                    1 => Some(PublicKeyFormat::Full),
                    2 => Some(PublicKeyFormat::Raw),
                    _ => None,
                };
                let p = PublicKey::parse_slice(&b, f);
                self.opk(o, p)
            }
            2 => {
                let o = at!("pk_parse");
                let b = self.bytes(65);
                let p = PublicKey::parse(&arr(&b));
                self.opk(o, p)
            }
            3 => {
                let o = at!("pk_parse_compressed");
                let b = self.bytes(33);
                let p = PublicKey::parse_compressed(&arr(&b));
                self.opk(o, p)
            }
            4 => {
                let o = at!("sk_parse");
                let b = self.b32();
                let k = SecretKey::parse(&b);
                self.osk(o, k);
                let b = self.bytes(32);
                let k = SecretKey::parse_slice(&b);
                self.osk("sk_parse_slice", k)
            }
            5 => {
                let o = at!("sk_random");
                let mut s = vec![];
                for _ in 0..self.r.below(5) {
                    s.extend_from_slice(&self.b32());
                }
                let sub = Rng::new(self.r.u64(), "stream", 0);
                let mut st = Stream(s, 0, sub);
                let k = SecretKey::random(&mut st);
                self.osk(o, Ok(k))
            }
            6 => {
                let o = at!("sk_tweak_add");
                let (mut a, b) = (self.ask(), self.ask());
                let e = a.tweak_add_assign(&b);
                self.osk(o, e.map(|_| a))
            }
            7 => {
                let o = at!("sk_tweak_mul");
                let (mut a, b) = (self.ask(), self.ask());
                let e = a.tweak_mul_assign(&b);
                self.osk(o, e.map(|_| a))
            }
            8 => {
                let o = at!("sk_inv");
                let a = self.ask().inv();
                self.osk(o, Ok(a))
            }
            9 => {
                let o = at!("sk_from_scalar");
                let mut s = Scalar::default();
                let b = self.b32();
                let _ = s.set_b32(&b);
                let s = if self.r.coin() { s } else { self.ask().into() };
                let k = SecretKey::try_from(s);
                self.osk(o, k)
            }
            10 => {
                let o = at!("sig_parse");
                let b = self.bytes(64);
                let s = Signature::parse_standard_slice(&b);
                self.osg(o, s);
                let s = Signature::parse_overflowing_slice(&b);
                self.osg("sig_parse_overflowing", s);
                let s = Signature::parse_standard(&arr(&b));
                self.osg(o, s)
            }
            11 | 12 => {
                let o = at!("sig_parse_der");
                let b = if self.r.one_in(6) { self.bytes(70) } else { self.der() };
                let s = Signature::parse_der(&b);
                self.osg(o, s);
                self.cur = "sig_parse_der_lax";
                let s = Signature::parse_der_lax(&b);
                self.osg("sig_parse_der_lax", s);
                self.decoder(&b);
                if self.r.one_in(4) {
                    self.kblob(b)
                }
            }
            13 => {
                let o = at!("sig_serialize_der");
                let s = self.asg();
                let d = s.serialize_der();
                let v = d.as_ref().to_vec();
                self.rec(o, true, &v);
                if Signature::parse_der(&v) != Ok(s) {
                    self.fails.push(format!("serialised DER does not parse back: {:02x?}", v));
                }
                self.kblob(v)
            }
            14 => {
                let o = at!("sig_normalize");
                let mut s = self.asg();
                s.normalize_s();
                self.osg(o, Ok(s))
            }
            15 => {
                let o = at!("msg_parse");
                let b = self.bytes(32);
                let m = if self.r.coin() { Message::parse_slice(&b) } else { Ok(Message::parse(&arr(&b))) };
                match m {
                    Ok(m) => {
                        self.rec(o, true, &m.serialize());
                        put(&mut self.r, &mut self.ms, m, 16)
                    }
                    Err(e) => self.rec(o, false, &[e as u8]),
                }
            }
            16 => {
                let o = at!("recid");
                let b = self.r.u8();
                let x = RecoveryId::parse(b).map(|x| x.serialize());
                let y = RecoveryId::parse_rpc(b).map(|x| {
                    let v: i32 = x.into();
                    v as u8
                });
                self.rec(o, x.is_ok(), &[x.unwrap_or(99), y.unwrap_or(99)])
            }
            17 | 18 => {
                let o = at!("sign");
                let (m, k) = (self.ams(), self.ask());
                let (s, id) = if self.r.coin() { sign(&m, &k) } else { sign_with_context(&m, &k, heap().1) };
                self.rec(o, true, &[id.serialize()]);
                self.osg(o, Ok(s));
                let mut b = s.serialize().to_vec();
                b.push(id.serialize());
                self.kblob(b);
                if self.r.one_in(3) {
                    self.cur = "recover_signed";
                    let p = recover(&m, &s, &id);
                    if p != Ok(PublicKey::from_secret_key(&k)) {
                        self.fails.push(format!("recovery of an own signature failed: key {:02x?}", k.serialize()));
                    }
                    self.opk("recover_signed", p)
                }
            }
            19 => {
                let o = at!("derive");
                let k = self.ask();
                let p = if self.r.coin() { PublicKey::from_secret_key(&k) } else { PublicKey::from_secret_key_with_context(&k, heap().1) };
                self.opk(o, Ok(p))
            }
            20 | 21 => {
                let o = at!("verify");
                let (m, s, p) = (self.ams(), self.asg(), self.apk());
                let v = if self.r.coin() { verify(&m, &s, &p) } else { verify_with_context(&m, &s, &p, heap().0) };
                self.rec(o, v, &s.serialize())
            }
            22 | 23 => {
                let o = at!("recover");
                let (m, s) = (self.ams(), self.asg());
                let id = RecoveryId::parse(self.r.below(4) as u8).expect("id");
                let p = if self.r.coin() { recover(&m, &s, &id) } else { recover_with_context(&m, &s, &id, heap().0) };
                if let Ok(p) = &p {
                    if !verify(&m, &s, p) {
                        self.fails.push(format!("a recovered key does not verify the signature {:02x?}", s.serialize()));
                    }
                }
                self.opk(o, p)
            }
            24 => {
                let o = at!("ecdh");
                let (p, k) = (self.apk(), self.ask());
                let r: Result<Vec<u8>, Error> = match self.r.below(3) {
                    0 => SharedSecret::<sha2::Sha256>::new(&p, &k).map(|x| x.as_ref().to_vec()),
                    1 => SharedSecret::<sha2::Sha512>::new(&p, &k).map(|x| x.as_ref().to_vec()),
                    _ => SharedSecret::<sha2::Sha224>::new_with_context(&p, &k, heap().0).map(|x| x.as_ref().to_vec()),
                };
                match r {
                    Ok(v) => {
                        self.rec(o, true, &v);
                        self.kblob(v)
                    }
                    Err(e) => self.rec(o, false, &[e as u8]),
                }
            }
            25 => {
                let o = at!("pk_tweak_add");
                let (mut p, k) = (self.apk(), self.ask());
                let e = if self.r.coin() { p.tweak_add_assign(&k) } else { p.tweak_add_assign_with_context(&k, heap().0) };
                self.opk(o, e.map(|_| p))
            }
            26 => {
                let o = at!("pk_tweak_mul");
                let (mut p, k) = (self.apk(), self.ask());
                let e = if self.r.coin() { p.tweak_mul_assign(&k) } else { p.tweak_mul_assign_with_context(&k, heap().0) };
                self.opk(o, e.map(|_| p))
            }
            27 => {
                let o = at!("combine");
                let n = self.r.below(7);
                let mut v: Vec<PublicKey> = (0..n).map(|_| self.apk()).collect();
                if n > 0 && self.r.coin() {
                    // opposite key
                    let mut b = v[0].serialize_compressed();
                    b[0] ^= 1;
                    if let Ok(q) = PublicKey::parse_compressed(&b) {
                        v.push(q)
                    } else {
                        self.fails.push(format!("opposite key refused {:02x?}", b));
                    }
                }
                let p = PublicKey::combine(&v);
                self.opk(o, p)
            }
            28 => {
                let o = at!("serde_json");
                let s = match self.r.below(3) {
                    0 => {
                        let p = self.apk();
                        serde_json::to_string(&p).expect("serialise")
                    }
                    1 => {
                        let p = self.apk();
                        let mut b = serde_json::to_string(&p).expect("serialise").into_bytes();
                        let i = self.r.below(b.len());
                        b[i] = 32 + self.r.below(95) as u8;
                        if self.r.one_in(3) {
                            b.remove(self.r.below(b.len()));
                        }
                        String::from_utf8(b).unwrap()
                    }
                    _ => {
                        let b = self.bytes(33);
                        format!("\"{}\"", b.iter().map(|x| (32 + x % 90) as char).filter(|c| *c != '"' && *c != '\\').collect::<String>())
                    }
                };
                let p: Result<PublicKey, _> = serde_json::from_str(&s);
                self.opk(o, p.map_err(|_| Error::InvalidPublicKey))
            }
            29 => {
                let o = at!("serde_bincode");
                let mut b = {
                    let p = self.apk();
                    bincode::serialize(&p).expect("serialise")
                };
                if self.r.coin() {
                    let l = *self.r.pick(&[33usize, 64, 65, 0, 1]);
                    let x = self.bytes(l);
                    b = (x.len() as u64).to_le_bytes().to_vec();
                    b.extend(x);
                    if self.r.one_in(4) {
                        let i = self.r.below(8);
                        b[i] = self.r.u8();
                    }
                }
                let p: Result<PublicKey, _> = bincode::deserialize(&b);
                self.opk(o, p.map_err(|_| Error::InvalidPublicKey))
            }
            _ => {
                let o = at!("pk_from_affine");
                let (a, b) = (self.b32(), self.b32());
                let (mut x, mut y) = (Field::default(), Field::default());
                // a failed import leaves no usable field element
                let ok = x.set_b32(&a) & y.set_b32(&b);
                let mut e = Affine::default();
                match if ok { self.r.below(4) } else { 3 } {
                    0 => e.set_xy(&x, &y),
                    1 => {
                        let p: Affine = self.apk().into();
                        e = p.neg();
                        e.y.normalize();
                    }
                    2 => {
                        e.set_xo_var(&x, self.r.coin());
                    }
                    _ => e = self.apk().into(),
                }
                let p = PublicKey::try_from(e);
                self.opk(o, p);
                let k = self.ask();
                let s = format!("{:x}", k);
                self.rec("hex", true, s.as_bytes());
            }
        }
    }
}
