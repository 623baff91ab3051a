//! Independent 256-bit arithmetic for the reference model. Deliberately simple: schoolbook
//! multiplication, reduction by folding and final subtraction, inversion by Fermat.
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct U(pub [u64; 4]); // little endian

pub const ZERO: U = U([0; 4]);
pub const ONE: U = U([1, 0, 0, 0]);

impl U {
    pub const fn from_u64(v: u64) -> U {
        U([v, 0, 0, 0])
    }
    pub fn from_be(b: &[u8]) -> U {
        assert!(b.len() <= 32);
        let mut p = [0u8; 32];
        p[32 - b.len()..].copy_from_slice(b);
        let mut r = [0u64; 4];
        for i in 0..4 {
            r[3 - i] = u64::from_be_bytes(p[8 * i..8 * i + 8].try_into().unwrap());
        }
        U(r)
    }
    pub fn be(&self) -> [u8; 32] {
        let mut p = [0u8; 32];
        for i in 0..4 {
            p[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes());
        }
        p
    }
    pub fn from_hex(s: &str) -> U {
        let s = format!("{:0>64}", s);
        let b: Vec<u8> = (0..32)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        U::from_be(&b)
    }
    pub fn hex(&self) -> String {
        self.be().iter().map(|b| format!("{:02x}", b)).collect()
    }
    pub fn words32(&self) -> [u32; 8] {
        let mut w = [0u32; 8];
        for i in 0..8 {
            w[i] = (self.0[i / 2] >> (32 * (i % 2))) as u32;
        }
        w
    }
    pub fn from_words32(w: &[u32; 8]) -> U {
        let mut r = [0u64; 4];
        for i in 0..8 {
            r[i / 2] |= (w[i] as u64) << (32 * (i % 2));
        }
        U(r)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    pub fn bit(&self, i: usize) -> bool {
        i < 256 && (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn bits(&self) -> usize {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return 64 * i + 64 - self.0[i].leading_zeros() as usize;
            }
        }
        0
    }
    pub fn cmp(&self, o: &U) -> Ordering {
        for i in (0..4).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
    pub fn lt(&self, o: &U) -> bool {
        self.cmp(o) == Ordering::Less
    }
    /// wrapping addition, carry
    pub fn add(&self, o: &U) -> (U, bool) {
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        (U(r), c != 0)
    }
    /// wrapping subtraction, borrow
    pub fn sub(&self, o: &U) -> (U, bool) {
        let mut r = [0u64; 4];
        let mut b = false;
        for i in 0..4 {
            let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (y, b2) = x.overflowing_sub(b as u64);
            r[i] = y;
            b = b1 | b2;
        }
        (U(r), b)
    }
    pub fn wadd(&self, o: &U) -> U {
        self.add(o).0
    }
    pub fn wsub(&self, o: &U) -> U {
        self.sub(o).0
    }
    pub fn not(&self) -> U {
        U([!self.0[0], !self.0[1], !self.0[2], !self.0[3]])
    }
    pub fn shr(&self, n: usize) -> U {
        let mut r = ZERO;
        for i in 0..256 - n.min(256) {
            if self.bit(i + n) {
                r.0[i / 64] |= 1 << (i % 64);
            }
        }
        r
    }
    pub fn shl(&self, n: usize) -> U {
        let mut r = ZERO;
        for i in n.min(256)..256 {
            if self.bit(i - n) {
                r.0[i / 64] |= 1 << (i % 64);
            }
        }
        r
    }
    pub fn pow2(k: usize) -> U {
        let mut r = ZERO;
        r.0[k / 64] |= 1 << (k % 64);
        r
    }
    pub fn mask(&self, bits: usize) -> U {
        let mut r = *self;
        for i in 0..4 {
            if bits <= 64 * i {
                r.0[i] = 0;
            } else if bits < 64 * i + 64 {
                r.0[i] &= (1u64 << (bits - 64 * i)) - 1;
            }
        }
        r
    }
}

pub fn mul_wide(a: &U, b: &U) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let t = a.0[i] as u128 * b.0[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + 4] = c as u64;
    }
    r
}

/// Arithmetic modulo m, where 2^255 < m < 2^256.
#[derive(Clone, Copy)]
pub struct Mod {
    pub m: U,
    /// 2^256 - m
    pub c: U,
}

impl Mod {
    pub fn new(m: U) -> Mod {
        Mod { m, c: ZERO.wsub(&m) }
    }
    pub fn red(&self, a: &U) -> U {
        let mut a = *a;
        while !a.lt(&self.m) {
            a = a.wsub(&self.m);
        }
        a
    }
    /// reduce hi * 2^256 + lo
    pub fn red_wide(&self, l: &[u64; 8]) -> U {
        let mut lo = U([l[0], l[1], l[2], l[3]]);
        let mut hi = U([l[4], l[5], l[6], l[7]]);
        while !hi.is_zero() {
            let f = mul_wide(&hi, &self.c);
            let (s, carry) = lo.add(&U([f[0], f[1], f[2], f[3]]));
            lo = s;
            hi = U([f[4], f[5], f[6], f[7]]);
            if carry {
                hi = hi.wadd(&ONE);
            }
        }
        self.red(&lo)
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (s, c) = a.add(b);
        if c {
            self.red(&s.wadd(&self.c))
        } else {
            self.red(&s)
        }
    }
    pub fn neg(&self, a: &U) -> U {
        let a = self.red(a);
        if a.is_zero() {
            a
        } else {
            self.m.wsub(&a)
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        self.add(a, &self.neg(b))
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        self.red_wide(&mul_wide(a, b))
    }
    pub fn sqr(&self, a: &U) -> U {
        self.mul(a, a)
    }
    pub fn pow(&self, a: &U, e: &U) -> U {
        let mut r = ONE;
        for i in (0..e.bits()).rev() {
            r = self.sqr(&r);
            if e.bit(i) {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &U) -> U {
        self.pow(a, &self.m.wsub(&U::from_u64(2)))
    }
    pub fn muli(&self, a: &U, k: u64) -> U {
        self.mul(a, &U::from_u64(k))
    }
}
