//! The reference model is checked against the C library before every run; a disagreement is a
//! harness error, never a violation.
use crate::model;
use crate::rng::Rng;
use crate::u256::*;
use secp256k1 as c;

fn die(m: &str) -> ! {
    eprintln!("HARNESS-ERROR model self-check: {}", m);
    std::process::exit(2)
}
pub fn run(seed: u64) {
    let ctx = c::Secp256k1::new();
    let mut r = Rng::new(seed, "selfcheck", 0);
    let k = model::k();
    if model::sha256(b"abc")[..4] != [0xba, 0x78, 0x16, 0xbf] {
        die("sha256");
    }
    let lg = model::mul_g(&k.lambda).unwrap();
    if lg != (k.fp.mul(&k.beta, &k.gx), k.gy) {
        die("lambda");
    }
    for i in 0..12 {
        let d = if i % 3 == 0 { crate::gen::scalar(&mut r) } else { k.fnn.red(&U::from_be(&r.b32())) };
        let mb = r.b32();
        let m = U::from_be(&mb);
        let csk = c::SecretKey::from_slice(&d.be()).unwrap_or_else(|_| die("secret key"));
        let cpk = c::PublicKey::from_secret_key(&ctx, &csk);
        let q = model::mul_g(&d);
        if cpk.serialize_uncompressed()[..] != model::ser65(&q)[..] || cpk.serialize()[..] != model::ser33(&q)[..] {
            die("mul_g");
        }
        let (rr, ss, id) = model::sign(&d, &m);
        // the C library hashes the unreduced message into the nonce: compare only below n
        if m.lt(&k.n) {
            let cs = ctx.sign_recoverable(&c::Message::from_slice(&mb).unwrap(), &csk);
            let (cid, cb) = cs.serialize_compact();
            if cb[..32] != rr.be()[..] || cb[32..] != ss.be()[..] || cid.to_i32() != id as i32 {
                die("sign");
            }
        }
        if !model::ecdsa_verify(&m, &rr, &ss, &q) || model::ecdsa_recover(&m, &rr, &ss, id) != q {
            die("verify/recover");
        }
        if model::ecdsa_verify(&m.wadd(&ONE), &rr, &ss, &q) {
            die("verify rejects");
        }
        let t = k.fnn.red(&U::from_be(&r.b32()));
        let mut cq = cpk;
        cq.mul_assign(&ctx, &t.be()).unwrap();
        if cq.serialize_uncompressed()[..] != model::ser65(&model::mul(&q, &t))[..] {
            die("mul");
        }
        if model::ser65(&model::mul(&q, &t))[..] != model::ser65(&model::mul_g(&k.fnn.mul(&d, &t)))[..] {
            die("mul dl");
        }
        let der = model::der_encode(&rr, &ss);
        let cder = c::Signature::from_der(&der).unwrap_or_else(|_| die("der"));
        if cder.serialize_compact()[..32] != rr.be()[..] || cder.serialize_der()[..] != der[..] {
            die("der");
        }
    }
}
