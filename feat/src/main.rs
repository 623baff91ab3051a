//! C19: the same workload in one feature configuration; prints "group hash" lines.
extern crate alloc;
mod work;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(1).map_or(1, |s| s.parse().unwrap());
    let n: usize = a.get(2).map_or(20, |s| s.parse().unwrap());
    let want = a.get(3).cloned();
    let mut out = work::Out { want: want.clone(), ..Default::default() };
    work::run(seed, n, &mut out);
    #[cfg(feature = "f_std")]
    serde_part(seed, n, &mut out);
    if want.is_some() {
        for l in out.lines {
            println!("{}", l);
        }
        return;
    }
    for (g, h, n) in out.groups {
        println!("GROUP {} {:016x} {}", g, h, n);
    }
    for f in out.fails {
        println!("FAIL {}", f);
    }
    println!("DONE");
}
#[cfg(feature = "f_std")]
fn serde_part(seed: u64, n: usize, out: &mut work::Out) {
    use libsecp256k1::PublicKey;
    let mut r = work::R(seed ^ 0x5e7de);
    for _ in 0..n {
        let b = work::point(&mut r);
        if let Ok(p) = PublicKey::parse_slice(&b, None) {
            let j = serde_json::to_string(&p).expect("json");
            out.put("serde_json", j.as_bytes());
            let q: Result<PublicKey, _> = serde_json::from_str(&j);
            if q.ok() != Some(p) {
                out.fails.push("json round trip".into());
            }
            let mut j2 = j.clone().into_bytes();
            let i = (r.u() % j2.len() as u64) as usize;
            j2[i] = 32 + (r.u() % 95) as u8;
            let q: Result<PublicKey, _> = serde_json::from_slice(&j2);
            out.put("serde_json_in", &q.map(|q| q.serialize().to_vec()).unwrap_or_default());
            let v = bincode::serialize(&p).expect("bincode");
            out.put("serde_bincode", &v);
            let mut v2 = v.clone();
            let i = (r.u() % v2.len() as u64) as usize;
            v2[i] ^= 1 << (r.u() % 8);
            let q: Result<PublicKey, _> = bincode::deserialize(&v2);
            out.put("serde_bincode_in", &q.map(|q| q.serialize().to_vec()).unwrap_or_default());
        }
    }
}
