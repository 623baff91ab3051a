use crate::mon::{Cx, Prop};
mod codec;
mod decoder;
mod der;
mod ecdsa;
mod keys;
pub mod math;
mod walk;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(ecdsa::props());
    v.extend(codec::props());
    v.extend(der::props());
    v.extend(keys::props());
    v.extend(math::props());
    v.extend(walk::props());
    v.extend(decoder::props());
    v
}
pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
pub fn prop(id: &'static str, rule: &'static str, blocks: (u64, u64), fixed: u64, block: fn(&mut Cx)) -> Prop {
    Prop { id, rule, blocks, block, fixed, threads: 8 }
}
