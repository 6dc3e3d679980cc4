//! Own payloads without the default ones.
use brec::prelude::*;
include!("../../round.rs");

#[block]
#[derive(Debug, Clone)]
pub struct A {
    pub x: u16,
}
#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct P {
    pub x: u32,
}
#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct Q(pub String);
brec::generate!(no_default_payload);

pub fn check() -> (u64, Vec<String>) {
    let mut all = vec![];
    for n in 0..3u16 {
        for p in [None, Some(Payload::P(P { x: 7 })), Some(Payload::P(P { x: u32::MAX })), Some(Payload::Q(Q(String::new()))), Some(Payload::Q(Q("text".into())))] {
            all.push(Packet::new((0..n).map(|x| Block::A(A { x })).collect(), p));
        }
    }
    round(all)
}
