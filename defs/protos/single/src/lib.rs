//! One block and one payload next to the default ones.
use brec::prelude::*;
include!("../../round.rs");

#[block]
#[derive(Debug)]
pub struct A {
    pub x: [u8; 1],
}
#[payload(bincode, no_crc)]
#[derive(serde::Serialize, serde::Deserialize, Debug)]
pub enum P {
    X,
    Y(u8),
}
brec::generate!();

pub fn check() -> (u64, Vec<String>) {
    let mut all = vec![];
    for n in 0..3u8 {
        for p in [None, Some(Payload::P(P::X)), Some(Payload::P(P::Y(3))), Some(Payload::Bytes(vec![0; 9])), Some(Payload::String("text".into()))] {
            all.push(Packet::new((0..n).map(|x| Block::A(A { x: [x] })).collect(), p));
        }
    }
    round(all)
}
