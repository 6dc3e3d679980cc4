//! Blocks and default payloads only.
use brec::prelude::*;
include!("../../round.rs");

#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct A {
    pub x: u16,
    pub d: [u8; 3],
}
#[block]
#[derive(Debug, Clone)]
pub struct B {
    pub k: bool,
}
brec::generate!(payloads_derive = "Debug, Clone, PartialEq");

pub fn check() -> (u64, Vec<String>) {
    let blocks = || vec![Block::A(A { x: 513, d: [1, 2, 3] }), Block::B(B { k: true }), Block::B(B { k: false })];
    let mut all = vec![];
    for m in 0..8 {
        for p in [None, Some(Payload::Bytes(vec![])), Some(Payload::Bytes(vec![1; 300])), Some(Payload::String(String::new())), Some(Payload::String("snow \u{2603}".into()))] {
            all.push(Packet::new(blocks().into_iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, b)| b).collect(), p));
        }
    }
    round(all)
}
