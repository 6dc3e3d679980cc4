//! The older version of a protocol.
use brec::prelude::*;
include!("../../exchange.rs");

#[block]
#[derive(Debug, Clone)]
pub struct Seq {
    pub n: u32,
}
#[block]
#[derive(Debug, Clone)]
pub struct Tag {
    pub id: [u8; 3],
    pub on: bool,
}
/// its field has another type in the newer version
#[block]
#[derive(Debug, Clone)]
pub struct Level {
    pub v: u16,
}
/// its fields have another order in the newer version
#[block]
#[derive(Debug, Clone)]
pub struct Point {
    pub x: u16,
    pub y: u16,
}
/// the newer version does not have it
#[block]
#[derive(Debug, Clone)]
pub struct Gone {
    pub v: u64,
}
#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct Note {
    pub text: String,
}
#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct Old {
    pub text: String,
}
brec::generate!();

fn packets() -> Vec<(bool, Packet)> {
    let seq = |n| Block::Seq(Seq { n });
    let note = || Some(Payload::Note(Note { text: "note".into() }));
    vec![
        (true, Packet::new(vec![], None)),
        (true, Packet::new(vec![seq(1)], None)),
        (true, Packet::new(vec![seq(2), Block::Tag(Tag { id: [1, 2, 3], on: true })], note())),
        (true, Packet::new(vec![], Some(Payload::String("string".into())))),
        (true, Packet::new(vec![seq(3), seq(4), seq(5)], Some(Payload::Bytes(vec![])))),
        (false, Packet::new(vec![Block::Level(Level { v: 6 })], None)),
        (false, Packet::new(vec![seq(7), Block::Point(Point { x: 1, y: 2 })], note())),
        (false, Packet::new(vec![Block::Gone(Gone { v: 8 }), seq(8)], None)),
        (false, Packet::new(vec![seq(9)], Some(Payload::Old(Old { text: "old".into() })))),
    ]
}
