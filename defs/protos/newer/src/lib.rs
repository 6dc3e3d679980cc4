//! The newer version of a protocol.
use brec::prelude::*;
include!("../../exchange.rs");

#[block]
#[derive(Debug, Clone)]
pub struct Seq {
    pub n: u32,
}
#[block]
#[derive(Debug, Clone)]
pub struct Tag {
    pub id: [u8; 3],
    pub on: bool,
}
#[block]
#[derive(Debug, Clone)]
pub struct Level {
    pub v: i16,
}
#[block]
#[derive(Debug, Clone)]
pub struct Point {
    pub y: u16,
    pub x: u16,
}
/// only here
#[block]
#[derive(Debug, Clone)]
pub struct Added {
    pub data: [u8; 80],
}
#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct Note {
    pub text: String,
}
/// only here
#[payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Debug, Clone)]
pub struct New {
    pub data: Vec<u8>,
}
brec::generate!();

fn packets() -> Vec<(bool, Packet)> {
    let seq = |n| Block::Seq(Seq { n });
    let added = || Block::Added(Added { data: [0; 80] });
    let note = || Some(Payload::Note(Note { text: "note".into() }));
    let new = |d: &[u8]| Some(Payload::New(New { data: d.to_vec() }));
    // a whole packet the other version could read
    let mut inner = vec![];
    WriteMutTo::write_all(&mut Packet::new(vec![seq(99)], None), &mut inner).expect("write");
    let mut data = [0; 80];
    data[..inner.len()].copy_from_slice(&inner);
    vec![
        (true, Packet::new(vec![], None)),
        (true, Packet::new(vec![seq(1)], None)),
        (true, Packet::new(vec![seq(2), Block::Tag(Tag { id: [1, 2, 3], on: true })], note())),
        (true, Packet::new(vec![], Some(Payload::String("string".into())))),
        (true, Packet::new(vec![seq(3)], Some(Payload::Bytes(inner.clone())))),
        (false, Packet::new(vec![added()], None)),
        (false, Packet::new(vec![seq(4), added()], note())),
        (false, Packet::new(vec![added(), seq(5)], None)),
        (false, Packet::new(vec![], new(b"x"))),
        (false, Packet::new(vec![seq(6)], new(&[]))),
        (false, Packet::new(vec![added()], new(b"yy"))),
        (false, Packet::new(vec![Block::Level(Level { v: 6 })], None)),
        (false, Packet::new(vec![Block::Point(Point { y: 2, x: 1 })], note())),
        (false, Packet::new(vec![Block::Added(Added { data })], None)),
        (false, Packet::new(vec![], new(&inner))),
    ]
}
