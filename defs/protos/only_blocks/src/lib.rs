//! Blocks only, packets are not generated.
use brec::prelude::*;
use std::io::Cursor;

#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct A {
    pub x: u16,
}
#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct B {
    pub x: u16,
}
#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct C {
    pub x: [u8; 2],
}
brec::generate!(no_default_payload);

pub fn check() -> (u64, Vec<String>) {
    let mut bad = vec![];
    let mut n = 0;
    for x in 0..=u16::MAX {
        for b in [Block::A(A { x }), Block::B(B { x }), Block::C(C { x: x.to_be_bytes() })] {
            n += 1;
            let mut w = vec![];
            b.write_all(&mut w).expect("write");
            let r = [
                <Block as ReadFrom>::read(&mut Cursor::new(&w)).ok(),
                BlockReferred::read_from_slice(&w, false).ok().map(|b| b.into()),
                match <Block as TryReadFrom>::try_read(&mut Cursor::new(&w)) {
                    Ok(ReadStatus::Success(b)) => Some(b),
                    _ => None,
                },
                match <Block as TryReadFromBuffered>::try_read(&mut Cursor::new(&w)) {
                    Ok(ReadStatus::Success(b)) => Some(b),
                    _ => None,
                },
            ];
            if r.iter().any(|r| r.as_ref() != Some(&b)) && bad.len() < 3 {
                bad.push(format!("{b:?} is read as {r:?}"));
            }
        }
    }
    (n, bad)
}
