//! Readers of single blocks and payloads, uniformly (used by P04, P05, P10).
use crate::model::*;
use crate::proto::inner::{BPath, BPathReferred};
use crate::proto::*;
use crate::readers::*;
use crate::util::catch;
use brec::prelude::*;
use std::io::{BufReader, Cursor, Read};

/// (reader, outcome, bytes consumed or MAX if not meaningful)
pub type Res = (&'static str, Out, usize);

fn put(v: &mut Vec<Res>, name: &'static str, r: Result<(Out, usize), String>) {
    match r {
        Ok((o, n)) => v.push((name, o, n)),
        Err(p) => v.push((name, Out::Panic(p), usize::MAX)),
    }
}

macro_rules! typed {
    ($v:expr, $b:expr, $ty:ident, $refd:ident) => {
        typed!($v, $b, $ty, $refd, $ty)
    };
    ($v:expr, $b:expr, $ty:ident, $refd:ident, $var:ident) => {{
        let wrap = |r: Result<$ty, Error>| match r {
            Ok(v) => Out::Ok(Pkt::new(vec![Blk::of(&Block::$var(v))], None)),
            Err(e) => Out::Err(errname(&e)),
        };
        let wraps = |r: Result<ReadStatus<$ty>, Error>| match r {
            Ok(ReadStatus::Success(v)) => Out::Ok(Pkt::new(vec![Blk::of(&Block::$var(v))], None)),
            Ok(ReadStatus::NotEnoughData(n)) => Out::Need(n),
            Err(e) => Out::Err(errname(&e)),
        };
        let b: &[u8] = $b;
        let tail: &[u8] = b.get(4..).unwrap_or(&[]);
        put($v, "typed ReadBlockFrom", catch(|| { let mut c = Cursor::new(b); let o = wrap(<$ty as ReadBlockFrom>::read(&mut c, false)); (o, c.position() as usize) }));
        put($v, "typed ReadBlockFrom skip_sig", catch(|| { let mut c = Cursor::new(tail); let o = wrap(<$ty as ReadBlockFrom>::read(&mut c, true)); (o, c.position() as usize + 4) }));
        put($v, "typed TryReadFrom", catch(|| { let mut c = Cursor::new(b); let o = wraps(<$ty as TryReadFrom>::try_read(&mut c)); (o, c.position() as usize) }));
        put($v, "typed TryReadFromBuffered", catch(|| { let mut c = Cursor::new(b); let o = wraps(<$ty as TryReadFromBuffered>::try_read(&mut c)); (o, c.position() as usize) }));
        put($v, "typed TryReadFromBuffered/small buffer", catch(|| {
            let mut c = BufReader::with_capacity(5, b);
            let o = wraps(<$ty as TryReadFromBuffered>::try_read(&mut c));
            let mut rest = vec![];
            c.read_to_end(&mut rest).unwrap();
            (o, b.len() - rest.len())
        }));
        put($v, "typed slice", catch(|| (wrap($refd::read_from_slice(b, false).map(|r| r.into())), usize::MAX)));
        put($v, "typed slice skip_sig", catch(|| (wrap($refd::read_from_slice(tail, true).map(|r| r.into())), usize::MAX)));
    }};
}

/// `kind` only selects the type
pub fn block_reads(kind: &Blk, bytes: &[u8]) -> Vec<Res> {
    let mut out = vec![];
    let v = &mut out;
    match kind {
        Blk::Tiny(_) => typed!(v, bytes, BTiny, BTinyReferred),
        Blk::Bool(..) => typed!(v, bytes, BBool, BBoolReferred),
        Blk::Enum(_) => typed!(v, bytes, BEnum, BEnumReferred),
        Blk::Blob(_) => typed!(v, bytes, BBlob, BBlobReferred),
        Blk::Mix(..) => typed!(v, bytes, BMix, BMixReferred),
        Blk::All(_) => typed!(v, bytes, BAll, BAllReferred),
        Blk::NoCrc(_) => typed!(v, bytes, BNoCrc, BNoCrcReferred),
        Blk::Big(..) | Blk::BigRaw(..) => typed!(v, bytes, BBig, BBigReferred),
        Blk::Edge(..) => typed!(v, bytes, BEdge, BEdgeReferred),
        Blk::Unit => typed!(v, bytes, BUnit, BUnitReferred),
        Blk::Path(..) => typed!(v, bytes, BPath, BPathReferred, InnerBPath),
    }
    let one = |r: Result<Block, Error>| match r {
        Ok(v) => Out::Ok(Pkt::new(vec![Blk::of(&v)], None)),
        Err(e) => Out::Err(errname(&e)),
    };
    let ones = |r: Result<ReadStatus<Block>, Error>| match r {
        Ok(ReadStatus::Success(v)) => Out::Ok(Pkt::new(vec![Blk::of(&v)], None)),
        Ok(ReadStatus::NotEnoughData(n)) => Out::Need(n),
        Err(e) => Out::Err(errname(&e)),
    };
    let b = bytes;
    put(v, "Block ReadFrom", catch(|| { let mut c = Cursor::new(b); let o = one(<Block as ReadFrom>::read(&mut c)); (o, c.position() as usize) }));
    put(v, "Block ReadBlockFrom", catch(|| { let mut c = Cursor::new(b); let o = one(<Block as ReadBlockFrom>::read(&mut c, false)); (o, c.position() as usize) }));
    put(v, "Block TryReadFrom", catch(|| { let mut c = Cursor::new(b); let o = ones(<Block as TryReadFrom>::try_read(&mut c)); (o, c.position() as usize) }));
    put(v, "Block TryReadFromBuffered", catch(|| { let mut c = Cursor::new(b); let o = ones(<Block as TryReadFromBuffered>::try_read(&mut c)); (o, c.position() as usize) }));
    put(v, "BlockReferred", catch(|| (one(BlockReferred::read_from_slice(b, false).map(|r| r.into())), usize::MAX)));
    out
}

fn pl(r: Result<Payload, Error>) -> Out {
    match r {
        Ok(v) => Out::Ok(Pkt::new(vec![], Some(Pl::of(&v)))),
        Err(e) => Out::Err(errname(&e)),
    }
}
fn pls(r: Result<ReadStatus<Payload>, Error>) -> Out {
    match r {
        Ok(ReadStatus::Success(v)) => Out::Ok(Pkt::new(vec![], Some(Pl::of(&v)))),
        Ok(ReadStatus::NotEnoughData(n)) => Out::Need(n),
        Err(e) => Out::Err(errname(&e)),
    }
}

/// payload with its header
pub fn payload_reads(b: &[u8]) -> Vec<Res> {
    let mut out = vec![];
    let v = &mut out;
    put(v, "payload stream", catch(|| {
        let mut c = Cursor::new(b);
        let o = match <PayloadHeader as ReadFrom>::read(&mut c) {
            Ok(h) => pl(<Payload as ExtractPayloadFrom<Payload>>::read(&mut c, &h)),
            Err(e) => Out::Err(errname(&e)),
        };
        (o, c.position() as usize)
    }));
    put(v, "payload bytewise stream", catch(|| {
        let mut c = Chunks::new(b, &[1]);
        let o = match <PayloadHeader as ReadFrom>::read(&mut c) {
            Ok(h) => pl(<Payload as ExtractPayloadFrom<Payload>>::read(&mut c, &h)),
            Err(e) => Out::Err(errname(&e)),
        };
        (o, c.pos)
    }));
    put(v, "payload seek", catch(|| {
        let mut c = Cursor::new(b);
        let o = match <PayloadHeader as TryReadFrom>::try_read(&mut c) {
            Ok(ReadStatus::Success(h)) => pls(<Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut c, &h)),
            Ok(ReadStatus::NotEnoughData(n)) => Out::Need(n),
            Err(e) => Out::Err(errname(&e)),
        };
        (o, c.position() as usize)
    }));
    put(v, "payload buffered", catch(|| {
        let mut c = Cursor::new(b);
        let o = match <PayloadHeader as TryReadFromBuffered>::try_read(&mut c) {
            Ok(ReadStatus::Success(h)) => {
                c.set_position(h.size() as u64);
                pls(<Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(&mut c, &h))
            }
            Ok(ReadStatus::NotEnoughData(n)) => Out::Need(n),
            Err(e) => Out::Err(errname(&e)),
        };
        (o, c.position() as usize)
    }));
    out
}
