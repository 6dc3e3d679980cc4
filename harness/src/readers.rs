//! Every way of reading a packet, uniformly: bytes in, outcome and number of consumed bytes out.
use crate::model::*;
use crate::proto::*;
use crate::util::catch;
use brec::prelude::*;

use std::io::{BufRead, BufReader, Cursor, Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Ok(Pkt),
    Need(u64),
    Denied,
    NoData,
    Err(String),
    Panic(String),
}

pub fn errname(e: &brec::Error) -> String {
    match e {
        Error::Io(e) => format!("Io({:?})", e.kind()),
        e => format!("{e:?}"),
    }
}

/// A source that hands out the data in pieces of given sizes (cycled), like a socket or a pipe.
pub struct Chunks<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sizes: &'a [usize],
    pub i: usize,
    /// absolute positions at which a read never crosses
    pub cuts: &'a [usize],
}
impl<'a> Chunks<'a> {
    pub fn new(data: &'a [u8], sizes: &'a [usize]) -> Self {
        Chunks { data, pos: 0, sizes, i: 0, cuts: &[] }
    }
    pub fn cut(data: &'a [u8], cuts: &'a [usize]) -> Self {
        Chunks { data, pos: 0, sizes: &[], i: 0, cuts }
    }
}
impl Read for Chunks<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = (self.data.len() - self.pos).min(buf.len());
        if !self.sizes.is_empty() {
            n = n.min(self.sizes[self.i % self.sizes.len()]);
            self.i += 1;
        }
        for &c in self.cuts {
            if c > self.pos && c < self.pos + n {
                n = c - self.pos;
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn res(r: Result<Packet, Error>) -> Out {
    match r {
        Ok(p) => Out::Ok(Pkt::of(&p)),
        Err(e) => Out::Err(errname(&e)),
    }
}
fn st(r: Result<ReadStatus<Packet>, Error>) -> Out {
    match r {
        Ok(ReadStatus::Success(p)) => Out::Ok(Pkt::of(&p)),
        Ok(ReadStatus::NotEnoughData(n)) => Out::Need(n),
        Err(e) => Out::Err(errname(&e)),
    }
}

pub fn read_plain(b: &[u8]) -> (Out, usize) {
    let mut c = Cursor::new(b);
    let o = res(<Packet as ReadFrom>::read(&mut c));
    (o, c.position() as usize)
}
pub fn read_bytewise(b: &[u8]) -> (Out, usize) {
    let mut c = Chunks::new(b, &[1]);
    let o = res(<Packet as ReadFrom>::read(&mut c));
    (o, c.pos)
}
pub fn try_seek(b: &[u8]) -> (Out, usize) {
    let mut c = Cursor::new(b);
    let o = st(<Packet as TryReadFrom>::try_read(&mut c));
    (o, c.position() as usize)
}
pub fn try_seek_at(b: &[u8]) -> (Out, usize) {
    let mut v = vec![0x11u8; 37];
    v.extend(b);
    let mut c = Cursor::new(v);
    c.set_position(37);
    let o = st(<Packet as TryReadFrom>::try_read(&mut c));
    (o, (c.position() as usize).wrapping_sub(37))
}
pub fn try_buf(b: &[u8]) -> (Out, usize) {
    let mut c = Cursor::new(b);
    let o = st(<Packet as TryReadFromBuffered>::try_read(&mut c));
    (o, c.position() as usize)
}
pub fn try_buf_slice(b: &[u8]) -> (Out, usize) {
    let mut s = b;
    let o = st(<Packet as TryReadFromBuffered>::try_read(&mut s));
    (o, b.len() - s.len())
}
pub fn try_bufreader(b: &[u8]) -> (Out, usize) {
    let mut r = BufReader::with_capacity(b.len().max(1), b);
    let o = st(<Packet as TryReadFromBuffered>::try_read(&mut r));
    let mut rest = vec![];
    r.read_to_end(&mut rest).unwrap();
    (o, b.len() - rest.len())
}
pub fn try_buffered(b: &[u8]) -> (Out, usize) {
    let mut c = Cursor::new(b);
    let mut r = BufferedReader::new(&mut c);
    let o = st(<Packet as TryReadFromBuffered>::try_read(&mut r));
    let n = r.consumed();
    (o, n)
}
pub fn try_buffered_refilled(b: &[u8]) -> (Out, usize) {
    let cut = [b.len() / 2];
    let mut i = BufReader::with_capacity(b.len().max(1), Chunks::cut(b, &cut));
    let mut r = BufferedReader::new(&mut i);
    let _ = r.refill();
    let o = st(<Packet as TryReadFromBuffered>::try_read(&mut r));
    let n = r.consumed();
    (o, n)
}
pub fn filtered(b: &[u8]) -> (Out, usize) {
    let mut c = Cursor::new(b);
    let rules: Rules = Rules::default();
    let o = match Packet::filtered(&mut c, &rules) {
        Ok(LookInStatus::Accepted(_, p)) => Out::Ok(Pkt::of(&p)),
        Ok(LookInStatus::Denied(_)) => Out::Denied,
        Ok(LookInStatus::NotEnoughData(n)) => Out::Need(n as u64),
        Err(e) => Out::Err(errname(&e)),
    };
    (o, c.position() as usize)
}

// ---- the stream extractor

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Found(Pkt),
    Skipped,
    NotFound,
    Need(usize),
    NoData,
    Err(String),
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Trace {
    pub evs: Vec<Ev>,
    pub ignored: Vec<u8>,
    pub calls: usize,
    pub ended: bool,
    /// everything after the first NoData (3 more calls): must all be NoData
    pub restless: bool,
}
impl Trace {
    pub fn found(&self) -> Vec<&Pkt> {
        self.evs
            .iter()
            .filter_map(|e| if let Ev::Found(p) = e { Some(p) } else { None })
            .collect()
    }
    pub fn errors(&self) -> usize {
        self.evs.iter().filter(|e| matches!(e, Ev::Err(_))).count()
    }
}

/// Reads until NoData (or `max` calls); NotFound / Need events are recorded too.
pub fn extract<R: Read>(src: &mut R, max: usize) -> Trace {
    extract_with(src, max, |_| {})
}

pub fn extract_with<'a, R: Read>(
    src: &'a mut R,
    max: usize,
    setup: impl FnOnce(&mut PacketBufReader<'a, R>),
) -> Trace {
    let ignored = Arc::new(Mutex::new(Vec::new()));
    let ig = ignored.clone();
    let mut t = Trace::default();
    {
        let mut r: PacketBufReader<R> = PacketBufReader::new(src);
        r.add_rule(Rule::Ignored(brec::RuleFnDef::Dynamic(Box::new(move |b: &[u8]| {
            ig.lock().unwrap().extend_from_slice(b);
        }))))
        .unwrap();
        setup(&mut r);
        while t.calls < max {
            t.calls += 1;
            match r.read() {
                Ok(NextPacket::Found(p)) => t.evs.push(Ev::Found(Pkt::of(&p))),
                Ok(NextPacket::Skipped) => t.evs.push(Ev::Skipped),
                Ok(NextPacket::NotFound) => t.evs.push(Ev::NotFound),
                Ok(NextPacket::NotEnoughData(n)) => t.evs.push(Ev::Need(n)),
                Ok(NextPacket::NoData) => {
                    t.evs.push(Ev::NoData);
                    t.ended = true;
                    for _ in 0..3 {
                        if !matches!(r.read(), Ok(NextPacket::NoData)) {
                            t.restless = true;
                        }
                    }
                    break;
                }
                Err(e) => t.evs.push(Ev::Err(errname(&e))),
            }
        }
    }
    t.ignored = std::mem::take(&mut *ignored.lock().unwrap());
    t
}

fn ext_out(t: Trace, _len: usize) -> (Out, usize) {
    for e in &t.evs {
        match e {
            Ev::Found(p) => return (Out::Ok(p.clone()), usize::MAX),
            Ev::Err(e) => return (Out::Err(e.clone()), usize::MAX),
            Ev::NoData => return (Out::NoData, usize::MAX),
            _ => {}
        }
    }
    (Out::NoData, usize::MAX)
}
pub fn extractor(b: &[u8]) -> (Out, usize) {
    ext_out(extract(&mut Cursor::new(b), b.len() + 8), b.len())
}
pub fn extractor_bytewise(b: &[u8]) -> (Out, usize) {
    ext_out(extract(&mut Chunks::new(b, &[1]), 4 * b.len() + 8), b.len())
}

// ---- piece by piece

pub fn pieces_slice(b: &[u8]) -> (Out, usize) {
    let f = || -> Result<(Pkt, usize), Error> {
        let h = PacketHeader::read_from_slice(b, false)?;
        let mut pos = PacketHeader::ssize() as usize;
        let mut p = Pkt::default();
        let end = pos.saturating_add(h.blocks_len as usize);
        while pos < end {
            if pos > b.len() {
                return Err(Error::NotEnoughData(0));
            }
            let r = BlockReferred::read_from_slice(&b[pos..], false)?;
            let viewed = Blk::of_ref(&r);
            pos += r.size() as usize;
            let blk: Block = r.into();
            let owned = Blk::of(&blk);
            if owned != viewed {
                panic!("zero-copy block differs from the owned one: {viewed:?} / {owned:?}");
            }
            p.blocks.push(owned);
        }
        if h.payload {
            let mut s = b.get(pos..).ok_or(Error::NotEnoughData(0))?;
            match <PayloadHeader as TryReadFromBuffered>::try_read(&mut s)? {
                ReadStatus::Success(ph) => {
                    pos += ph.size();
                    let mut s = &b[pos..];
                    match <Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(&mut s, &ph)? {
                        ReadStatus::Success(pl) => {
                            p.payload = Some(Pl::of(&pl));
                            pos += ph.payload_len();
                        }
                        ReadStatus::NotEnoughData(n) => return Err(Error::NotEnoughData(n as usize)),
                    }
                }
                ReadStatus::NotEnoughData(n) => return Err(Error::NotEnoughData(n as usize)),
            }
        }
        Ok((p, pos))
    };
    match f() {
        Ok((p, n)) => (Out::Ok(p), n),
        Err(e) => (Out::Err(errname(&e)), usize::MAX),
    }
}

pub fn pieces_stream(b: &[u8]) -> (Out, usize) {
    let mut c = Chunks::new(b, &[3, 1, 2]);
    let f = |c: &mut Chunks| -> Result<Pkt, Error> {
        let h = <PacketHeader as ReadFrom>::read(c)?;
        let mut p = Pkt::default();
        let end = c.pos.saturating_add(h.blocks_len as usize);
        let mut alt = false;
        while c.pos < end {
            let blk = if alt {
                <Block as ReadBlockFrom>::read(c, false)?
            } else {
                <Block as ReadFrom>::read(c)?
            };
            alt = !alt;
            p.blocks.push(Blk::of(&blk));
        }
        if h.payload {
            let ph = <PayloadHeader as ReadFrom>::read(c)?;
            let pl = <Payload as ExtractPayloadFrom<Payload>>::read(c, &ph)?;
            p.payload = Some(Pl::of(&pl));
        }
        Ok(p)
    };
    let o = match f(&mut c) {
        Ok(p) => Out::Ok(p),
        Err(e) => Out::Err(errname(&e)),
    };
    (o, c.pos)
}

pub fn pieces_seek(b: &[u8]) -> (Out, usize) {
    let mut c = Cursor::new(b);
    fn ok<T>(r: ReadStatus<T>) -> Result<T, Error> {
        match r {
            ReadStatus::Success(v) => Ok(v),
            ReadStatus::NotEnoughData(n) => Err(Error::NotEnoughData(n as usize)),
        }
    }
    let f = |c: &mut Cursor<&[u8]>| -> Result<Pkt, Error> {
        let h = ok(<PacketHeader as TryReadFrom>::try_read(c)?)?;
        let mut p = Pkt::default();
        let end = c.position().saturating_add(h.blocks_len);
        while c.position() < end {
            p.blocks.push(Blk::of(&ok(<Block as TryReadFrom>::try_read(c)?)?));
        }
        if h.payload {
            let ph = ok(<PayloadHeader as TryReadFrom>::try_read(c)?)?;
            let pl = ok(<Payload as TryExtractPayloadFrom<Payload>>::try_read(c, &ph)?)?;
            p.payload = Some(Pl::of(&pl));
        }
        Ok(p)
    };
    let o = match f(&mut c) {
        Ok(p) => Out::Ok(p),
        Err(e) => Out::Err(errname(&e)),
    };
    (o, c.position() as usize)
}

pub fn pieces_buffered(b: &[u8]) -> (Out, usize) {
    let mut c = Cursor::new(b);
    fn ok<T>(r: ReadStatus<T>) -> Result<T, Error> {
        match r {
            ReadStatus::Success(v) => Ok(v),
            ReadStatus::NotEnoughData(n) => Err(Error::NotEnoughData(n as usize)),
        }
    }
    let f = |c: &mut Cursor<&[u8]>| -> Result<Pkt, Error> {
        let h = ok(<PacketHeader as TryReadFromBuffered>::try_read(c)?)?;
        let mut p = Pkt::default();
        let end = c.position().saturating_add(h.blocks_len);
        while c.position() < end {
            p.blocks.push(Blk::of(&ok(<Block as TryReadFromBuffered>::try_read(c)?)?));
        }
        if h.payload {
            // documented: peeks, does not consume
            let ph = ok(<PayloadHeader as TryReadFromBuffered>::try_read(c)?)?;
            c.consume(ph.size());
            let pl = ok(<Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(c, &ph)?)?;
            p.payload = Some(Pl::of(&pl));
        }
        Ok(p)
    };
    let o = match f(&mut c) {
        Ok(p) => Out::Ok(p),
        Err(e) => Out::Err(errname(&e)),
    };
    (o, c.position() as usize)
}

pub type Path = (&'static str, fn(&[u8]) -> (Out, usize));

/// whole-packet readers
pub const WHOLE: &[Path] = &[
    ("ReadFrom", read_plain),
    ("ReadFrom/1-byte", read_bytewise),
    ("TryReadFrom", try_seek),
    ("TryReadFrom/offset", try_seek_at),
    ("TryReadFromBuffered/cursor", try_buf),
    ("TryReadFromBuffered/slice", try_buf_slice),
    ("TryReadFromBuffered/BufReader", try_bufreader),
    ("TryReadFromBuffered/BufferedReader", try_buffered),
    ("TryReadFromBuffered/BufferedReader+refill", try_buffered_refilled),
    ("Packet::filtered", filtered),
    ("PacketBufReader", extractor),
    ("PacketBufReader/1-byte", extractor_bytewise),
];
/// assembling a packet from separately read parts
pub const PIECES: &[Path] = &[
    ("pieces/slice", pieces_slice),
    ("pieces/stream", pieces_stream),
    ("pieces/seek", pieces_seek),
    ("pieces/buffered", pieces_buffered),
];

pub fn all_paths() -> Vec<Path> {
    WHOLE.iter().chain(PIECES.iter()).copied().collect()
}

pub fn run(p: Path, b: &[u8]) -> (Out, usize) {
    match catch(|| p.1(b)) {
        Ok(r) => r,
        Err(e) => (Out::Panic(e), usize::MAX),
    }
}

#[allow(dead_code)]
pub fn position<S: Seek>(s: &mut S) -> u64 {
    s.seek(SeekFrom::Current(0)).unwrap()
}
