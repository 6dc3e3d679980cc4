use crate::util::{catch, hex, par, Ctx};
use brec::prelude::*;
use std::io::{BufReader, Cursor, Read, Seek};

include!("crc.rs");

pub fn own_crc(b: &[u8]) -> [u8; 8] {
    let c = crc32(b);
    let mut o = [0; 8];
    o[..4].copy_from_slice(&(!c).to_le_bytes());
    o[4..].copy_from_slice(&c.to_be_bytes());
    o
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Zero = 0,
    One = 1,
    Max = 255,
}
impl TryFrom<u8> for Kind {
    type Error = String;
    fn try_from(v: u8) -> Result<Self, String> {
        match v {
            0 => Ok(Kind::Zero),
            1 => Ok(Kind::One),
            255 => Ok(Kind::Max),
            n => Err(format!("bad kind {n}")),
        }
    }
}
impl From<&Kind> for u8 {
    fn from(k: &Kind) -> u8 {
        *k as u8
    }
}

/// what a field holds: width in bytes and which bytes are possible
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FK {
    Num(usize),
    Float(usize),
    Bool,
    Kind,
    Blob(usize),
}

pub trait Fv {
    const KIND: FK;
    fn from_le(b: &[u8]) -> Self;
    fn get_le(&self) -> Vec<u8>;
}
macro_rules! num {
    ($k:ident $($t:ty)*) => { $(impl Fv for $t {
        const KIND: FK = FK::$k(std::mem::size_of::<$t>());
        fn from_le(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
        fn get_le(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
    })* };
}
num!(Num u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
num!(Float f32 f64);
impl Fv for bool {
    const KIND: FK = FK::Bool;
    fn from_le(b: &[u8]) -> Self {
        b[0] == 1
    }
    fn get_le(&self) -> Vec<u8> {
        vec![*self as u8]
    }
}
impl Fv for Kind {
    const KIND: FK = FK::Kind;
    fn from_le(b: &[u8]) -> Self {
        Kind::try_from(b[0]).unwrap()
    }
    fn get_le(&self) -> Vec<u8> {
        vec![*self as u8]
    }
}
impl<const N: usize> Fv for [u8; N] {
    const KIND: FK = FK::Blob(N);
    fn from_le(b: &[u8]) -> Self {
        b.try_into().unwrap()
    }
    fn get_le(&self) -> Vec<u8> {
        self.to_vec()
    }
}

fn width(k: FK) -> usize {
    match k {
        FK::Num(n) | FK::Float(n) | FK::Blob(n) => n,
        FK::Bool | FK::Kind => 1,
    }
}
/// values of a field; `salt` makes neighbours differ
fn values(k: FK, salt: u8, few: bool) -> Vec<Vec<u8>> {
    let n = width(k);
    let count = |s: u8| (0..n).map(|i| s.wrapping_add(i as u8).wrapping_mul(37) ^ 0x5b).collect::<Vec<u8>>();
    let mut v = match k {
        FK::Num(_) => {
            let mut top = vec![0; n];
            top[n - 1] = 0x80;
            let mut one = vec![0; n];
            one[0] = 1;
            vec![count(salt), vec![0xff; n], vec![0; n], top, one]
        }
        FK::Float(4) => [1.5f32, -0.0, f32::INFINITY, f32::from_bits(0x7fc1_2345), f32::MIN_POSITIVE].iter().map(|f| f.to_le_bytes().to_vec()).collect(),
        FK::Float(_) => [1.5f64, -0.0, f64::INFINITY, f64::from_bits(0x7ff8_1234_5678_9abc), f64::MIN_POSITIVE].iter().map(|f| f.to_le_bytes().to_vec()).collect(),
        FK::Bool => vec![vec![1], vec![0]],
        FK::Kind => vec![vec![255], vec![1], vec![0]],
        FK::Blob(0) => vec![vec![]],
        FK::Blob(_) => vec![count(salt), vec![0xff; n], vec![0; n]],
    };
    if few {
        v.truncate(2);
    }
    v
}

pub trait Def:
    Sized + ReadBlockFrom + TryReadFrom + TryReadFromBuffered + WriteTo + WriteVectoredTo + StaticSize + CrcU32
{
    const SNAP: &'static str;
    const CRC: bool;
    const KINDS: &'static [FK];
    fn make(v: &[Vec<u8>]) -> Self;
    fn get(&self) -> Vec<Vec<u8>>;
    fn wrap(self) -> Block;
    fn unwrap(b: &Block) -> Option<&Self>;
    fn slice(b: &[u8], skip: bool) -> Result<Self, Error>;
}

struct Bytewise<'a>(&'a [u8], usize);
impl Read for Bytewise<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() || self.1 == self.0.len() {
            return Ok(0);
        }
        b[0] = self.0[self.1];
        self.1 += 1;
        Ok(1)
    }
}

type Got = Result<Option<Vec<Vec<u8>>>, String>;
fn r<T: Def>(r: Result<T, Error>) -> Got {
    r.map(|b| Some(b.get())).map_err(|e| format!("{e:?}"))
}
fn s<T: Def>(r: Result<ReadStatus<T>, Error>) -> Got {
    match r {
        Ok(ReadStatus::Success(b)) => Ok(Some(b.get())),
        Ok(ReadStatus::NotEnoughData(_)) => Ok(None),
        Err(e) => Err(format!("{e:?}")),
    }
}
fn rb<T: Def>(r: Result<Block, Error>) -> Got {
    r.map_err(|e| format!("{e:?}")).and_then(|b| T::unwrap(&b).map(|b| Some(b.get())).ok_or("another block".to_string()))
}
fn sb<T: Def>(r: Result<ReadStatus<Block>, Error>) -> Got {
    match r {
        Ok(ReadStatus::Success(b)) => rb::<T>(Ok(b)),
        Ok(ReadStatus::NotEnoughData(_)) => Ok(None),
        Err(e) => Err(format!("{e:?}")),
    }
}

/// all readers: (name, outcome, consumed bytes where it is meaningful)
fn reads<T: Def>(b: &[u8]) -> Vec<(&'static str, Result<(Got, Option<usize>), String>)> {
    let tail = b.get(4..).unwrap_or(&[]);
    let mut shifted = vec![0xa5; 7];
    shifted.extend(b);
    vec![
        ("read", catch(|| { let mut c = Cursor::new(b); let o = r::<T>(<T as ReadBlockFrom>::read(&mut c, false)); (o, Some(c.position() as usize)) })),
        ("read without signature", catch(|| { let mut c = Cursor::new(tail); let o = r::<T>(<T as ReadBlockFrom>::read(&mut c, true)); (o, Some(c.position() as usize + 4)) })),
        ("read byte by byte", catch(|| { let mut c = Bytewise(b, 0); let o = r::<T>(<T as ReadBlockFrom>::read(&mut c, false)); (o, Some(c.1)) })),
        ("try_read", catch(|| { let mut c = Cursor::new(&shifted); c.set_position(7); let o = s::<T>(<T as TryReadFrom>::try_read(&mut c)); (o, Some(c.stream_position().unwrap() as usize - 7)) })),
        ("buffered try_read", catch(|| { let mut c = BufReader::with_capacity(b.len().max(1), b); let o = s::<T>(<T as TryReadFromBuffered>::try_read(&mut c)); let mut rest = vec![]; c.read_to_end(&mut rest).unwrap(); (o, Some(b.len() - rest.len())) })),
        ("slice", catch(|| (r::<T>(T::slice(b, false)), None))),
        ("slice without signature", catch(|| (r::<T>(T::slice(tail, true)), None))),
        ("Block read", catch(|| { let mut c = Cursor::new(b); let o = rb::<T>(<Block as ReadFrom>::read(&mut c)); (o, Some(c.position() as usize)) })),
        ("Block read with signature", catch(|| { let mut c = Cursor::new(b); let o = rb::<T>(<Block as ReadBlockFrom>::read(&mut c, false)); (o, Some(c.position() as usize)) })),
        ("Block try_read", catch(|| { let mut c = Cursor::new(&shifted); c.set_position(7); let o = sb::<T>(<Block as TryReadFrom>::try_read(&mut c)); (o, Some(c.stream_position().unwrap() as usize - 7)) })),
        ("Block buffered try_read", catch(|| { let mut c = BufReader::with_capacity(b.len().max(1), b); let o = sb::<T>(<Block as TryReadFromBuffered>::try_read(&mut c)); let mut rest = vec![]; c.read_to_end(&mut rest).unwrap(); (o, Some(b.len() - rest.len())) })),
        ("BlockReferred slice", catch(|| (rb::<T>(<BlockReferred as ReadBlockFromSlice>::read_from_slice(b, false).map(|x| x.into())), None))),
    ]
}

pub fn encode<T: Def>(v: &[Vec<u8>]) -> Vec<u8> {
    let body: Vec<u8> = v.concat();
    let mut e = crc32(T::SNAP.as_bytes()).to_le_bytes().to_vec();
    e.extend(&body);
    e.extend(if T::CRC { crc32(&body).to_le_bytes() } else { [0; 4] });
    e
}

fn product(doms: &[Vec<Vec<u8>>]) -> Vec<Vec<Vec<u8>>> {
    let total: usize = doms.iter().map(|d| d.len()).fold(1usize, |a, b| a.saturating_mul(b));
    if total <= 256 {
        let mut out: Vec<Vec<Vec<u8>>> = vec![vec![]];
        for d in doms {
            out = out.iter().flat_map(|p| d.iter().map(move |x| { let mut p = p.clone(); p.push(x.clone()); p })).collect();
        }
        return out;
    }
    // long definitions: every value of every field, the others at their first value
    let base: Vec<Vec<u8>> = doms.iter().map(|d| d[0].clone()).collect();
    let mut out = vec![base.clone()];
    for (i, d) in doms.iter().enumerate() {
        for x in &d[1..] {
            let mut p = base.clone();
            p[i] = x.clone();
            out.push(p);
        }
    }
    out
}

pub fn check<T: Def>(ctx: &Ctx) {
    crate::util::case(T::SNAP);
    let thorough = ctx.thorough;
    let long = T::KINDS.len() > 8;
    let doms: Vec<_> = T::KINDS.iter().enumerate().map(|(i, k)| values(*k, (i as u8).wrapping_mul(16).wrapping_add(1), long || (!thorough && T::KINDS.len() > 2))).collect();
    let bad = |what: String, v: &[Vec<u8>], e: &[u8]| {
        ctx.violation(format!("{what}\ndefinition {}\nfields {}\nencoding {}", T::SNAP, v.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" "), hex(e)))
    };
    for (n, v) in product(&doms).iter().enumerate() {
        if ctx.stopped() {
            return;
        }
        crate::util::tick();
        let e = encode::<T>(v);
        ctx.st(1);
        let blk = T::make(v);
        if blk.get() != *v {
            bad("a made block differs: the check is wrong".into(), v, &e);
            return;
        }
        if T::ssize() != e.len() as u64 {
            bad(format!("size is said to be {}", T::ssize()), v, &e);
        }
        let mut w = vec![];
        if blk.write_all(&mut w).is_err() || w != e {
            bad(format!("write_all gives {}", hex(&w)), v, &e);
        }
        let mut w = vec![];
        if blk.write(&mut w).ok() != Some(e.len()) || w != e {
            bad(format!("write gives {}", hex(&w)), v, &e);
        }
        let mut w = vec![];
        if blk.write_vectored_all(&mut w).is_err() || w != e {
            bad(format!("write_vectored_all gives {}", hex(&w)), v, &e);
        }
        ctx.tr(3);
        // together with foreign bytes after it
        let mut long = e.clone();
        long.extend([0x77; 9]);
        for (src, name) in [(&e, "alone"), (&long, "with more data after it")] {
            for (rd, o) in reads::<T>(src) {
                ctx.tr(1);
                match o {
                    Err(p) => bad(format!("{rd}, {name}: PANIC {p}"), v, &e),
                    Ok((Ok(Some(g)), used)) if g == *v && used.is_none_or(|u| u == e.len()) => {}
                    Ok((o, used)) => bad(format!("{rd}, {name}: {o:?}, consumed {used:?}"), v, &e),
                }
            }
            ctx.trace(1);
        }
        // through a packet
        let blocks = vec![blk.wrap()];
        if Size::size(&blocks[0]) != e.len() as u64 {
            bad(format!("the block says its size is {}", Size::size(&blocks[0])), v, &e);
        }
        let mut pkt = Packet::new(blocks, None);
        let mut w = vec![];
        if let Err(err) = WriteMutTo::write_all(&mut pkt, &mut w) {
            bad(format!("writing a packet: {err}"), v, &e);
            continue;
        }
        if w.len() != 29 + e.len() || w[29..] != e[..] {
            bad(format!("packet is {}", hex(&w)), v, &e);
        }
        let mut c = Cursor::new(&w);
        let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut c);
        match rd.read() {
            Ok(NextPacket::Found(p)) if p.blocks.len() == 1 && T::unwrap(&p.blocks[0]).map(|b| b.get()) == Some(v.clone()) && p.payload.is_none() => {}
            Ok(NextPacket::Found(_)) => bad("stream extractor: another packet".into(), v, &e),
            Ok(_) => bad("stream extractor: no packet".into(), v, &e),
            Err(err) => bad(format!("stream extractor: {err:?}"), v, &e),
        }
        ctx.trace(1);
        // damaged and incomplete input: the first values and, if thorough, all
        if n > 0 && !thorough {
            continue;
        }
        let step = if e.len() > 600 { 97 } else { 1 };
        for cut in (0..e.len()).step_by(step) {
            for (rd, o) in reads::<T>(&e[..cut]) {
                ctx.tr(1);
                match o {
                    Err(p) => bad(format!("{rd}, first {cut} bytes: PANIC {p}"), v, &e),
                    Ok((Ok(Some(_)), _)) if cut < 4 && rd.contains("without") && e.len() == 4 => {}
                    Ok((Ok(Some(_)), _)) => bad(format!("{rd} accepts the first {cut} bytes"), v, &e),
                    Ok((Ok(None), used)) if rd.ends_with(" try_read") && rd.contains("buffered") => { let _ = used; }
                    Ok((Ok(None), used)) if rd.ends_with("try_read") && used != Some(0) => bad(format!("{rd}, first {cut} bytes: not enough data, but {used:?} are consumed"), v, &e),
                    Ok(_) => {}
                }
            }
        }
        for at in (0..e.len()).step_by(step) {
            for bit in 0..8 {
                let mut d = e.clone();
                d[at] ^= 1 << bit;
                for (rd, o) in reads::<T>(&d) {
                    ctx.tr(1);
                    if at < 4 && (rd.contains("without")) {
                        continue;
                    }
                    match o {
                        Err(p) => bad(format!("{rd}, byte {at} ^ {:#x}: PANIC {p}", 1 << bit), v, &e),
                        Ok((Ok(Some(g)), _)) if T::CRC && g != *v => bad(format!("{rd}, byte {at} ^ {:#x}: accepted as {}", 1 << bit, g.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" ")), v, &e),
                        _ => {}
                    }
                }
            }
        }
    }
}

/// what a reader made of data of another definition: (reader, accepted, it was another type, consumed bytes)
pub type Saw = (&'static str, bool, bool, Option<usize>);
/// an encoding, followed by more data than any definition needs
pub fn sample<T: Def>() -> Vec<u8> {
    let v: Vec<Vec<u8>> = T::KINDS.iter().enumerate().map(|(i, k)| values(*k, i as u8, false)[0].clone()).collect();
    let mut e = encode::<T>(&v);
    e.extend([0; 40]);
    e
}
pub fn saw<T: Def>(b: &[u8]) -> Vec<Saw> {
    fn o<X>(r: &Result<X, Error>) -> (bool, bool) {
        (r.is_ok(), matches!(r, Err(Error::SignatureDismatch)))
    }
    fn t<X>(r: &Result<ReadStatus<X>, Error>) -> (bool, bool) {
        (!matches!(r, Err(_) | Ok(ReadStatus::NotEnoughData(_))), matches!(r, Err(Error::SignatureDismatch)))
    }
    let mut c = Cursor::new(b);
    let x = o(&<T as ReadBlockFrom>::read(&mut c, false));
    let mut d = Cursor::new(b);
    let y = t(&<T as TryReadFrom>::try_read(&mut d));
    let mut r = BufReader::with_capacity(b.len(), b);
    let z = t(&<T as TryReadFromBuffered>::try_read(&mut r));
    let s = o(&T::slice(b, false));
    vec![
        ("read", x.0, x.1, None),
        ("try_read", y.0, y.1, Some(d.position() as usize)),
        ("buffered try_read", z.0, z.1, Some(b.len() - r.buffer().len())),
        ("slice", s.0, s.1, None),
    ]
}

pub struct PlDef {
    pub name: &'static str,
    pub body: &'static [u8],
    pub crc: bool,
    pub sig: fn() -> Vec<u8>,
    pub sum: fn(&[u8]) -> Vec<u8>,
    pub make: fn() -> Payload,
    pub is: fn(&Payload) -> bool,
}

fn packet_reads(b: &[u8]) -> Vec<(&'static str, Result<Result<Option<Packet>, String>, String>)> {
    let st = |r: Result<ReadStatus<Packet>, Error>| match r {
        Ok(ReadStatus::Success(p)) => Ok(Some(p)),
        Ok(ReadStatus::NotEnoughData(_)) => Ok(None),
        Err(e) => Err(format!("{e:?}")),
    };
    vec![
        ("read", catch(|| <Packet as ReadFrom>::read(&mut Cursor::new(b)).map(Some).map_err(|e| format!("{e:?}")))),
        ("try_read", catch(|| st(<Packet as TryReadFrom>::try_read(&mut Cursor::new(b))))),
        ("buffered try_read", catch(|| st(<Packet as TryReadFromBuffered>::try_read(&mut Cursor::new(b))))),
        ("stream extractor", catch(|| {
            let mut c = Cursor::new(b);
            let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut c);
            match rd.read() {
                Ok(NextPacket::Found(p)) => Ok(Some(p)),
                Ok(_) => Ok(None),
                Err(e) => Err(format!("{e:?}")),
            }
        })),
    ]
}

fn check_payload(ctx: &Ctx, d: &PlDef) {
    crate::util::case(d.name);
    let (sig, sum) = ((d.sig)(), (d.sum)(d.body));
    let mut e = vec![sig.len() as u8];
    e.extend(&sig);
    e.push(sum.len() as u8);
    e.extend(&sum);
    e.extend((d.body.len() as u32).to_le_bytes());
    e.extend(d.body);
    let bad = |what: String| ctx.violation(format!("{what}\npayload {}\nencoding {}", d.name, hex(&e)));
    ctx.st(1);
    let mut w = vec![];
    match WriteMutTo::write_all(&mut Packet::new(vec![], Some((d.make)())), &mut w) {
        Ok(()) if w[29..] == e[..] => {}
        r => return bad(format!("write_all: {r:?}, packet is {}", hex(&w))),
    }
    let mut x = vec![];
    match WriteVectoredMutTo::write_vectored_all(&mut Packet::new(vec![], Some((d.make)())), &mut x) {
        Ok(()) if x == w => {}
        r => return bad(format!("write_vectored_all: {r:?}, packet is {}", hex(&x))),
    }
    for (rd, o) in packet_reads(&w) {
        ctx.tr(1);
        match o {
            Ok(Ok(Some(p))) if p.blocks.is_empty() && p.payload.as_ref().is_some_and(|p| (d.is)(p)) => {}
            Ok(Ok(Some(_))) => bad(format!("{rd}: another content")),
            Ok(Ok(None)) => bad(format!("{rd}: nothing found")),
            Ok(Err(err)) => bad(format!("{rd}: {err}")),
            Err(p) => bad(format!("{rd}: PANIC {p}")),
        }
        ctx.trace(1);
    }
    for at in 29..w.len() {
        for bit in 0..8 {
            let mut y = w.clone();
            y[at] ^= 1 << bit;
            for (rd, o) in packet_reads(&y) {
                ctx.tr(1);
                match o {
                    Err(p) => bad(format!("{rd}, byte {at} ^ {:#x}: PANIC {p}", 1 << bit)),
                    Ok(Ok(Some(p))) if d.crc => {
                        if !p.payload.as_ref().is_some_and(|p| (d.is)(p)) {
                            bad(format!("{rd}, byte {at} ^ {:#x}: accepted as another content", 1 << bit));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
}

include!(concat!(env!("OUT_DIR"), "/defs.rs"));

pub fn run(ctx: &Ctx) {
    ctx.assume("definitions are enumerated up to the listed bounds: all pairs and, over five representative types, all triples of field types");
    par(ctx, CHECKS.len(), |i| {
        CHECKS[i](ctx);
        ctx.group("block definitions", 1);
    });
    par(ctx, PAYLOADS.len(), |i| {
        check_payload(ctx, &PAYLOADS[i]);
        ctx.group("payload definitions", 1);
    });
    for (name, f) in [
        ("only_blocks", only_blocks::check as fn() -> (u64, Vec<String>)),
        ("only_default", only_default::check),
        ("only_own", only_own::check),
        ("single", single::check),
    ] {
        match catch(f) {
            Ok((n, v)) => {
                ctx.st(n);
                ctx.trace(n);
                ctx.group("protocols", 1);
                for x in v {
                    ctx.violation(format!("protocol {name}: {x}"));
                }
            }
            Err(p) => ctx.violation(format!("protocol {name}: PANIC {p}")),
        }
    }
}
