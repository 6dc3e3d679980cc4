//! P05 incomplete input: reported as such, nothing consumed, completing makes the same call succeed.
use crate::dom::*;
use crate::model::*;
use crate::proto::inner::BPath;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::util::*;
use brec::prelude::*;
use std::io::{BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write};

fn st<T>(r: Result<ReadStatus<T>, Error>, f: impl FnOnce(T) -> Pkt) -> Out {
    match r {
        Ok(ReadStatus::Success(v)) => Out::Ok(f(v)),
        Ok(ReadStatus::NotEnoughData(n)) => Out::Need(n),
        Err(e) => Out::Err(errname(&e)),
    }
}

/// A seekable file-like source that hands out bytes a few at a time and can grow.
pub struct Slow {
    pub data: Vec<u8>,
    pub pos: u64,
    pub step: usize,
}
impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let p = (self.pos as usize).min(self.data.len());
        let n = (self.data.len() - p).min(buf.len()).min(self.step);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Slow {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let n = match s {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(d) => self.data.len() as i64 + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if n < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

type SeekRead = (&'static str, Box<dyn Fn(&mut Slow) -> Out + Sync>);

fn pk(p: Packet) -> Pkt {
    Pkt::of(&p)
}

macro_rules! blk_seek {
    ($ty:ident) => {
        blk_seek!($ty, $ty)
    };
    ($ty:ident, $var:ident) => {
        ("typed block TryReadFrom", Box::new(|s: &mut Slow| st(<$ty as TryReadFrom>::try_read(s), |b| Pkt::new(vec![Blk::of(&Block::$var(b))], None))) as Box<dyn Fn(&mut Slow) -> Out + Sync>)
    };
}

/// a packet header, identified by its re-encoding
fn hdr(h: PacketHeader) -> Pkt {
    let mut b = vec![];
    WriteTo::write_all(&h, &mut b).unwrap();
    Pkt::new(vec![], Some(Pl::Bytes(b)))
}
fn headers() -> Vec<Pkt> {
    let mut v = shapes();
    v.extend(counted(&[3, 255]));
    v
}

/// An object, its bytes and the seekable readers that apply to it.
fn seek_objects(thorough: bool) -> Vec<(String, Pkt, Vec<u8>, SeekRead)> {
    let mut v: Vec<(String, Pkt, Vec<u8>, SeekRead)> = vec![];
    let mut pkts = shapes();
    pkts.extend(packets(if thorough { 2 } else { 1 }));
    pkts.extend(counted(&[3, 9, 255]).into_iter().filter(|p| thorough || p.blocks.len() < 255));
    pkts.push(Pkt::new((0..255).map(Blk::Tiny).collect(), Some(Pl::Tiny(1))));
    for p in pkts {
        v.push((format!("{p:?}"), p.clone(), refc::packet(&p), ("Packet TryReadFrom", Box::new(|s: &mut Slow| st(<Packet as TryReadFrom>::try_read(s), pk)))));
    }
    for b in blocks_small() {
        let want = Pkt::new(vec![b.clone()], None);
        let bytes = refc::block(&b);
        v.push((format!("{b:?}"), want.clone(), bytes.clone(), ("Block TryReadFrom", Box::new(|s: &mut Slow| st(<Block as TryReadFrom>::try_read(s), |b| Pkt::new(vec![Blk::of(&b)], None))))));
        let r: SeekRead = match &b {
            Blk::Tiny(_) => blk_seek!(BTiny),
            Blk::Bool(..) => blk_seek!(BBool),
            Blk::Enum(_) => blk_seek!(BEnum),
            Blk::Blob(_) => blk_seek!(BBlob),
            Blk::Mix(..) => blk_seek!(BMix),
            Blk::All(_) => blk_seek!(BAll),
            Blk::NoCrc(_) => blk_seek!(BNoCrc),
            Blk::Edge(..) => blk_seek!(BEdge),
            Blk::Unit => blk_seek!(BUnit),
            Blk::Path(..) => blk_seek!(BPath, InnerBPath),
            _ => blk_seek!(BBig),
        };
        v.push((format!("{b:?}"), want, bytes, r));
    }
    for p in headers() {
        let h = refc::packet(&p)[..29].to_vec();
        let want = Pkt::new(vec![], Some(Pl::Bytes(h.clone())));
        v.push((format!("header of {p:?}"), want, h, ("PacketHeader TryReadFrom", Box::new(|s: &mut Slow| st(<PacketHeader as TryReadFrom>::try_read(s), hdr)))));
    }
    for p in payloads_small().into_iter().flatten().chain(payloads_full(false).into_iter().step_by(13).filter(|p| refc::payload(p).len() < 400)) {
        let h = refc::payload_header(&p);
        // the header, identified by its re-encoding
        let want = Pkt::new(vec![], Some(Pl::Bytes(h.clone())));
        v.push((format!("header of {p:?}"), want, h, ("PayloadHeader TryReadFrom", Box::new(|s: &mut Slow| st(<PayloadHeader as TryReadFrom>::try_read(s), |h| Pkt::new(vec![], Some(Pl::Bytes(h.as_vec()))))))));
        let body = refc::payload_body(&p);
        let hd = refc::payload_header(&p);
        let want = Pkt::new(vec![], Some(p.clone()));
        v.push((format!("body of {p:?}"), want, body, ("Payload TryExtractPayloadFrom", Box::new(move |s: &mut Slow| {
            let h = <PayloadHeader as ReadFrom>::read(&mut Cursor::new(&hd)).unwrap();
            st(<Payload as TryExtractPayloadFrom<Payload>>::try_read(s, &h), |p| Pkt::new(vec![], Some(Pl::of(&p))))
        }))));
    }
    v
}

fn seekable(ctx: &Ctx) {
    let objs = seek_objects(ctx.thorough);
    ctx.group("objects (seekable)", objs.len() as u64);
    par(ctx, objs.len(), |i| {
        let (name, want, bytes, (rd, f)) = &objs[i];
        let short: String = name.chars().take(300).collect();
        let n = bytes.len();
        let offs: &[usize] = if n < 400 { &[0, 1, 37] } else { &[0, 5] };
        for &off in offs {
            for step in [usize::MAX, 1, 7] {
                if step == 1 && n > 400 {
                    continue;
                }
                for k in 0..n {
                    if n > 1500 && !ctx.thorough && k > 120 && k % 9 > 1 && n - k > 40 {
                        continue;
                    }
                    case(&format!("{rd} {short} prefix {k} offset {off}"));
                    let mut data = vec![0x11u8; off];
                    data.extend(&bytes[..k]);
                    let mut s = Slow { data, pos: off as u64, step };
                    ctx.st(1);
                    // feed exactly as much as asked each time; all intermediate states obey the rule
                    let mut have = k;
                    let mut rounds = 0;
                    loop {
                        ctx.tr(1);
                        let o = match catch(|| f(&mut s)) {
                            Ok(o) => o,
                            Err(p) => Out::Panic(p),
                        };
                        let missing = (n - have) as u64;
                        match o {
                            Out::Need(m) if have < n && m >= 1 && m <= missing && s.pos == off as u64 => {
                                s.data.extend(&bytes[have..have + m as usize]);
                                have += m as usize;
                            }
                            Out::Ok(ref q) if have == n && q == want && s.pos as usize == off + n => break,
                            ref other => {
                                ctx.violation(format!(
                                    "{rd} of {short}: with {have} of {n} bytes at offset {off} (reads of at most {step}) gives {other:?} and leaves the source at {} \nbytes {}",
                                    s.pos, hex(bytes)
                                ));
                                break;
                            }
                        }
                        rounds += 1;
                        if rounds > n + 2 {
                            ctx.violation(format!("{rd} of {short}: never satisfied"));
                            break;
                        }
                    }
                    ctx.trace(1);
                    // all missing bytes at once, with other data behind
                    let mut data = vec![0x11u8; off];
                    data.extend(&bytes[..k]);
                    let mut s = Slow { data, pos: off as u64, step };
                    let a = catch(|| f(&mut s));
                    let p1 = s.pos;
                    s.data.extend(&bytes[k..]);
                    s.data.extend([0xEE; 5]);
                    let b = catch(|| f(&mut s));
                    ctx.tr(2);
                    if !matches!(a, Ok(Out::Need(_))) || p1 != off as u64 || b != Ok(Out::Ok(want.clone())) || s.pos as usize != off + n {
                        ctx.violation(format!("{rd} of {short}: prefix {k} of {n} at {off}: {a:?}, source at {p1}; completed: {b:?}, source at {}", s.pos));
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
        // errors leave the source in place
        if n < 400 {
            for k in 0..n {
                for x in [1u8, 0x80, 0xff] {
                    for cut in [n, (n + k + 1) / 2] {
                        let mut data = vec![0x11u8; 3];
                        data.extend(bytes);
                        data[3 + k] ^= x;
                        data.truncate(3 + cut);
                        data.extend(if cut == n { &[9u8; 6][..] } else { &[] });
                        let mut s = Slow { data, pos: 3, step: usize::MAX };
                        ctx.st(1);
                        ctx.tr(1);
                        let o = match catch(|| f(&mut s)) {
                            Ok(o) => o,
                            Err(p) => Out::Panic(p),
                        };
                        match o {
                            Out::Ok(_) => {}
                            Out::Err(_) | Out::Need(_) if s.pos == 3 => {}
                            other => ctx.violation(format!(
                                "{rd} of {short} with byte {k} ^ {x:#x}, cut at {cut} of {n}: {other:?}, source moved from 3 to {}", s.pos
                            )),
                        }
                    }
                }
            }
        }
        if i % 37 == 0 {
            ctx.sample(|| format!("{rd} of {short}: every prefix of {n} bytes"));
        }
    });
}

/// A growing buffered source.
struct Growing<'a> {
    data: &'a [u8],
    avail: usize,
    pos: usize,
}
impl Read for Growing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = (self.avail - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Growing<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        Ok(&self.data[self.pos..self.avail])
    }
    fn consume(&mut self, n: usize) {
        assert!(self.pos + n <= self.avail, "consumed {n} of {} available", self.avail - self.pos);
        self.pos += n;
    }
}

fn buffered(ctx: &Ctx) {
    let mut pkts = shapes();
    pkts.extend(packets(if ctx.thorough { 2 } else { 1 }));
    pkts.extend(counted(&[9, 255]).into_iter().filter(|p| refc::packet(p).len() < 5000));
    ctx.group("packets (buffered)", pkts.len() as u64);
    let next = refc::packet(&Pkt::new(vec![Blk::Tiny(200)], None));
    par(ctx, pkts.len(), |i| {
        let p = &pkts[i];
        let bytes = refc::packet(p);
        let n = bytes.len();
        let short: String = format!("{p:?}").chars().take(300).collect();
        let mut two = bytes.clone();
        two.extend(&next);
        let packet = |r: Result<ReadStatus<Packet>, Error>| st(r, pk);
        for k in 0..n {
            if n > 1500 && !ctx.thorough && k > 120 && k % 9 > 1 && n - k > 40 {
                continue;
            }
            case(&format!("buffered {short} prefix {k}"));
            ctx.st(1);
            ctx.trace(1);
            // 1. growing source, fed exactly what was asked for
            let r = catch(|| {
                let mut s = Growing { data: &two, avail: k, pos: 0 };
                let mut rounds = 0;
                loop {
                    ctx.tr(1);
                    match packet(<Packet as TryReadFromBuffered>::try_read(&mut s)) {
                        Out::Need(m) if s.avail < n && m >= 1 && m as usize <= n - s.avail && s.pos == 0 => s.avail += m as usize,
                        Out::Ok(q) if s.avail == n && q == *p && s.pos == n => return None,
                        o => return Some(format!("with {} of {n} bytes gives {o:?}, consumed {}", s.avail, s.pos)),
                    }
                    rounds += 1;
                    if rounds > n + 2 {
                        return Some("never satisfied".into());
                    }
                }
            });
            if r != Ok(None) {
                ctx.violation(format!("Packet TryReadFromBuffered of {short} from prefix {k}: {r:?}\nbytes {}", hex(&bytes)));
            }
            // 2. all at once, and the following packet is still there
            let r = catch(|| {
                let mut s = Growing { data: &two, avail: k, pos: 0 };
                let a = packet(<Packet as TryReadFromBuffered>::try_read(&mut s));
                let p1 = s.pos;
                s.avail = two.len();
                let b = packet(<Packet as TryReadFromBuffered>::try_read(&mut s));
                let p2 = s.pos;
                let c = packet(<Packet as TryReadFromBuffered>::try_read(&mut s));
                (matches!(a, Out::Need(_)), p1, b == Out::Ok(p.clone()), p2, matches!(c, Out::Ok(_)))
            });
            ctx.tr(3);
            if r != Ok((true, 0, true, n, true)) {
                ctx.violation(format!("Packet TryReadFromBuffered of {short} prefix {k}, then completed: {r:?}"));
            }
            // 3. the peeking reader over a source delivering the packet in two pieces
            for cap in [8192, n.max(1) + 3] {
                let r = catch(|| {
                    let cut = [k];
                    let mut inner = BufReader::with_capacity(cap, Chunks::cut(&two, &cut));
                    let mut b = BufferedReader::new(&mut inner);
                    let mut rounds = 0;
                    loop {
                        ctx.tr(1);
                        let before = b.consumed();
                        match packet(<Packet as TryReadFromBuffered>::try_read(&mut b)) {
                            Out::Need(m) if before == 0 && b.consumed() == 0 && m >= 1 && m as usize <= n => {}
                            Out::Ok(q) if q == *p && b.consumed() == n => {
                                let mut rest = vec![];
                                b.read_to_end(&mut rest).unwrap();
                                return if rest == next { None } else { Some(format!("following bytes are {}", hex(&rest))) };
                            }
                            o => return Some(format!("{o:?}, consumed {}", b.consumed())),
                        }
                        b.refill().unwrap();
                        rounds += 1;
                        if rounds > n + 4 {
                            return Some("never satisfied".into());
                        }
                    }
                });
                if r != Ok(None) {
                    ctx.violation(format!("BufferedReader over a source split at {k} (capacity {cap}), {short}: {r:?}\nbytes {}", hex(&bytes)));
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}

/// headers (with a correct checksum) that do not match what follows, and too many blocks: whatever the answer,
/// short of a packet the source stays where it was
fn forged(ctx: &Ctx) {
    let mut pkts = shapes();
    pkts.extend(counted(&[3, 255, 256, 257, 300]));
    ctx.group("packets with forged headers", pkts.len() as u64);
    par(ctx, pkts.len(), |i| {
        let p = &pkts[i];
        let enc = refc::packet(p);
        let (n, blocks) = ((enc.len() - 29) as u64, p.blocks.iter().map(|b| refc::block(b).len() as u64).sum::<u64>());
        let around = |x: u64| {
            let mut v: Vec<u64> = (0..=40).map(|d| x.saturating_sub(d)).chain((1..=40).map(|d| x + d)).chain([0, 1, 2, 4, 7]).collect();
            v.sort();
            v.dedup();
            v
        };
        for size in around(n) {
            for bl in around(blocks) {
                for payload in [false, true] {
                    // everything that must be there is there; some more may follow
                    for tail in [0usize, 50] {
                        if tail == 0 && size > n {
                            continue;
                        }
                        let mut bytes = vec![0x11; 3];
                        bytes.extend(refc::header(size, bl, payload as u8));
                        bytes.extend(&enc[29..]);
                        bytes.extend(vec![0xC3; tail]);
                        ctx.st(1);
                        ctx.tr(2);
                        ctx.trace(1);
                        let mut s = Slow { data: bytes.clone(), pos: 3, step: usize::MAX };
                        let o = catch(|| st(<Packet as TryReadFrom>::try_read(&mut s), pk)).unwrap_or_else(Out::Panic);
                        if matches!(o, Out::Panic(_)) || !matches!(o, Out::Ok(_)) && s.pos != 3 {
                            ctx.violation(format!("seekable reading of {} blocks, {n} bytes, announced as {size} with {bl} of blocks, payload {payload}, {tail} bytes behind: {o:?}, the source moved from 3 to {}", p.blocks.len(), s.pos));
                        }
                        let mut g = Growing { data: &bytes[3..], avail: bytes.len() - 3, pos: 0 };
                        let o = catch(|| st(<Packet as TryReadFromBuffered>::try_read(&mut g), pk)).unwrap_or_else(Out::Panic);
                        if matches!(o, Out::Panic(_)) || matches!(o, Out::Need(_)) && g.pos != 0 {
                            ctx.violation(format!("buffered reading of {} blocks, {n} bytes, announced as {size} with {bl} of blocks, payload {payload}, {tail} bytes behind: {o:?}, {} bytes consumed", p.blocks.len(), g.pos));
                        }
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}

/// headers alone from a buffered source; a payload header is documented to be left in the source
fn buffered_headers(ctx: &Ctx) {
    type R = fn(&mut Growing) -> Out;
    let mut v: Vec<(String, Vec<u8>, usize, R)> = vec![];
    for p in headers() {
        let h = refc::packet(&p)[..29].to_vec();
        v.push((format!("packet header of {p:?}"), h, 29, |s| st(<PacketHeader as TryReadFromBuffered>::try_read(s), hdr)));
    }
    for p in payloads_small().into_iter().flatten().chain(payloads_full(false).into_iter().step_by(13).filter(|p| refc::payload(p).len() < 400)) {
        v.push((format!("payload header of {p:?}"), refc::payload_header(&p), 0, |s| {
            st(<PayloadHeader as TryReadFromBuffered>::try_read(s), |h| Pkt::new(vec![], Some(Pl::Bytes(h.as_vec()))))
        }));
    }
    ctx.group("headers (buffered)", v.len() as u64);
    for (name, bytes, taken, f) in &v {
        let n = bytes.len();
        let name: String = name.chars().take(200).collect();
        for tail in [0, 1, 40] {
            let mut all = bytes.clone();
            all.extend(vec![0xa5; tail]);
            for k in 0..=n {
                ctx.st(1);
                ctx.trace(1);
                let r = catch(|| {
                    let mut s = Growing { data: &all, avail: k, pos: 0 };
                    for _ in 0..n + 2 {
                        ctx.tr(1);
                        match f(&mut s) {
                            Out::Need(m) if s.avail < n && m >= 1 && m as usize <= n - s.avail && s.pos == 0 => s.avail += m as usize,
                            Out::Ok(q) if s.avail == n && q == Pkt::new(vec![], Some(Pl::Bytes(bytes.clone()))) && s.pos == *taken => {
                                // with more data behind
                                s.pos = 0;
                                s.avail = all.len();
                                return match f(&mut s) {
                                    Out::Ok(r) if r == q && s.pos == *taken => None,
                                    o => Some(format!("with {tail} more bytes behind: {o:?}, consumed {}", s.pos)),
                                };
                            }
                            o => return Some(format!("with {} of {n} bytes gives {o:?}, consumed {}", s.avail, s.pos)),
                        }
                    }
                    Some("never satisfied".to_string())
                });
                if r != Ok(None) {
                    ctx.violation(format!("buffered reading of the {name}, from {k} bytes on: {r:?}\nbytes {}", hex(bytes)));
                }
            }
        }
    }
}

/// the same on real files
fn files(ctx: &Ctx) {
    let dir = std::env::temp_dir().join(format!("verif-p05-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("prefix.bin");
    for p in shapes() {
        let bytes = refc::packet(&p);
        for k in 0..bytes.len() {
            let mut f = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&path).unwrap();
            f.write_all(&bytes[..k]).unwrap();
            f.seek(SeekFrom::Start(0)).unwrap();
            let a = catch(|| st(<Packet as TryReadFrom>::try_read(&mut f), pk));
            let pos = f.stream_position().unwrap();
            f.seek(SeekFrom::End(0)).unwrap();
            f.write_all(&bytes[k..]).unwrap();
            f.seek(SeekFrom::Start(pos)).unwrap();
            let b = catch(|| st(<Packet as TryReadFrom>::try_read(&mut f), pk));
            ctx.st(1);
            ctx.tr(2);
            ctx.trace(1);
            let good = matches!(a, Ok(Out::Need(m)) if m >= 1 && m as usize <= bytes.len() - k) && pos == 0 && b == Ok(Out::Ok(p.clone()));
            if !good {
                ctx.violation(format!("file holding {k} of {} bytes: {a:?}, position {pos}; completed: {b:?}", bytes.len()));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn run_(ctx: &Ctx) {
    seekable(ctx);
    buffered(ctx);
    buffered_headers(ctx);
    forged(ctx);
    files(ctx);
    ctx.assume("the buffered readers see the available prefix as one contiguous buffer");
}
