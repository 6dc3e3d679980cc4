//! P03 every sink behaviour within the bound, for every writer.
use crate::dom::*;
use crate::model::*;
use crate::refc;
use crate::util::*;
use brec::prelude::*;
use std::io::{Error as IoError, ErrorKind, IoSlice, Write};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Resp {
    Accept(usize),
    Intr,
    /// fails this once
    Fail(ErrorKind),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Tail {
    All,
    One,
    Fail,
    Zero,
}

/// A sink that answers by a script, then by its tail behaviour.
pub struct Scripted<'a> {
    pub script: &'a [Resp],
    pub tail: Tail,
    pub native_vectored: bool,
    pub i: usize,
    pub got: Vec<u8>,
    pub hard: bool,
    pub intr: bool,
    pub failed: bool,
    pub calls: usize,
    /// a vectored write takes at most that many slices
    pub max_slices: usize,
}
impl<'a> Scripted<'a> {
    pub fn new(script: &'a [Resp], tail: Tail, native_vectored: bool) -> Self {
        Scripted { script, tail, native_vectored, i: 0, got: vec![], hard: false, intr: false, failed: false, calls: 0, max_slices: usize::MAX }
    }
    fn answer(&mut self) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls > 200_000 {
            panic!("endless writing");
        }
        let r = self.script.get(self.i).copied();
        self.i += 1;
        match r {
            Some(Resp::Accept(n)) => Ok(n),
            Some(Resp::Intr) => {
                self.intr = true;
                Err(IoError::from(ErrorKind::Interrupted))
            }
            Some(Resp::Fail(k)) => {
                self.hard = true;
                self.failed = true;
                Err(IoError::from(k))
            }
            None => match self.tail {
                Tail::All => Ok(usize::MAX),
                Tail::One => Ok(1),
                Tail::Fail => {
                    self.hard = true;
                    Err(IoError::new(ErrorKind::Other, "sink failed"))
                }
                Tail::Zero => {
                    self.hard = true;
                    Ok(0)
                }
            },
        }
    }
}
impl Write for Scripted<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.answer()?.min(b.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> std::io::Result<usize> {
        if !self.native_vectored {
            let b = bufs.iter().find(|b| !b.is_empty()).map_or(&[][..], |b| &**b);
            return self.write(b);
        }
        if bufs.iter().all(|b| b.is_empty()) {
            return Ok(0);
        }
        let mut left = self.answer()?;
        let mut n = 0;
        for b in bufs.iter().filter(|b| !b.is_empty()).take(self.max_slices) {
            let k = left.min(b.len());
            self.got.extend_from_slice(&b[..k]);
            n += k;
            left -= k;
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const KINDS: [ErrorKind; 10] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidInput,
    ErrorKind::StorageFull,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
];

#[derive(Clone, Debug)]
enum Obj {
    Pkt(Pkt),
    Blk(Blk),
    Pl(Pl),
    Hdr(Pkt),
}
impl Obj {
    fn enc(&self) -> Vec<u8> {
        match self {
            Obj::Pkt(p) => refc::packet(p),
            Obj::Blk(b) => refc::block(b),
            Obj::Pl(p) => refc::payload(p),
            Obj::Hdr(p) => refc::packet(p)[..29].to_vec(),
        }
    }
    fn ops(&self) -> &'static [&'static str] {
        match self {
            Obj::Pkt(_) | Obj::Blk(_) | Obj::Pl(_) => &["write_all", "write_vectored_all", "write", "write_vectored"],
            _ => &["write_all", "", "write"],
        }
    }
}

enum Real {
    Pkt(crate::proto::Packet),
    Blk(crate::proto::Block),
    Pl(crate::proto::Payload),
    Hdr(PacketHeader),
}
impl Real {
    fn of(o: &Obj) -> Real {
        match o {
            Obj::Pkt(p) => Real::Pkt(p.real()),
            Obj::Blk(b) => Real::Blk(b.real()),
            Obj::Pl(p) => Real::Pl(p.real()),
            Obj::Hdr(p) => {
                let r = p.real();
                Real::Hdr(PacketHeader::new(&r.blocks, r.payload.as_ref()).unwrap())
            }
        }
    }
    /// complete writes give Ok(None), single attempts Ok(Some(n))
    fn run(&mut self, op: usize, s: &mut Scripted) -> std::io::Result<Option<usize>> {
        match (self, op) {
            (Real::Pkt(p), 0) => WriteMutTo::write_all(p, s).map(|_| None),
            (Real::Pkt(p), 1) => WriteVectoredMutTo::write_vectored_all(p, s).map(|_| None),
            (Real::Pkt(p), 2) => WriteMutTo::write(p, s).map(Some),
            (Real::Pkt(p), _) => WriteVectoredMutTo::write_vectored(p, s).map(Some),
            (Real::Blk(p), 0) => WriteTo::write_all(p, s).map(|_| None),
            (Real::Blk(p), 1) => WriteVectoredTo::write_vectored_all(p, s).map(|_| None),
            (Real::Blk(p), 2) => WriteTo::write(p, s).map(Some),
            (Real::Blk(p), _) => WriteVectoredTo::write_vectored(p, s).map(Some),
            (Real::Pl(p), 0) => WriteMutTo::write_all(p, s).map(|_| None),
            (Real::Pl(p), 1) => WriteVectoredMutTo::write_vectored_all(p, s).map(|_| None),
            (Real::Pl(p), 2) => WriteMutTo::write(p, s).map(Some),
            (Real::Pl(p), _) => WriteVectoredMutTo::write_vectored(p, s).map(Some),
            (Real::Hdr(p), 0) => WriteTo::write_all(p, s).map(|_| None),
            (Real::Hdr(p), _) => WriteTo::write(p, s).map(Some),
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn one(ctx: &Ctx, obj: &Obj, real: &mut Real, enc: &[u8], op: usize, script: &[Resp], tail: Tail, nv: bool) {
    judge_one(ctx, obj, real, enc, op, Scripted::new(script, tail, nv))
}
fn judge_one(ctx: &Ctx, obj: &Obj, real: &mut Real, enc: &[u8], op: usize, mut s: Scripted) {
    let (script, tail, nv) = (s.script, s.tail, s.native_vectored);
    ctx.tr(1);
    ctx.trace(1);
    let r = catch(|| real.run(op, &mut s));
    let name = obj.ops()[op];
    let complete = op < 2;
    let bad = match &r {
        Err(p) => Some(format!("panics: {p}")),
        Ok(Ok(_)) if s.failed => Some("reports success although the sink failed".into()),
        Ok(Ok(None)) if s.got == enc => None,
        Ok(Ok(None)) => Some("reports success, but the sink did not get exactly the encoding".into()),
        Ok(Ok(Some(n))) if *n == s.got.len() && enc.starts_with(&s.got) => None,
        Ok(Ok(Some(n))) => Some(format!("reports {n} bytes, delivered {}", s.got.len())),
        Ok(Err(e)) if !enc.starts_with(&s.got) => Some(format!("fails with {e} and what it delivered is not a prefix")),
        Ok(Err(_)) if s.hard => None,
        Ok(Err(_)) if s.intr && !complete => None,
        Ok(Err(e)) => Some(format!("fails with {e} although the sink never failed")),
    };
    if let Some(b) = bad {
        ctx.violation(format!(
            "{name} of {} {b}\nsink script {script:?} then {tail:?}, {} vectored writes\nsink got {} bytes: {}\nencoding {} bytes: {}",
            format!("{obj:?}").chars().take(400).collect::<String>(),
            if nv { "native" } else { "default" },
            s.got.len(),
            hex(&s.got),
            enc.len(),
            hex(enc)
        ));
    }
}

pub fn run(ctx: &Ctx) {
    let alphabet = [Resp::Accept(1), Resp::Accept(2), Resp::Accept(5), Resp::Accept(29), Resp::Accept(usize::MAX), Resp::Intr];
    let depth = if ctx.thorough { 7 } else { 5 };
    let scripts: Vec<Vec<Resp>> =
        sequences(alphabet.len(), depth).into_iter().map(|s| s.into_iter().map(|i| alphabet[i]).collect()).collect();
    let mut objs: Vec<Obj> = shapes().into_iter().map(Obj::Pkt).collect();
    objs.push(Obj::Pkt(Pkt::new(vec![Blk::Big(1, 2), Blk::Tiny(3), Blk::Blob([1; 5])], Some(Pl::Bytes(sig_bytes(50))))));
    objs.push(Obj::Blk(Blk::Mix(1, [2; 3], 4, [5; 2])));
    objs.push(Obj::Blk(Blk::Tiny(1)));
    objs.push(Obj::Blk(Blk::All(Box::new(all0()))));
    objs.push(Obj::Pl(Pl::Str("abc".into())));
    objs.push(Obj::Pl(Pl::EnumB(5)));
    objs.push(Obj::Pl(Pl::Bytes(vec![])));
    objs.push(Obj::Hdr(Pkt::new(vec![Blk::Tiny(1)], None)));
    let encs: Vec<Vec<u8>> = objs.iter().map(|o| o.enc()).collect();
    let tails = [Tail::All, Tail::One, Tail::Fail, Tail::Zero];
    ctx.group("scripts", scripts.len() as u64);
    ctx.group("objects", objs.len() as u64);
    let per = scripts.len().div_ceil(256);
    par(ctx, objs.len() * 256, |k| {
        let (oi, part) = (k / 256, k % 256);
        let obj = &objs[oi];
        let mut real = Real::of(obj);
        for script in scripts.iter().skip(part * per).take(per) {
            case(&format!("{obj:?} script {script:?}"));
            ctx.st(1);
            for (op, name) in obj.ops().iter().enumerate() {
                if name.is_empty() {
                    continue;
                }
                for tail in tails {
                    // 1-byte tails of the large ones add nothing but time
                    if tail == Tail::One && encs[oi].len() > 600 && script.len() > 2 {
                        continue;
                    }
                    for nv in [true, false] {
                        if !nv && !name.contains("vectored") {
                            continue;
                        }
                        one(ctx, obj, &mut real, &encs[oi], op, script, tail, nv);
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
        if part == 100 {
            ctx.sample(|| format!("{obj:?} with {:?}", scripts.get(part * per)));
        }
    });
    // every kind of failure, once, after every short script
    let short: Vec<&Vec<Resp>> = scripts.iter().filter(|s| s.len() <= if ctx.thorough { 4 } else { 2 }).collect();
    ctx.group("kinds of failure", KINDS.len() as u64);
    par(ctx, objs.len() * KINDS.len(), |k| {
        let (obj, kind) = (&objs[k / KINDS.len()], KINDS[k % KINDS.len()]);
        let enc = &encs[k / KINDS.len()];
        let mut real = Real::of(obj);
        for pre in &short {
            let mut script = (*pre).clone();
            script.push(Resp::Fail(kind));
            case(&format!("{obj:?} script {script:?}"));
            ctx.st(1);
            for (op, name) in obj.ops().iter().enumerate() {
                for nv in [true, false] {
                    if !name.is_empty() && (nv || name.contains("vectored")) {
                        one(ctx, obj, &mut real, enc, op, &script, Tail::All, nv);
                    }
                }
            }
        }
    });
    // every pair of cut positions, with and without an interruption between
    par(ctx, objs.len(), |oi| {
        let obj = &objs[oi];
        let enc = &encs[oi];
        let n = enc.len();
        if n > 450 {
            return;
        }
        let mut real = Real::of(obj);
        for a in 1..=n {
            for b in 0..=(n - a) {
                let mut script = vec![Resp::Accept(a)];
                if b > 0 {
                    script.push(Resp::Accept(b));
                }
                ctx.st(1);
                case(&format!("{obj:?} cuts {a} {b}"));
                for (op, name) in obj.ops().iter().enumerate() {
                    if name.is_empty() {
                        continue;
                    }
                    for tail in [Tail::All, Tail::Fail] {
                        one(ctx, obj, &mut real, enc, op, &script, tail, true);
                        one(ctx, obj, &mut real, enc, op, &script, tail, false);
                    }
                    one(ctx, obj, &mut real, enc, op, &[Resp::Accept(a), Resp::Intr, Resp::Accept(b.max(1))], Tail::All, true);
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    });
    // many slices: packets at the block limit, constant acceptance of every size
    let big = counted(&[254, 255]);
    par(ctx, big.len() * 64, |k| {
        let obj = Obj::Pkt(big[k / 64].clone());
        let enc = obj.enc();
        let step = [1usize, 2, 3, 4, 5, 7, 8, 9, 13, 16, 29, 31, 64, 100, 500, 1000, 4096][(k % 64) % 17];
        if k % 64 >= 17 || (step < 29 && enc.len() > 4000 && !ctx.thorough) {
            return;
        }
        let script = vec![Resp::Accept(step); enc.len() / step + 1];
        let mut real = Real::of(&obj);
        case(&format!("{} blocks, {step} bytes at a time", big[k / 64].blocks.len()));
        ctx.st(1);
        for op in 0..4 {
            for nv in [true, false] {
                one(ctx, &obj, &mut real, &enc, op, &script, Tail::All, nv);
            }
        }
    });
    // more slices than an operating system takes in one call, and payloads of megabytes
    let mut wide: Vec<Pkt> = vec![];
    for n in [100usize, 203, 204, 205, 255] {
        wide.push(Pkt::new((0..n).map(|i| Blk::Mix(i as u16, [i as u8; 3], -(i as i32), [1; 2])).collect(), Some(Pl::Bytes(sig_bytes(40)))));
        wide.push(Pkt::new((0..n).map(|i| if i % 2 == 0 { Blk::Blob([i as u8; 5]) } else { Blk::Mix(i as u16, [3; 3], 1, [1; 2]) }).collect(), None));
    }
    for n in [65_535usize, 65_536, 70_000, 1 << 20, (1 << 20) + 7, 3 << 20] {
        wide.push(Pkt::new(vec![Blk::Tiny(1)], Some(Pl::Bytes((0..n).map(|i| (i * i >> 3) as u8).collect()))));
        wide.push(Pkt::new(vec![], Some(Pl::Str("x".repeat(n)))));
    }
    ctx.group("wide packets", wide.len() as u64);
    par(ctx, wide.len(), |k| {
        let obj = Obj::Pkt(wide[k].clone());
        let enc = obj.enc();
        let n = enc.len();
        let mut real = Real::of(&obj);
        let mut scripts: Vec<Vec<Resp>> = vec![vec![]];
        for step in [n / 2, n / 3, 1 << 16, (1 << 16) - 1, 1 << 20, n - 1, 29, 4096] {
            if n / step < 5000 {
                scripts.push(vec![Resp::Accept(step); n / step + 1]);
                scripts.push([Resp::Accept(step), Resp::Intr].into_iter().cycle().take(2 * (n / step + 1)).collect());
            }
            scripts.push(vec![Resp::Accept(step), Resp::Fail(ErrorKind::BrokenPipe)]);
        }
        for script in &scripts {
            case(&format!("wide packet {k} of {n} bytes"));
            ctx.st(1);
            for op in 0..4 {
                for nv in [true, false] {
                    one(ctx, &obj, &mut real, &enc, op, script, Tail::All, nv);
                }
                // at most that many slices in one call
                for slices in [1usize, 2, 16, 1023, 1024] {
                    let mut s = Scripted::new(script, Tail::All, true);
                    s.max_slices = slices;
                    judge_one(ctx, &obj, &mut real, &enc, op, s);
                }
            }
        }
    });
    ctx.assume("a sink never claims to have taken more bytes than it was given");
    ctx.group("script depth", depth as u64);
}
