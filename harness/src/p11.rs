//! P11 the peeking buffered reader is a transparent view: all operation sequences up to a depth.
use crate::readers::Chunks;
use crate::util::*;
use brec::prelude::*;
use std::io::{BufRead, BufReader, ErrorKind, Read};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Peek,
    /// peek, then consume min(n, peeked); usize::MAX consumes all
    Consume(usize),
    /// peek and consume all but n
    Leave(usize),
    Read(usize),
    Refill,
    Len,
    ReadExact(usize),
}
const OPS: &[Op] = &[
    Op::Peek,
    Op::Consume(1),
    Op::Consume(4),
    Op::Consume(usize::MAX),
    Op::Leave(1),
    Op::Read(1),
    Op::Read(5),
    Op::Refill,
    Op::Len,
    Op::ReadExact(3),
    Op::Consume(0),
    Op::Read(0),
];

/// a source that is its own buffer, or a BufReader over a chunked source
fn exec<R: BufRead>(inner: &mut R, data: &[u8], ops: &[Op]) -> Result<(), String> {
    {
        let mut b = BufferedReader::new(inner);
        let mut pos = 0usize; // bytes taken through the reader
        for (i, op) in ops.iter().enumerate() {
            let rest = &data[pos..];
            let p0 = pos;
            let at = |m: String| format!("step {i} {op:?} with {p0} bytes taken: {m}");
            match *op {
                Op::Peek | Op::Consume(_) | Op::Leave(_) => {
                    let peeked = {
                        let p = b.fill_buf().map_err(|e| at(e.to_string()))?;
                        if !rest.starts_with(p) {
                            return Err(at(format!("peeked {} but the source continues with {}", hex(p), hex(rest))));
                        }
                        if p.is_empty() && !rest.is_empty() {
                            return Err(at("peek is empty although more is available".into()));
                        }
                        p.len()
                    };
                    let n = match *op {
                        Op::Consume(n) => n.min(peeked),
                        Op::Leave(n) => peeked.saturating_sub(n),
                        _ => 0,
                    };
                    if !matches!(op, Op::Peek) {
                        b.consume(n);
                        pos += n;
                    }
                }
                Op::Read(n) => {
                    let mut buf = vec![0xAAu8; n];
                    let k = b.read(&mut buf).map_err(|e| at(e.to_string()))?;
                    if k > n || k > rest.len() || buf[..k] != rest[..k] {
                        return Err(at(format!("read {} but the source continues with {}", hex(&buf[..k.min(n)]), hex(rest))));
                    }
                    if k == 0 && n > 0 && !rest.is_empty() {
                        return Err(at("read reports the end although more is available".into()));
                    }
                    pos += k;
                }
                Op::ReadExact(n) => {
                    if rest.len() >= n {
                        let mut buf = vec![0xAAu8; n];
                        b.read_exact(&mut buf).map_err(|e| at(e.to_string()))?;
                        if buf != rest[..n] {
                            return Err(at(format!("read {} but the source continues with {}", hex(&buf), hex(rest))));
                        }
                        pos += n;
                    }
                }
                Op::Refill => b.refill().map_err(|e| at(e.to_string()))?,
                Op::Len => {
                    let l = b.len().map_err(|e| at(e.to_string()))?;
                    let e = b.is_empty().map_err(|e| at(e.to_string()))?;
                    let k = b.buffer_len().map_err(|e| at(e.to_string()))?;
                    if l > rest.len() || k > l || e != rest.is_empty() || (l == 0) != e {
                        return Err(at(format!("len {l}, empty {e}, buffer {k} with {} bytes left", rest.len())));
                    }
                    let p = b.fill_buf().map_err(|e| at(e.to_string()))?.len();
                    if p != l {
                        return Err(at(format!("len {l} but a peek shows {p}")));
                    }
                }
            }
            if b.consumed() != pos {
                return Err(at(format!("consumed counter is {}, {pos} bytes were taken", b.consumed())));
            }
        }
        // whatever happened, the rest of the source follows
        let mut tail = vec![];
        b.read_to_end(&mut tail).map_err(|e| e.to_string())?;
        if tail != data[pos..] {
            return Err(format!("after all steps the rest is {}, expected {}", hex(&tail), hex(&data[pos..])));
        }
        if b.consumed() != data.len() {
            return Err(format!("consumed counter at the end is {}, {} bytes were taken", b.consumed(), data.len()));
        }
    }
    Ok(())
}

/// A chunked source some of whose reads fail.
struct Failing<'a> {
    inner: Chunks<'a>,
    calls: usize,
    /// bit i: read i fails
    plan: u32,
    kind: ErrorKind,
    hit: std::rc::Rc<std::cell::Cell<usize>>,
}
impl Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let i = self.calls;
        self.calls += 1;
        if i < 32 && self.plan >> i & 1 == 1 {
            self.hit.set(self.hit.get() + 1);
            return Err(self.kind.into());
        }
        self.inner.read(b)
    }
}

/// the source fails at some of its reads: the operation that met it says so, and nothing is lost
fn exec_failing(data: &[u8], chunks: &[usize], cap: usize, ops: &[Op], plan: u32, kind: ErrorKind) -> Result<(), String> {
    let hit = std::rc::Rc::new(std::cell::Cell::new(0));
    let mut inner = BufReader::with_capacity(cap, Failing { inner: Chunks::new(data, chunks), calls: 0, plan, kind, hit: hit.clone() });
    let mut b = BufferedReader::new(&mut inner);
    let mut pos = 0usize;
    for (i, op) in ops.iter().enumerate() {
        let rest = &data[pos..];
        let before = hit.get();
        let p0 = pos;
        let at = |m: String| format!("step {i} {op:?} with {p0} bytes taken: {m}");
        let mut failed = false;
        let mut taken = 0;
        match *op {
            Op::Peek | Op::Consume(_) | Op::Leave(_) => match b.fill_buf() {
                Ok(p) => {
                    if !rest.starts_with(p) || p.is_empty() && !rest.is_empty() {
                        return Err(at(format!("peeked {} but the source continues with {}", hex(p), hex(rest))));
                    }
                    let n = match *op {
                        Op::Consume(n) => n.min(p.len()),
                        Op::Leave(n) => p.len().saturating_sub(n),
                        _ => 0,
                    };
                    if !matches!(op, Op::Peek) {
                        b.consume(n);
                        taken = n;
                    }
                    // a peek may rely on what it already holds
                    failed = hit.get() > before;
                }
                Err(e) if e.kind() == kind => failed = true,
                Err(e) => return Err(at(e.to_string())),
            },
            Op::Read(n) => {
                let mut buf = vec![0xAAu8; n];
                match b.read(&mut buf) {
                    Ok(k) => {
                        if k > rest.len() || buf[..k] != rest[..k] || k == 0 && n > 0 && !rest.is_empty() {
                            return Err(at(format!("read {} but the source continues with {}", hex(&buf[..k.min(n)]), hex(rest))));
                        }
                        taken = k;
                        failed = k > 0 && hit.get() > before;
                    }
                    Err(e) if e.kind() == kind => failed = true,
                    Err(e) => return Err(at(e.to_string())),
                }
            }
            Op::Refill => match b.refill() {
                Ok(()) => {}
                Err(e) if e.kind() == kind => failed = true,
                Err(e) => return Err(at(e.to_string())),
            },
            Op::Len => match b.len() {
                Ok(l) if l <= rest.len() && (l > 0 || rest.is_empty()) => failed = hit.get() > before,
                Ok(l) => return Err(at(format!("len {l} with {} bytes left", rest.len()))),
                Err(e) if e.kind() == kind => failed = true,
                Err(e) => return Err(at(e.to_string())),
            },
            Op::ReadExact(_) => {}
        }
        if failed != (hit.get() > before) {
            return Err(at(format!("reports a failure: {failed}, the source failed: {}", hit.get() > before)));
        }
        pos += taken;
        if b.consumed() != pos {
            return Err(at(format!("consumed counter is {}, {pos} bytes were taken", b.consumed())));
        }
    }
    let mut tail = vec![];
    for _ in 0..40 {
        match b.read_to_end(&mut tail) {
            Ok(_) => break,
            Err(e) if e.kind() == kind => {}
            Err(e) => return Err(e.to_string()),
        }
    }
    if tail != data[pos..] || b.consumed() != data.len() {
        return Err(format!("after all steps the rest is {}, expected {}; counter {}", hex(&tail), hex(&data[pos..]), b.consumed()));
    }
    Ok(())
}

fn failing(ctx: &Ctx) {
    let data: Vec<u8> = (1..=9u8).collect();
    let ops = [Op::Peek, Op::Consume(2), Op::Consume(usize::MAX), Op::Leave(1), Op::Read(1), Op::Read(5), Op::Refill, Op::Len];
    let seqs = sequences(ops.len(), if ctx.thorough { 5 } else { 4 });
    let plans: Vec<u32> = (1..if ctx.thorough { 64 } else { 16 }).collect();
    ctx.group("sequences over failing sources", seqs.len() as u64);
    par(ctx, seqs.len(), |k| {
        let ops: Vec<Op> = seqs[k].iter().map(|&i| ops[i]).collect();
        case(&format!("{ops:?}"));
        ctx.st(1);
        for c in [&[][..], &[2, 3], &[1]] {
            for cap in [1usize, 4, 64] {
                for &plan in &plans {
                    for kind in [ErrorKind::Other, ErrorKind::WouldBlock] {
                        ctx.tr(ops.len() as u64 + 1);
                        ctx.trace(1);
                        let r = catch(|| exec_failing(&data, c, cap, &ops, plan, kind)).unwrap_or_else(|p| Err(format!("panic {p}")));
                        if let Err(e) = r {
                            ctx.violation(format!("{ops:?} over reads of {c:?} (inner buffer {cap}), reads failing {plan:#b}: {e}"));
                            return;
                        }
                    }
                }
            }
        }
    });
}

pub fn run_(ctx: &Ctx) {
    failing(ctx);
    let data: Vec<u8> = (1..=13u8).collect();
    let chunkings: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2, 3], vec![5, 1], vec![3], vec![4, 4, 1], vec![7]];
    let caps = [1usize, 3, 6, 64];
    let depth = if ctx.thorough { 6 } else { 5 };
    let seqs: Vec<Vec<Op>> = sequences(OPS.len(), depth).into_iter().map(|s| s.into_iter().map(|i| OPS[i]).collect()).collect();
    ctx.group("operation sequences", seqs.len() as u64);
    ctx.group("sources", (chunkings.len() * caps.len() + 2) as u64);
    par(ctx, seqs.len().div_ceil(256), |k| {
        for ops in seqs.iter().skip(k * 256).take(256) {
            case(&format!("{ops:?}"));
            ctx.st(1);
            for c in &chunkings {
                for cap in caps {
                    ctx.tr(ops.len() as u64 + 1);
                    ctx.trace(1);
                    let r = catch(|| exec(&mut BufReader::with_capacity(cap, Chunks::new(&data, c)), &data, ops));
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => ctx.violation(format!("{ops:?} over reads of {c:?} (inner buffer {cap}): {e}")),
                        Err(p) => ctx.violation(format!("{ops:?} over reads of {c:?} (inner buffer {cap}): PANIC {p}")),
                    }
                }
            }
            for d in [&data[..], &data[..0], &data[..2]] {
                ctx.tr(ops.len() as u64 + 1);
                ctx.trace(1);
                match catch(|| exec(&mut std::io::Cursor::new(d), d, ops)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => ctx.violation(format!("{ops:?} over a cursor of {} bytes: {e}", d.len())),
                    Err(p) => ctx.violation(format!("{ops:?} over a cursor of {} bytes: PANIC {p}", d.len())),
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    // what was not taken (nor preloaded) is still in the source after the view is gone
    let short = sequences(OPS.len(), 3);
    par(ctx, short.len(), |k| {
        let ops: Vec<Op> = short[k].iter().map(|&i| OPS[i]).filter(|o| *o != Op::Refill).collect();
        ctx.st(1);
        ctx.trace(1);
        let r = catch(|| {
            let mut inner = std::io::Cursor::new(&data[..]);
            let taken = {
                let mut b = BufferedReader::new(&mut inner);
                for op in &ops {
                    match *op {
                        Op::Consume(n) => {
                            let l = b.fill_buf().unwrap().len();
                            b.consume(n.min(l));
                        }
                        Op::Leave(n) => {
                            let l = b.fill_buf().unwrap().len();
                            b.consume(l.saturating_sub(n));
                        }
                        Op::Read(n) => {
                            let _ = b.read(&mut vec![0; n]);
                        }
                        Op::Peek | Op::Len => {
                            let _ = b.fill_buf().unwrap();
                        }
                        _ => {}
                    }
                }
                b.consumed()
            };
            (taken, inner.position() as usize)
        });
        ctx.tr(1);
        if !matches!(r, Ok((a, b)) if a == b) {
            ctx.violation(format!("{ops:?}: taken and inner position differ: {r:?}"));
        }
    });
    // longer runs of the loop the documentation shows: peek, preload when short, consume
    par(ctx, 60, |want| {
        for c in &chunkings {
            for cap in [1usize, 2, 5, 8] {
                let big: Vec<u8> = (0..200u8).collect();
                let r = catch(|| {
                    let mut inner = BufReader::with_capacity(cap, Chunks::new(&big, c));
                    let mut b = BufferedReader::new(&mut inner);
                    let mut out = vec![];
                    let want = want + 1;
                    loop {
                        let mut tries = 0;
                        while b.fill_buf().unwrap().len() < want && tries < 300 {
                            b.refill().unwrap();
                            tries += 1;
                        }
                        let n = {
                            let p = b.fill_buf().unwrap();
                            let n = p.len().min(want);
                            out.extend_from_slice(&p[..n]);
                            n
                        };
                        if n == 0 {
                            break;
                        }
                        b.consume(n);
                    }
                    (out == big, b.consumed())
                });
                ctx.st(1);
                ctx.tr(1);
                ctx.trace(1);
                if r != Ok((true, 200)) {
                    ctx.violation(format!("peeking {} bytes at a time over reads of {c:?}, inner buffer {cap}: {r:?}", want + 1));
                }
            }
        }
    });
    ctx.sample(|| format!("{:?}", seqs[seqs.len() / 3]));
    ctx.assume("consume is called with at most the length of the last peek, as BufRead requires");
}
