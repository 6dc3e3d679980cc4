//! P25: the memory held by long-lived readers and writers does not depend on how much has passed through them.
use crate::dev::*;
use crate::model::*;
use crate::proto::*;
use crate::refc;
use crate::storage::{base_image, fresh, CAP};
use crate::stream::segments;
use crate::util::*;
use brec::prelude::*;
use std::cell::Cell;
use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};

thread_local! { static TAKEN: Cell<usize> = const { Cell::new(0) }; }

/// An endless repetition of some bytes, up to a total, in reads of a fixed size.
struct Cycle<'a> {
    data: &'a [u8],
    at: usize,
    left: usize,
    chunk: usize,
}
impl Read for Cycle<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.chunk).min(self.left);
        let mut d = 0;
        while d < n {
            let k = (n - d).min(self.data.len() - self.at);
            b[d..d + k].copy_from_slice(&self.data[self.at..self.at + k]);
            self.at = (self.at + k) % self.data.len();
            d += k;
        }
        self.left -= n;
        TAKEN.with(|t| t.set(t.get() + n));
        Ok(n)
    }
}

/// peaks of what is held: while the first and the second half passes
struct Peaks {
    base: i64,
    p: [i64; 2],
}
impl Peaks {
    fn new() -> Self {
        Peaks { base: live_bytes(), p: [0; 2] }
    }
    fn note(&mut self, second: bool) {
        let l = live_bytes() - self.base;
        self.p[second as usize] = self.p[second as usize].max(l);
    }
    fn check(&self, growth: i64, limit: i64) -> Result<(), String> {
        if self.p[1] > self.p[0] + growth {
            Err(format!("holds up to {} bytes in the second half, {} in the first", self.p[1], self.p[0]))
        } else if self.p[0].max(self.p[1]) > limit {
            Err(format!("holds up to {} bytes, more than {limit}", self.p[0].max(self.p[1])))
        } else {
            Ok(())
        }
    }
}

const RULES: [&str; 4] = ["no rules", "Ignored", "FilterByBlocks refusing", "Filter refusing"];
fn extractor(data: &[u8], total: usize, chunk: usize, rules: usize) -> Result<Peaks, String> {
    let mut src = Cycle { data, at: 0, left: total, chunk };
    TAKEN.with(|t| t.set(0));
    let mut p = Peaks::new();
    let mut r: PacketBufReader<Cycle> = PacketBufReader::new(&mut src);
    match rules {
        1 => r.add_rule(Rule::Ignored(brec::RuleFnDef::Static(|_| {}))),
        2 => r.add_rule(Rule::FilterByBlocks(brec::RuleFnDef::Static(|_| false))),
        3 => r.add_rule(Rule::Filter(brec::RuleFnDef::Static(|_| false))),
        _ => Ok(()),
    }
    .map_err(|e| errname(&e))?;
    for _ in 0..6 * total + 64 {
        let end = matches!(r.read(), Ok(NextPacket::NoData));
        p.note(TAKEN.with(|t| t.get()) > total / 2);
        if end {
            return Ok(p);
        }
    }
    Err("no end".into())
}
use crate::readers::errname;

fn streams(ctx: &Ctx) {
    let mut segs = segments();
    for (name, n) in [("packet of 3000", 3000usize), ("packet of 9000", 9000), ("packet of 20000", 20_000)] {
        let p = Pkt::new(vec![Blk::Tiny(1)], Some(Pl::Bytes((0..n).map(|i| (i * 31 % 251) as u8).collect())));
        segs.push(crate::stream::Seg { name, bytes: refc::packet(&p) });
    }
    let seqs = sequences(segs.len(), if ctx.thorough { 3 } else { 2 });
    let chunks: &[usize] = &[7, 29, 64, 4096];
    ctx.group("cycles of segments", seqs.len() as u64);
    ctx.group("read sizes x rules", (chunks.len() * RULES.len()) as u64);
    par(ctx, seqs.len(), |k| {
        let s = &seqs[k];
        let data: Vec<u8> = s.iter().flat_map(|&i| segs[i].bytes.iter().copied()).collect();
        if data.is_empty() {
            return;
        }
        let big = data.len() > 2000;
        let name = s.iter().map(|&i| segs[i].name).collect::<Vec<_>>().join(" | ");
        case(&name);
        // at least so many repetitions, and beyond the internal buffer several times over
        let total = (24 * data.len()).max(if ctx.thorough && s.len() < 3 { 1_000_000 } else { 200_000 });
        for &c in chunks {
            if big && c < 64 {
                continue;
            }
            for (rules, rn) in RULES.iter().enumerate() {
                ctx.st(1);
                ctx.tr((total / data.len()) as u64);
                ctx.trace(1);
                let r = catch(|| extractor(&data, total, c, rules)).and_then(|x| x);
                // the internal buffer, one packet twice (growing), a read
                match r.and_then(|p| p.check(256 + 2 * c as i64, 8192 + 3 * data.len() as i64 + 3 * 8192)) {
                    Ok(()) => {}
                    Err(e) => ctx.violation(format!("extractor with {rn} over {total} bytes of [{name}]* in reads of {c}: {e}\ncycle {}", hex(&data[..data.len().min(300)]))),
                }
            }
        }
        if k % 97 == 0 {
            ctx.sample(|| format!("extractor over [{name}]*"));
        }
    });
}

/// a memory of a fixed size, itself not counted
struct Fixed {
    d: Vec<u8>,
    at: usize,
}
impl Fixed {
    fn new(cap: usize) -> Self {
        Fixed { d: Vec::with_capacity(cap), at: 0 }
    }
}
impl Read for Fixed {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.d.len().saturating_sub(self.at));
        b[..n].copy_from_slice(&self.d[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl Write for Fixed {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let end = self.at + b.len();
        if end > self.d.capacity() {
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        if self.d.len() < end {
            self.d.resize(end, 0);
        }
        self.d[self.at..end].copy_from_slice(b);
        self.at = end;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Fixed {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.at = match p {
            SeekFrom::Start(n) => n as usize,
            SeekFrom::End(n) => (self.d.len() as i64 + n) as usize,
            SeekFrom::Current(n) => (self.at as i64 + n) as usize,
        };
        Ok(self.at as u64)
    }
}

/// what an index of `n` records may take: a vector of groups that has grown, the groups themselves
fn index(n: usize) -> i64 {
    let groups = n / CAP + 1;
    (groups * (CAP * 8 + 64) + 2 * (groups + 4) * 128 + 4096) as i64
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Iter,
    IterPart,
    Filtered,
    Nth,
    NthBeyond,
    Range,
    RangeFiltered,
    Reload,
    Rules,
}
const ROPS: [Op; 9] =
    [Op::Iter, Op::IterPart, Op::Filtered, Op::Nth, Op::NthBeyond, Op::Range, Op::RangeFiltered, Op::Reload, Op::Rules];

/// `p` is asked during iterations as well
fn apply(r: &mut Reader<Fixed>, op: Op, n: usize, i: usize, note: &mut dyn FnMut()) -> Result<(), String> {
    let e = |e: Error| errname(&e);
    match op {
        Op::Iter => {
            for x in r.iter() {
                x.map_err(e)?;
                note();
            }
        }
        Op::IterPart => {
            for x in r.iter().take(n / 2) {
                x.map_err(e)?;
                note();
            }
        }
        Op::Filtered => {
            for x in r.filtered() {
                x.map_err(e)?;
                note();
            }
        }
        Op::Nth => {
            for k in 0..7 {
                if n > 0 {
                    r.nth((i * 7 + k) * 37 % n).map_err(e)?;
                }
                note();
            }
        }
        Op::NthBeyond => {
            let _ = r.nth(n + i);
            let _ = r.nth(usize::MAX);
        }
        Op::Range => {
            for x in r.range(i.min(n), n / 2) {
                let _ = x;
                note();
            }
        }
        Op::RangeFiltered => {
            for x in r.range_filtered(i.min(n), n / 2) {
                let _ = x;
                note();
            }
        }
        Op::Reload => {
            r.reload().map_err(e)?;
        }
        Op::Rules => {
            r.add_rule(Rule::FilterByBlocks(brec::RuleFnDef::Dynamic(Box::new(move |_| i < usize::MAX)))).map_err(e)?;
            if r.add_rule(Rule::FilterByBlocks(brec::RuleFnDef::Static(|_| true))).is_ok() {
                return Err("a second rule of a kind is accepted".into());
            }
            r.remove_rule(brec::RuleDefId::FilterByBlocks);
        }
    }
    note();
    Ok(())
}

fn storage_readers(ctx: &Ctx) {
    let seqs = sequences(ROPS.len(), if ctx.thorough { 3 } else { 2 });
    let bases: &[usize] = if ctx.thorough { &[0, 1, 7, CAP, CAP + 3, 2 * CAP, 4 * CAP + 3] } else { &[0, 7, CAP + 3] };
    let rounds = if ctx.thorough { 24 } else { 12 };
    ctx.group("reader operation cycles", (seqs.len() * bases.len()) as u64);
    par(ctx, seqs.len() * bases.len(), |k| {
        let s: Vec<Op> = seqs[k / bases.len()].iter().map(|&i| ROPS[i]).collect();
        let n = bases[k % bases.len()];
        if s.is_empty() {
            return;
        }
        let img = base_image(n);
        let mut f = Fixed::new(img.len());
        f.d.extend(&img);
        drop(img);
        case(&format!("{s:?} over {n} records"));
        let res = catch(|| {
            let mut p = Peaks::new();
            // the file is given to the reader: it is counted before
            let mut r = Reader::new(f).map_err(|e| errname(&e))?;
            for i in 0..rounds {
                let second = i >= rounds / 2;
                for &op in &s {
                    let pp = &mut p;
                    apply(&mut r, op, n, i, &mut || pp.note(second))?;
                    ctx.tr(1);
                }
                tick();
            }
            p.check(512, index(n) + 16384 + 128 * n as i64)
        })
        .and_then(|x| x);
        ctx.st(1);
        ctx.trace(1);
        if let Err(e) = res {
            ctx.violation(format!("reader over {n} records doing {s:?} {rounds} times: {e}"));
        }
    });
}

/// a reader that follows a writer
fn followers(ctx: &Ctx) {
    let kinds = [0usize, 1, 2];
    let steps: &[usize] = &[1, 3, 7, CAP - 1, CAP, CAP + 1];
    let total = if ctx.thorough { 6 * CAP } else { 3 * CAP };
    ctx.group("followed writers", (kinds.len() * steps.len()) as u64);
    par(ctx, kinds.len() * steps.len(), |k| {
        let kind = kinds[k / steps.len()];
        let step = steps[k % steps.len()];
        case(&format!("a reader reloading after every {step} records of kind {kind}"));
        let r = catch(|| {
            let pk = fresh(kind);
            let dev = Dev::new(Vec::with_capacity(300 * total + 8 * CAP * 20));
            let mut w = Writer::new(dev.handle()).map_err(|e| errname(&e))?;
            let mut held = 0i64;
            let base = live_bytes();
            let mut rd = Reader::new(dev.handle()).map_err(|e| errname(&e))?;
            held += live_bytes() - base;
            let mut n = 0;
            while n < total {
                for _ in 0..step {
                    w.insert(pk.real()).map_err(|e| errname(&e))?;
                    n += 1;
                }
                // the log of operations of the device is not part of it
                dev.s.borrow_mut().ops.clear();
                dev.s.borrow_mut().ops.reserve(100_000);
                dev.take_log();
                let b2 = live_bytes();
                rd.reload().map_err(|e| errname(&e))?;
                held += live_bytes() - b2;
                if held > index(n) {
                    return Err(format!("after {n} records the reader holds {held} bytes, more than {}", index(n)));
                }
                ctx.tr(1);
                tick();
            }
            Ok(())
        })
        .and_then(|x| x);
        ctx.st(1);
        ctx.trace(1);
        if let Err(e) = r {
            ctx.violation(format!("reader reloading after every {step} records ({:?}): {e}", fresh(kind)));
        }
    });
}

/// writers: what they hold per record does not depend on the records
fn writers(ctx: &Ctx) {
    let sizes: &[usize] = &[0, 100, 3000, 9000];
    let total = if ctx.thorough { 6 * CAP } else { 2 * CAP + 50 };
    let fails = [0usize, 1, 3];
    let bases = [0usize, CAP - 1, CAP + 1];
    ctx.group("written storages", (sizes.len() * fails.len() * bases.len()) as u64);
    par(ctx, sizes.len() * fails.len() * bases.len(), |k| {
        let size = sizes[k % sizes.len()];
        let fail = fails[k / sizes.len() % fails.len()];
        let n0 = bases[k / sizes.len() / fails.len()];
        case(&format!("{total} records of {size} bytes after {n0}, {fail} failing insertions between"));
        let img = base_image(n0);
        let mut f = Fixed::new(img.len() + total * (size + 200) + (total / CAP + 2) * (CAP * 8 + 100));
        f.d.extend(&img);
        drop(img);
        let r = catch(|| {
            let pk = Pkt::new(vec![Blk::Tiny(3)], Some(Pl::Bytes(vec![5; size])));
            let bad = Pkt::new(vec![Blk::Tiny(5)], Some(Pl::Fail(vec![1; 300], 1 << 33)));
            let base = live_bytes();
            let mut w = Writer::new(f).map_err(|e| errname(&e))?;
            for i in 0..total {
                w.insert(pk.real()).map_err(|e| errname(&e))?;
                for _ in 0..fail {
                    if w.insert(bad.real()).is_ok() {
                        return Err("accepts a packet too large for the format".into());
                    }
                }
                let held = live_bytes() - base;
                let lim = index(n0 + i + 1);
                if held > lim {
                    return Err(format!("after {} records the writer holds {held} bytes, more than {lim}", i + 1));
                }
                ctx.tr(1);
            }
            tick();
            Ok(())
        })
        .and_then(|x| x);
        ctx.st(1);
        ctx.trace(1);
        if let Err(e) = r {
            ctx.violation(format!("writer over {n0} records inserting packets with {size} bytes of payload, {fail} refused insertions after each: {e}"));
        }
    });
}

/// BufferedReader in steady state: a cycle of operations over an endless source
fn buffered(ctx: &Ctx) {
    // 0 fill_buf, 1 refill, 2.. consume half / all of what is shown, 4 read 5, 5 read 100, 6 consume all but 100
    let seqs = sequences(7, if ctx.thorough { 6 } else { 5 });
    let chunks: &[usize] = &[1, 7, 64];
    ctx.group("buffered reader cycles", (seqs.len() * chunks.len()) as u64);
    let data: Vec<u8> = (0..251u8).collect();
    par(ctx, seqs.len(), |k| {
        let s = &seqs[k];
        // the cycle has to take as much as it brings in
        if !s.contains(&3) && !s.contains(&6) {
            return;
        }
        for &c in chunks {
            let r = catch(|| {
                let src = Cycle { data: &data, at: 0, left: usize::MAX / 2, chunk: c };
                let mut inner = BufReader::with_capacity(64, src);
                let mut p = Peaks::new();
                let mut r = BufferedReader::new(&mut inner);
                let mut buf = [0u8; 100];
                let rounds = 400;
                for i in 0..rounds {
                    for &op in s {
                        let io = |e: std::io::Error| e.to_string();
                        match op {
                            0 => {
                                r.fill_buf().map_err(io)?;
                            }
                            1 => r.refill().map_err(io)?,
                            2 => {
                                let n = r.fill_buf().map_err(io)?.len();
                                r.consume(n / 2);
                            }
                            3 => {
                                let n = r.fill_buf().map_err(io)?.len();
                                r.consume(n);
                            }
                            6 => {
                                let n = r.fill_buf().map_err(io)?.len();
                                r.consume(n.saturating_sub(100));
                            }
                            4 => {
                                r.read(&mut buf[..5]).map_err(io)?;
                            }
                            _ => {
                                r.read(&mut buf).map_err(io)?;
                            }
                        }
                        p.note(i >= rounds / 2);
                    }
                }
                p.check(512, 8 * 64 * s.len() as i64 + 2048)
            })
            .and_then(|x| x);
            ctx.st(1);
            ctx.tr(400);
            ctx.trace(1);
            if let Err(e) = r {
                ctx.violation(format!("BufferedReader over reads of {c} repeating {s:?} (0 look, 1 refill, 2 consume half, 3 consume all, 4 read 5, 5 read 100, 6 consume all but 100): {e}"));
            }
        }
    });
}

/// every way of reading a packet, repeatedly from one source: nothing stays
fn readings(ctx: &Ctx) {
    let pk = [
        Pkt::new(vec![Blk::Tiny(1)], None),
        Pkt::new(vec![Blk::Blob([1; 5])], Some(Pl::Bytes(vec![3; 2000]))),
        Pkt::new(vec![], Some(Pl::Str("text".into()))),
    ];
    ctx.group("repeated single reads", pk.len() as u64);
    for p in &pk {
        let mut enc = refc::packet(p);
        for cut in [0usize, 1, 5] {
            // the last one: damaged
            if cut == 5 {
                let m = enc.len() - 1;
                enc[m] ^= 1;
            }
            let r = catch(|| {
                let mut pe = Peaks::new();
                for i in 0..200 {
                    for rd in crate::readers::WHOLE {
                        let _ = rd.1(&enc[..enc.len() - cut % 5]);
                    }
                    pe.note(i >= 100);
                }
                pe.check(512, 65536)
            })
            .and_then(|x| x);
            ctx.st(1);
            ctx.tr(200);
            ctx.trace(1);
            if let Err(e) = r {
                ctx.violation(format!("reading {p:?} (cut or damaged: {cut}) again and again: {e}"));
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    streams(ctx);
    storage_readers(ctx);
    followers(ctx);
    writers(ctx);
    buffered(ctx);
    readings(ctx);
    ctx.assume("memory is counted at the allocator of the thread; operating system caches are not part of it");
}
