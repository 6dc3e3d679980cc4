//! P22 failures of the user's own payload code: every fallible call failing, in every operation.
use crate::dev::*;
use crate::dom::*;
use crate::model::*;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::storage::*;
use crate::util::*;
use brec::prelude::*;
use std::io::{Cursor, ErrorKind};

const KINDS: [ErrorKind; 5] =
    [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidData];

/// the n-th call (from 1) fails; gives the result and whether a call failed
fn fused<T>(n: u32, kind: ErrorKind, f: impl FnOnce() -> T) -> (Result<T, String>, bool) {
    FUSE.with(|c| c.set((n, Some(kind))));
    let r = catch(f);
    let left = FUSE.with(|c| c.replace((0, None)));
    (r, left.0 == 0)
}

const MAX_CALLS: u32 = 64;

fn write_op(p: &mut Packet, op: usize, out: &mut Vec<u8>) -> std::io::Result<()> {
    match op {
        0 => WriteMutTo::write_all(p, out),
        1 => WriteVectoredMutTo::write_vectored_all(p, out),
        2 => WriteMutTo::write(p, out).map(|_| ()),
        _ => WriteVectoredMutTo::write_vectored(p, out).map(|_| ()),
    }
}
const OPS: [&str; 4] = ["write_all", "write_vectored_all", "write", "write_vectored"];

/// calls with a growing fuse until it outlasts the call; `f(n)` gives false to stop
fn each_call(ctx: &Ctx, what: &str, mut f: impl FnMut(u32) -> bool) {
    for n in 1..=MAX_CALLS {
        ctx.st(1);
        ctx.tr(1);
        ctx.trace(1);
        if !f(n) {
            return;
        }
    }
    ctx.violation(format!("{what}: more than {MAX_CALLS} calls of the payload's code"));
}

fn bodies() -> Vec<Vec<u8>> {
    vec![vec![], vec![1], vec![1, 2], refc::packet(&Pkt::new(vec![Blk::Tiny(1)], None)), vec![7; 9001], vec![7; 9002]]
}

fn writes(ctx: &Ctx) {
    let bl = blocks_small();
    let mut pk: Vec<Pkt> = vec![];
    for b in bodies() {
        for s in sequences(bl.len(), if ctx.thorough { 2 } else { 1 }) {
            pk.push(Pkt::new(s.iter().map(|&i| bl[i].clone()).collect(), Some(Pl::Fail(b.clone(), 0))));
        }
    }
    ctx.group("packets written", pk.len() as u64);
    par(ctx, pk.len(), |k| {
        let p = &pk[k];
        let enc = refc::packet(p);
        let short = || format!("{p:?}").chars().take(300).collect::<String>();
        for op in 0..4 {
            for kind in KINDS {
                case(&format!("{} of {}, failing with {kind:?}", OPS[op], short()));
                each_call(ctx, &short(), |n| {
                    let mut out = vec![];
                    let mut real = p.real();
                    let (r, failed) = fused(n, kind, || write_op(&mut real, op, &mut out));
                    let bad = match &r {
                        Err(p) => Some(format!("panics: {p}")),
                        Ok(Ok(())) if failed => Some("reports success".to_string()),
                        Ok(Err(e)) if !failed => Some(format!("fails ({e}) although nothing failed")),
                        Ok(Ok(())) if out != enc => Some("writes other bytes".into()),
                        Ok(Err(_)) if !enc.starts_with(&out) => Some("delivers something that is not a prefix of the encoding".into()),
                        _ => None,
                    };
                    if let Some(b) = bad {
                        ctx.violation(format!("{} {b}, call {n} of the payload's code failing with {kind:?}: {}\ndelivered {}\nencoding {}", OPS[op], short(), hex(&out), hex(&enc)));
                        return false;
                    }
                    failed
                });
            }
        }
        // too large for the format
        for claim in [1u64 << 32, (1 << 32) + 1, (1 << 32) + 29, 1 << 33, 1 << 40] {
            for op in 0..4 {
                ctx.st(1);
                ctx.tr(1);
                let mut q = p.clone();
                if let Some(Pl::Fail(_, c)) = &mut q.payload {
                    *c = claim;
                }
                let mut out = vec![];
                let mut real = q.real();
                match catch(|| write_op(&mut real, op, &mut out)) {
                    Ok(Err(_)) => {}
                    Ok(Ok(())) => ctx.violation(format!("{} accepts a payload of {claim} bytes: {}", OPS[op], short())),
                    Err(e) => ctx.violation(format!("{} panics `{e}` for a payload of {claim} bytes: {}", OPS[op], short())),
                }
            }
        }
    });
}

fn inserts(ctx: &Ctx) {
    let bases: &[usize] = &[0, 1, 2, CAP - 1, CAP, CAP + 1, 2 * CAP - 1, 2 * CAP];
    let bs = bodies();
    let claims = [0u64, 1 << 32, (1 << 32) + 1, 1 << 36];
    ctx.group("insertions failing", (bases.len() * bs.len() * claims.len()) as u64);
    par(ctx, bases.len() * bs.len() * claims.len(), |k| {
        let n0 = bases[k / (bs.len() * claims.len())];
        let body = &bs[k / claims.len() % bs.len()];
        let claim = claims[k % claims.len()];
        for tail in if claim > 0 { &[0u32][..] } else { &[0, 1, 2][..] } {
            // `tail`: how many further insertions fail right afterwards
            each_call(ctx, "insertion", |n| {
                case(&format!("{n0} records, inserting {} bytes, call {n} fails, size claimed {claim}", body.len()));
                let dev = Dev::new(base_image(n0));
                let mut list = base_list(n0);
                let what = |s: String| format!("{s}\n{n0} records, then an insertion of {} bytes of payload (claimed {claim}), call {n} of its code failing, {tail} more failing", body.len());
                let mut w = match Writer::new(dev.handle()) {
                    Ok(w) => w,
                    Err(e) => {
                        ctx.violation(what(format!("opening: {}", errname(&e))));
                        return false;
                    }
                };
                let bad = Pkt::new(vec![Blk::Tiny(5)], Some(Pl::Fail(body.clone(), claim)));
                let (r, failed) = if claim > 0 {
                    (catch(|| w.insert(bad.real())), true)
                } else {
                    fused(n, ErrorKind::Other, || w.insert(bad.real()))
                };
                match r {
                    Ok(Ok(())) if failed => ctx.violation(what("reports success".into())),
                    Ok(Ok(())) => list.push(bad.clone()),
                    Ok(Err(e)) if !failed => ctx.violation(what(format!("fails without reason: {}", errname(&e)))),
                    Ok(Err(_)) => {}
                    Err(p) => ctx.violation(what(format!("panics: {p}"))),
                }
                if ctx.stopped() {
                    return false;
                }
                for _ in 0..*tail {
                    let _ = fused(n, ErrorKind::Other, || w.insert(bad.real())).0.map(|r| {
                        if r.is_ok() {
                            list.push(bad.clone())
                        }
                    });
                }
                if let Err(e) = image_shows(&dev.image(), &list) {
                    ctx.violation(what(format!("afterwards a reader: {e}")));
                    return false;
                }
                for i in 0..2 {
                    let good = fresh(700 + i);
                    match catch(|| w.insert(good.real())) {
                        Ok(Ok(())) => list.push(good),
                        Ok(Err(e)) => ctx.violation(what(format!("the next insertion fails: {}", errname(&e)))),
                        Err(p) => ctx.violation(what(format!("the next insertion panics: {p}"))),
                    }
                }
                if let Err(e) = image_shows(&dev.image(), &list) {
                    ctx.violation(what(format!("after the next insertions: {e}")));
                    return false;
                }
                failed && claim == 0 && !ctx.stopped()
            });
        }
    });
}

/// what cannot be decoded does not hide its neighbours
fn reads(ctx: &Ctx) {
    let bl = [Pkt::new(vec![Blk::Tiny(1)], None), Pkt::new(vec![Blk::Enum(7)], Some(Pl::Str("text".into()))), Pkt::new(vec![], Some(Pl::Fail(vec![4, 5], 0)))];
    let mut poisoned: Vec<Pkt> = vec![];
    for len in [1usize, 2, 40, 9000] {
        for blocks in [vec![], vec![Blk::Tiny(3)], vec![Blk::NoCrc(1), Blk::Mix(1, [2; 3], 4, [5; 2])]] {
            let mut raw = vec![PFAIL_POISON];
            raw.extend((1..len).map(|i| i as u8));
            poisoned.push(Pkt::new(blocks, Some(Pl::Fail(raw, 0))));
        }
    }
    // one by one
    for p in &poisoned {
        for path in all_paths() {
            if path.0.contains("pieces") {
                continue;
            }
            ctx.st(1);
            ctx.tr(1);
            let (o, _) = crate::readers::run(path, &refc::packet(p));
            if matches!(o, Out::Ok(_) | Out::Panic(_)) {
                ctx.violation(format!("{}: {o:?} for a payload that cannot be decoded", path.0));
            }
        }
    }
    // every call of the payload's code failing once, per reading path
    for p in [&bl[2], &Pkt::new(vec![Blk::Tiny(9), Blk::Unit], Some(Pl::Fail(vec![1, 2, 3], 0)))] {
        let enc = refc::packet(p);
        for path in all_paths() {
            for kind in KINDS {
                case(&format!("{} of {p:?} failing with {kind:?}", path.0));
                each_call(ctx, path.0, |n| {
                    let (r, failed) = fused(n, kind, || crate::readers::run(path, &enc).0);
                    match r {
                        Ok(Out::Ok(_)) if failed => ctx.violation(format!("{} succeeds although call {n} of the payload's code failed with {kind:?}", path.0)),
                        Ok(Out::Ok(q)) if q == *p => {}
                        Ok(Out::Panic(e)) => ctx.violation(format!("{} panics `{e}`, call {n} of the payload's code failing with {kind:?}", path.0)),
                        Err(e) => ctx.violation(format!("{} panics `{e}`, call {n} of the payload's code failing with {kind:?}", path.0)),
                        Ok(_) if failed => {}
                        Ok(o) => ctx.violation(format!("{}: {o:?} although nothing failed", path.0)),
                    }
                    failed && !ctx.stopped()
                });
            }
        }
    }
    // sequences of good and poisoned packets: stream and storage
    let depth = if ctx.thorough { 5 } else { 4 };
    let seqs = sequences(4, depth);
    ctx.group("sequences with undecodable packets", (seqs.len() * poisoned.len()) as u64);
    par(ctx, seqs.len() * poisoned.len(), |k| {
        let s = &seqs[k / poisoned.len()];
        let bad = &poisoned[k % poisoned.len()];
        let list: Vec<&Pkt> = s.iter().map(|&i| if i < 3 { &bl[i] } else { bad }).collect();
        let good: Vec<&Pkt> = s.iter().filter(|&&i| i < 3).map(|&i| &bl[i]).collect();
        let bytes: Vec<u8> = list.iter().flat_map(|p| refc::packet(p)).collect();
        case(&format!("{s:?} with {:?}", bad.blocks));
        ctx.st(1);
        for sizes in [&[][..], &[1][..], &[13][..], &[100][..]] {
            if sizes == [1] && bytes.len() > 9000 && s.len() > 2 {
                continue;
            }
            ctx.tr(1);
            ctx.trace(1);
            match catch(|| extract(&mut Chunks::new(&bytes, sizes), 6 * bytes.len() + 64)) {
                Ok(t) => {
                    if t.found() != good || t.errors() != list.len() - good.len() || !t.ended || !t.ignored.is_empty() {
                        ctx.violation(format!("extractor over {s:?} (3 cannot be decoded) in reads of {sizes:?}: {} packets of {}, {} errors, {} ignored bytes, ended {}", t.found().len(), good.len(), t.errors(), t.ignored.len(), t.ended));
                    }
                }
                Err(e) => ctx.violation(format!("extractor over {s:?} panics: {e}")),
            }
        }
        if s.is_empty() || bad.blocks.len() == 1 && !ctx.thorough {
            return;
        }
        let dev = Dev::new(vec![]);
        let r = catch(|| -> Result<(), String> {
            let mut w = Writer::new(dev.handle()).map_err(|e| errname(&e))?;
            for p in &list {
                w.insert(p.real()).map_err(|e| format!("insert: {}", errname(&e)))?;
            }
            let mut r = Reader::new(Cursor::new(dev.image())).map_err(|e| format!("open: {}", errname(&e)))?;
            if r.count() != list.len() {
                return Err(format!("count() is {}", r.count()));
            }
            let shown = |name: &str, i: usize, x: Option<Result<Packet, Error>>| -> Result<(), String> {
                match (x, s[i] < 3) {
                    (Some(Ok(p)), true) if Pkt::of(&p) == *list[i] => Ok(()),
                    (Some(Err(_)), false) => Ok(()),
                    (Some(Ok(p)), _) => Err(format!("{name}: record {i} is {:?}", Pkt::of(&p))),
                    (Some(Err(e)), _) => Err(format!("{name}: record {i} gives {}", errname(&e))),
                    (None, _) => Err(format!("{name}: record {i} is missing")),
                }
            };
            for pass in 0..2 {
                for i in 0..list.len() {
                    shown("nth", i, r.nth(i).transpose())?;
                }
                let mut it = r.iter();
                for i in 0..list.len() {
                    shown("iter", i, it.next())?;
                }
                if it.next().is_some() {
                    return Err("iter: too many records".into());
                }
                drop(it);
                for from in 0..list.len() {
                    let mut it = r.range(from, list.len());
                    for i in from..list.len() {
                        shown("range", i, it.next())?;
                    }
                    drop(it);
                    let mut it = r.range_filtered(from, list.len() + pass);
                    for i in from..list.len() {
                        shown("range_filtered", i, it.next())?;
                    }
                    drop(it);
                    let mut it = r.seek(from).map_err(|e| format!("seek: {}", errname(&e)))?;
                    for i in from..list.len() {
                        shown("seek", i, it.next())?;
                    }
                }
                let mut it = r.filtered();
                for i in 0..list.len() {
                    shown("filtered", i, it.next())?;
                }
                if it.next().is_some() {
                    return Err("filtered: too many records".into());
                }
            }
            Ok(())
        });
        ctx.tr(1);
        ctx.trace(1);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => ctx.violation(format!("storage of {s:?} (3 cannot be decoded): {e}")),
            Err(p) => ctx.violation(format!("storage of {s:?} panics: {p}")),
        }
    });
}

pub fn run(ctx: &Ctx) {
    writes(ctx);
    inserts(ctx);
    reads(ctx);
    ctx.assume("the payload's code fails by returning an error; its size, when it succeeds, is the true one");
}
