//! P26: every reading path gives the same answer for the same bytes, whatever they are.
use crate::dom::*;
use crate::model::*;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::storage::{collect, CAP};
use crate::util::*;
use brec::prelude::*;
use std::io::Cursor;

/// what a path says, without the kind of refusal
fn verdict(o: Out) -> Result<Option<Pkt>, String> {
    match o {
        Out::Ok(p) => Ok(Some(p)),
        Out::Panic(p) => Err(p),
        _ => Ok(None),
    }
}

/// `bytes` begins with a whole packet header announcing `size` bytes which are present; `size` of None: not a header
fn probe(ctx: &Ctx, bytes: &[u8], len: Option<usize>, what: &dyn Fn() -> String) {
    ctx.st(1);
    ctx.trace(1);
    case(&hex(&bytes[..bytes.len().min(400)]));
    let mut first: Option<(&str, Option<Pkt>)> = None;
    for path in WHOLE {
        ctx.tr(1);
        let (o, n) = run(*path, bytes);
        let v = match verdict(o) {
            Ok(v) => v,
            Err(p) => {
                ctx.violation(format!("{} panics: {p}\n{}\nbytes {}", path.0, what(), hex(bytes)));
                return;
            }
        };
        // the extractor goes on searching behind what it refuses
        let v = if path.0.starts_with("PacketBufReader") { first_event(bytes, path.0.contains("1-byte")) } else { v };
        if let (Some(_), Some(len)) = (&v, len) {
            if n != usize::MAX && n != len {
                ctx.violation(format!("{} takes {n} bytes of a packet with {len}\n{}\nbytes {}", path.0, what(), hex(bytes)));
                return;
            }
        }
        match &first {
            None => first = Some((path.0, v)),
            Some((name, w)) if *w != v => {
                ctx.violation(format!("{name} gives {w:?}, {} gives {v:?}\n{}\nbytes {}", path.0, what(), hex(bytes)));
                return;
            }
            _ => {}
        }
    }
    // a stored record with these bytes
    if let Some(len) = len {
        let v = first.unwrap().1;
        let img = refc::storage(&[bytes[..len].to_vec()]);
        let r = catch(|| {
            let mut r = Reader::new(Cursor::new(img.clone())).map_err(|e| errname(&e))?;
            let a = r.nth(0).ok().flatten().map(|p| Pkt::of(&p));
            let b = collect(r.iter()).ok().and_then(|v| v.into_iter().next());
            let c = collect(r.range(0, 1)).ok().and_then(|v| v.into_iter().next());
            let d = collect(r.filtered()).ok().and_then(|v| v.into_iter().next());
            let e = collect(r.range_filtered(0, 1)).ok().and_then(|v| v.into_iter().next());
            Ok::<_, String>([a, b, c, d, e])
        });
        ctx.tr(5);
        match r {
            Ok(Ok(a)) => {
                for (i, x) in a.into_iter().enumerate() {
                    if x != v {
                        ctx.violation(format!("{} of a storage gives {x:?} for a record, the others {v:?}\n{}\nbytes {}", ["nth", "iter", "range", "filtered", "range_filtered"][i], what(), hex(&bytes[..len])));
                        return;
                    }
                }
            }
            Ok(Err(e)) => ctx.violation(format!("the storage is not opened: {e}\n{}", what())),
            Err(p) => ctx.violation(format!("a storage read panics: {p}\n{}\nbytes {}", what(), hex(bytes))),
        }
        let _ = CAP;
    }
}

/// what the extractor says about the packet at the beginning
fn first_event(bytes: &[u8], bytewise: bool) -> Option<Pkt> {
    let sizes: &[usize] = if bytewise { &[1] } else { &[] };
    let t = extract(&mut Chunks::new(bytes, sizes), 4 * bytes.len() + 64);
    for e in t.evs {
        match e {
            Ev::Found(p) => return Some(p),
            Ev::Err(_) | Ev::NoData => return None,
            _ => {}
        }
    }
    None
}

fn fix(mut b: Vec<u8>) -> Vec<u8> {
    if b.len() >= 29 {
        let c = refc::crc32(&b[8..25]).to_le_bytes();
        b[25..29].copy_from_slice(&c);
    }
    b
}

fn pieces() -> Vec<(&'static str, Vec<u8>)> {
    let tiny = refc::block(&Blk::Tiny(7));
    let flag = refc::block(&Blk::Bool(true, false));
    let nocrc = refc::block(&Blk::NoCrc(0x0102));
    let en = refc::block(&Blk::Enum(7));
    let odd = |b: &[u8], i: usize, v: u8| {
        let mut b = b.to_vec();
        b[i] = v;
        b
    };
    vec![
        ("block", tiny.clone()),
        ("unchecked block", nocrc.clone()),
        ("flags", flag.clone()),
        ("flags with 2 for true", odd(&flag, 4, 2)),
        ("flags with 2 for false", odd(&flag, 5, 2)),
        ("flags with 2 checksummed as such", {
            let mut b = odd(&flag, 4, 2);
            let c = refc::crc32(&b[4..6]).to_le_bytes();
            b[6..10].copy_from_slice(&c);
            b
        }),
        ("unknown kind", {
            let mut b = odd(&en, 4, 0xee);
            let c = refc::crc32(&b[4..5]).to_le_bytes();
            b[5..9].copy_from_slice(&c);
            b
        }),
        ("damaged block", odd(&tiny, 4, 9)),
        ("unknown block", odd(&tiny, 0, 0x99)),
        ("half a block", tiny[..5].to_vec()),
        ("unchecked block with a checksum", odd(&nocrc, 7, 1)),
        ("unit", refc::block(&Blk::Unit)),
    ]
}

fn payloads() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![("nothing".to_string(), vec![])];
    for p in [
        Pl::Str("ab".into()),
        Pl::Str(String::new()),
        Pl::Bytes(vec![1, 2, 3]),
        Pl::Tiny(3),
        Pl::EnumC(5, true),
        Pl::NoCrc(9),
        Pl::Wide(8),
        Pl::Manual(vec![4]),
        Pl::Struct { a: 1, s: "x".into(), v: vec![], o: None },
    ] {
        let e = refc::payload(&p);
        let h = refc::payload_header(&p).len();
        v.push((format!("{p:?}"), e.clone()));
        // every byte of the payload header and some of the body in other ways
        for i in 0..e.len() {
            for x in [e[i] ^ 1, e[i] ^ 0x80, e[i].wrapping_add(2), 0, 0xff] {
                if x == e[i] || (i >= 1 && i + 12 < h) {
                    continue;
                }
                let mut b = e.clone();
                b[i] = x;
                v.push((format!("{p:?}, byte {i} as {x}"), b));
            }
        }
        for k in 0..e.len() {
            v.push((format!("the first {k} bytes of {p:?}"), e[..k].to_vec()));
        }
        v.push((format!("{p:?} and one byte"), [&e[..], &[0]].concat()));
        v.push((format!("{p:?} twice"), [&e[..], &e].concat()));
        // body longer than its value (bincode takes what it needs), all lengths and checksums as announced
        let body = refc::payload_body(&p);
        let n = h - 4;
        for extra in [vec![0u8], vec![0; 9]] {
            let long = [&body[..], &extra].concat();
            let mut b = e[..h].to_vec();
            b[n..h].copy_from_slice(&(long.len() as u32).to_le_bytes());
            for crc_of in [&body, &long] {
                let mut c = b.clone();
                if h > 13 {
                    let at = n - 4;
                    c[at..n].copy_from_slice(&refc::crc32(crc_of).to_le_bytes());
                }
                c.extend(&long);
                v.push((format!("{p:?} with {} bytes behind the value, checksum of {} bytes", extra.len(), crc_of.len()), c));
            }
        }
    }
    v
}

pub fn run_(ctx: &Ctx) {
    let pcs = pieces();
    let pls = payloads();
    let seqs = sequences(pcs.len(), 2);
    ctx.group("sequences of block pieces", seqs.len() as u64);
    ctx.group("payload pieces", pls.len() as u64);
    let next = refc::packet(&Pkt::new(vec![Blk::Tiny(1)], Some(Pl::Str("n".into()))));
    let tails: [(&str, Vec<u8>); 4] = [("nothing", vec![]), ("a packet", next.clone()), ("a block", refc::block(&Blk::Tiny(7))), ("zeros", vec![0; 40])];
    // 1. everything consistent with the header: block pieces x payload pieces
    par(ctx, seqs.len(), |k| {
        let s = &seqs[k];
        let blocks: Vec<u8> = s.iter().flat_map(|&i| pcs[i].1.clone()).collect();
        let names: Vec<_> = s.iter().map(|&i| pcs[i].0).collect();
        for (pn, pl) in &pls {
            if s.len() == 2 && !ctx.thorough && pn.contains("byte ") {
                continue;
            }
            for flag in [0u8, 1, 2] {
                if flag == 2 && (s.len() > 1 || !pl.is_empty()) {
                    continue;
                }
                let mut b = refc::header((blocks.len() + pl.len()) as u64, blocks.len() as u64, flag);
                b.extend(&blocks);
                b.extend(pl);
                let n = b.len();
                for (tn, t) in &tails[..if s.len() < 2 || ctx.thorough { 4 } else { 2 }] {
                    let mut b = b.clone();
                    b.extend(t);
                    probe(ctx, &b, Some(n), &|| format!("{names:?}, payload flag {flag}, {pn}, then {tn}"));
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // 2. headers that announce something else
    let firm: Vec<Pkt> = shapes().into_iter().filter(|p| refc::packet(p).len() < 400).collect();
    ctx.group("packets with other lengths announced", firm.len() as u64);
    par(ctx, firm.len(), |k| {
        let p = &firm[k];
        let e = refc::packet(p);
        let body = &e[29..];
        let bl: usize = p.blocks.iter().map(|b| refc::block(b).len()).sum();
        for size in 0..=body.len() + 60 {
            let mut bls: Vec<usize> = if ctx.thorough || body.len() < 60 { (0..=size + 3).collect() } else { vec![0, 1, 4, 8, 9] };
            bls.extend([bl, bl + 1, bl.saturating_sub(1), bl + 9, bl.saturating_sub(9), size, size + 1, size.saturating_sub(1), body.len(), 1 << 20]);
            bls.sort();
            bls.dedup();
            for bl in bls {
                for flag in [0u8, 1] {
                    for (tn, t) in &tails {
                        let mut b = refc::header(size as u64, bl as u64, flag);
                        b.extend(body);
                        b.extend(t);
                        if b.len() < 29 + size {
                            continue;
                        }
                        probe(ctx, &b, Some(29 + size), &|| format!("{p:?} with size {size}, blocks {bl} and flag {flag} announced, then {tn}"));
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    });
    // 3. every byte of every packet at every value, with and without the header's checksum made to fit
    ctx.group("packets with every byte at every value", firm.len() as u64);
    par(ctx, firm.len(), |k| {
        let p = &firm[k];
        let e = refc::packet(p);
        for i in 0..e.len() {
            for v in 0..=255u8 {
                if v == e[i] || (!ctx.thorough && i >= 29 && v.count_ones() > 1 && v < 250) {
                    continue;
                }
                let mut b = e.clone();
                b[i] = v;
                let n = e.len();
                for (fit, b) in [(false, b.clone()), (true, fix(b.clone()))] {
                    if fit && i >= 29 {
                        continue;
                    }
                    // the announced size may be more than there is
                    let ok = refc::valid_header(&b).is_some_and(|h| h.0 as usize == n - 29);
                    if i < 8 || !fit && i < 29 {
                        // not a packet header
                        probe_none(ctx, &b, &|| format!("{p:?} with byte {i} as {v}"));
                    } else if ok {
                        probe(ctx, &b, Some(n), &|| format!("{p:?} with byte {i} as {v}, header checksum fits"));
                    } else if refc::valid_header(&b).is_some_and(|h| h.0 < n as u64 - 29) {
                        let m = 29 + refc::valid_header(&b).unwrap().0 as usize;
                        probe(ctx, &b, Some(m), &|| format!("{p:?} with byte {i} as {v}, header checksum fits"));
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        }
    });
}

/// no path may find a packet at the beginning of these bytes
fn probe_none(ctx: &Ctx, bytes: &[u8], what: &dyn Fn() -> String) {
    ctx.st(1);
    ctx.trace(1);
    for path in WHOLE.iter().filter(|p| !p.0.starts_with("PacketBufReader")) {
        ctx.tr(1);
        if let (Out::Ok(p), _) = run(*path, bytes) {
            ctx.violation(format!("{} gives {p:?} although the header is not valid\n{}\nbytes {}", path.0, what(), hex(bytes)));
            return;
        }
    }
}

pub fn check(ctx: &Ctx) {
    run_(ctx);
    ctx.assume("answers are compared as: which packet is returned, or none; the kind of refusal may differ");
}
