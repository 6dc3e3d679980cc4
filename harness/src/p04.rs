//! P04 damaged data is never accepted as different content.
use crate::dom::*;
use crate::model::*;
use crate::parts::*;
use crate::readers::*;
use crate::refc;
use crate::util::*;

/// a change of the bytes: XOR patterns at byte offsets
fn xor(b: &[u8], at: usize, pat: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for (i, p) in pat.iter().enumerate() {
        v[at + i] ^= p;
    }
    v
}

enum Target<'a> {
    Packet(&'a Pkt),
    Block(&'a Blk),
    Payload(&'a Pl),
    Header(u64, u64, u8),
}

fn header_reads(b: &[u8]) -> Vec<(&'static str, Result<(u64, u64, u8), Out>)> {
    use brec::prelude::*;
    use std::io::Cursor;
    let one = |r: Result<PacketHeader, Error>| r.map(|h| (h.size, h.blocks_len, h.payload as u8)).map_err(|e| Out::Err(errname(&e)));
    let st = |r: Result<ReadStatus<PacketHeader>, Error>| match r {
        Ok(ReadStatus::Success(h)) => Ok((h.size, h.blocks_len, h.payload as u8)),
        Ok(ReadStatus::NotEnoughData(n)) => Err(Out::Need(n)),
        Err(e) => Err(Out::Err(errname(&e))),
    };
    let p = |r: Result<Result<(u64, u64, u8), Out>, String>| r.unwrap_or_else(|e| Err(Out::Panic(e)));
    vec![
        ("PacketHeader ReadFrom", p(catch(|| one(<PacketHeader as ReadFrom>::read(&mut Cursor::new(b)))))),
        ("PacketHeader slice", p(catch(|| one(PacketHeader::read_from_slice(b, false))))),
        ("PacketHeader TryReadFrom", p(catch(|| st(<PacketHeader as TryReadFrom>::try_read(&mut Cursor::new(b)))))),
        ("PacketHeader TryReadFromBuffered", p(catch(|| st(<PacketHeader as TryReadFromBuffered>::try_read(&mut Cursor::new(b)))))),
    ]
}

fn check(ctx: &Ctx, t: &Target, paths: &[Path], bytes: &[u8], what: &dyn Fn() -> String) {
    ctx.st(1);
    let report = |name: &str, o: &Out, want: String| {
        ctx.violation(format!(
            "{name} gives {} for damaged bytes ({})\nwritten {want}\ndamaged bytes {}",
            format!("{o:?}").chars().take(500).collect::<String>(),
            what(),
            hex(bytes)
        ))
    };
    match t {
        Target::Packet(p) => {
            for &path in paths {
                let (o, _) = run(path, bytes);
                ctx.tr(1);
                match &o {
                    Out::Ok(q) if q == *p => {}
                    Out::Ok(_) | Out::Panic(_) => report(path.0, &o, format!("{p:?}")),
                    _ => {}
                }
            }
            // the extractor, to the end of the stream, in three different splits
            for sizes in [&[][..], &[13][..]] {
                ctx.tr(1);
                match catch(|| extract(&mut Chunks::new(bytes, sizes), 4 * bytes.len() + 64)) {
                    Ok(t) => {
                        for f in t.found() {
                            if f != *p {
                                report("PacketBufReader to the end", &Out::Ok(f.clone()), format!("{p:?}"));
                            }
                        }
                    }
                    Err(e) => report("PacketBufReader to the end", &Out::Panic(e), format!("{p:?}")),
                }
            }
        }
        Target::Header(a, b, c) => {
            for (name, o) in header_reads(bytes) {
                ctx.tr(1);
                match o {
                    // every bit of a header is covered, damaged ones are never accepted
                    Ok(h) => ctx.violation(format!("{name} gives (size, blocks, payload) {h:?} for damaged bytes ({}), written {:?}", what(), (a, b, c))),
                    Err(o @ Out::Panic(_)) => report(name, &o, format!("{:?}", (a, b, c))),
                    Err(_) => {}
                }
            }
        }
        Target::Block(b) => {
            let want = Out::Ok(Pkt::new(vec![(*b).clone()], None));
            for (name, o, _) in block_reads(b, bytes) {
                ctx.tr(1);
                match &o {
                    Out::Ok(_) if o == want => {}
                    Out::Ok(_) | Out::Panic(_) => report(name, &o, format!("{b:?}")),
                    _ => {}
                }
            }
        }
        Target::Payload(p) => {
            let want = Out::Ok(Pkt::new(vec![], Some((*p).clone())));
            for (name, o, _) in payload_reads(bytes) {
                ctx.tr(1);
                match &o {
                    Out::Ok(_) if o == want => {}
                    Out::Ok(_) | Out::Panic(_) => report(name, &o, format!("{p:?}")),
                    _ => {}
                }
            }
        }
    }
    ctx.trace(1);
}

struct Bounds {
    pairs: bool,
    burst: u32,
    all_bytes: bool,
}

/// the checksummed ranges of a packet, and whether the checksum follows directly
fn ranges(p: &Pkt) -> Vec<(usize, usize, bool)> {
    let mut v = vec![(8, 25, true)];
    let mut pos = refc::HDR;
    for b in &p.blocks {
        let n = refc::block(b).len();
        if !matches!(b, Blk::NoCrc(_)) {
            v.push((pos + 4, pos + n - 4, true));
        }
        pos += n;
    }
    if let Some(pl) = &p.payload {
        v.extend(payload_range(pl, pos));
    }
    v
}
fn payload_range(pl: &Pl, pos: usize) -> Vec<(usize, usize, bool)> {
    match pl {
        Pl::NoCrc(_) | Pl::Wide(_) | Pl::Sized(..) => vec![],
        _ => vec![(pos + refc::payload_header(pl).len(), pos + refc::payload(pl).len(), false)],
    }
}

/// which bytes may change without the library promising anything (types without a checksum)
fn unprotected(p: &Pkt) -> Vec<bool> {
    let enc = refc::packet(p);
    let mut v = vec![false; enc.len()];
    let mut pos = refc::HDR;
    for b in &p.blocks {
        let n = refc::block(b).len();
        if matches!(b, Blk::NoCrc(_)) {
            v[pos..pos + n].fill(true);
        }
        pos += n;
    }
    if matches!(p.payload, Some(Pl::NoCrc(_))) {
        v[pos..].fill(true);
    }
    v
}

fn explore(ctx: &Ctx, t: &Target, bytes: &[u8], skip: &[bool], ranges: &[(usize, usize, bool)], b: &Bounds) {
    let paths = all_paths();
    let n = bytes.len();
    let ok = |i: usize| !skip.get(i).copied().unwrap_or(false);
    // bursts made so that the checksums differ in as little as one bit
    for &(from, to, adjacent) in ranges {
        for (at, pat) in refc::sly_bursts(from, to, adjacent) {
            check(ctx, t, &paths, &xor(bytes, at, &pat), &|| format!("burst {} at byte {at}", hex(&pat)));
            if ctx.stopped() {
                return;
            }
        }
        tick();
    }
    // every truncation
    for k in 0..n {
        check(ctx, t, &paths, &bytes[..k], &|| format!("truncated to {k} of {n}"));
    }
    // every byte, every other value (or every bit and some values)
    for i in 0..n {
        if !ok(i) {
            continue;
        }
        for x in 1..=255u8 {
            if !b.all_bytes && x.count_ones() != 1 && ![0xff, 0x0f, 0x55].contains(&x) {
                continue;
            }
            check(ctx, t, &paths, &xor(bytes, i, &[x]), &|| format!("byte {i} ^= {x:#x}"));
        }
        // set to signature-like, zero and extreme values
        if ctx.stopped() {
            return;
        }
        case(&format!("bytes {} byte {i}", hex(bytes)));
    }
    // every pair of bits
    if b.pairs {
        for i in 0..n * 8 {
            for j in i + 1..n * 8 {
                if !ok(i / 8) || !ok(j / 8) || i / 8 == j / 8 {
                    continue;
                }
                let mut v = bytes.to_vec();
                v[i / 8] ^= 1 << (i % 8);
                v[j / 8] ^= 1 << (j % 8);
                check(ctx, t, &paths, &v, &|| format!("bits {i} and {j} flipped"));
            }
            case(&format!("bytes {} bit {i}", hex(bytes)));
            if ctx.stopped() {
                return;
            }
        }
    }
    // every burst of at most `burst` bits
    for s in 0..n * 8 {
        for pat in (1u64..1 << b.burst).step_by(2) {
            // pattern starts with a set bit, so each burst is visited once
            let width = 64 - pat.leading_zeros() as usize;
            if s + width > n * 8 || width <= 8 - s % 8 {
                continue; // out of range, or inside one byte (done above)
            }
            let sh = (pat as u128) << (s % 8);
            let len = (s % 8 + width).div_ceil(8);
            if !(0..len).all(|k| ok(s / 8 + k)) {
                continue;
            }
            let le = sh.to_le_bytes();
            check(ctx, t, &paths, &xor(bytes, s / 8, &le[..len]), &|| format!("burst {pat:#b} at bit {s}"));
        }
        case(&format!("bytes {} burst at {s}", hex(bytes)));
        if ctx.stopped() {
            return;
        }
    }
    // longer bursts: all-ones and ends-only of every width up to 32
    for s in 0..n * 8 {
        for width in 2..=32usize {
            if s + width > n * 8 {
                break;
            }
            for pat in [(1u64 << width) - 1, 1 | 1 << (width - 1), 0x5555_5555 & ((1 << width) - 1) | 1 << (width - 1) | 1] {
                let sh = (pat as u128) << (s % 8);
                let len = (s % 8 + width).div_ceil(8);
                if !(0..len).all(|k| ok(s / 8 + k)) {
                    continue;
                }
                let le = sh.to_le_bytes();
                check(ctx, t, &paths, &xor(bytes, s / 8, &le[..len]), &|| format!("burst {pat:#b} at bit {s}"));
            }
        }
        if ctx.stopped() {
            return;
        }
        tick();
    }
}

pub fn run_(ctx: &Ctx) {
    let mut pk = shapes();
    // every protected type once, and opted-out types next to protected ones
    for b in blocks_small() {
        pk.push(Pkt::new(vec![b, Blk::Tiny(1)], None));
    }
    for p in payloads_small().into_iter().flatten() {
        pk.push(Pkt::new(vec![Blk::Enum(1)], Some(p)));
    }
    pk.push(Pkt::new(vec![Blk::NoCrc(3), Blk::Tiny(2)], Some(Pl::NoCrc(4))));
    let blks: Vec<Blk> = blocks_small().into_iter().filter(|b| !matches!(b, Blk::NoCrc(_))).collect();
    let pls: Vec<Pl> =
        payloads_full(false).into_iter().filter(|p| !matches!(p, Pl::NoCrc(_))).filter(|p| refc::payload(p).len() < 90).collect();
    let pls: Vec<Pl> = if ctx.thorough { pls } else { pls.into_iter().step_by(7).collect() };
    ctx.group("packets", pk.len() as u64);
    ctx.group("single blocks", blks.len() as u64);
    ctx.group("single payloads", pls.len() as u64);
    let th = ctx.thorough;
    let limit = if th { 200 } else { 75 };
    let hdrs: Vec<(u64, u64, u8)> = [0u64, 1, 13, 255, 256, 4096, 1 << 32, u64::MAX]
        .iter()
        .flat_map(|&s| [(s, 0, 1), (s, s, 0), (s, s / 2, 1), (s, s, 1)])
        .collect();
    ctx.group("single packet headers", hdrs.len() as u64);
    par(ctx, hdrs.len(), |k| {
        let (s, bl, f) = hdrs[k];
        let bytes = refc::header(s, bl, f);
        let b = Bounds { pairs: true, burst: if th { 16 } else { 12 }, all_bytes: true };
        explore(ctx, &Target::Header(s, bl, f), &bytes, &[], &[(8, 25, true)], &b);
    });
    par(ctx, pk.len() + blks.len() + pls.len(), |k| {
        if k < pk.len() {
            let p = &pk[k];
            let bytes = refc::packet(p);
            let n = bytes.len();
            let b = Bounds {
                pairs: n <= limit,
                burst: if n > 250 { 4 } else if th { 12 } else { 8 },
                all_bytes: n <= 250 || th,
            };
            explore(ctx, &Target::Packet(p), &bytes, &unprotected(p), &ranges(p), &b);
            ctx.sample(|| format!("{p:?}: {n} bytes, pairs {}", b.pairs));
        } else if k < pk.len() + blks.len() {
            let blk = &blks[k - pk.len()];
            let bytes = refc::block(blk);
            let b = Bounds { pairs: bytes.len() < 110, burst: if th { 12 } else { 8 }, all_bytes: true };
            explore(ctx, &Target::Block(blk), &bytes, &[], &[(4, bytes.len() - 4, true)], &b);
        } else {
            let p = &pls[k - pk.len() - blks.len()];
            let bytes = refc::payload(p);
            let b = Bounds { pairs: th, burst: if th { 12 } else { 8 }, all_bytes: true };
            explore(ctx, &Target::Payload(p), &bytes, &[], &payload_range(p, 0), &b);
        }
    });
    ctx.assume("a change is in scope if it is a truncation, stays in one byte, flips two bits, or is a burst of the stated width; bytes of types declared without checksum are not altered");
}
