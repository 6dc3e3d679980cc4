//! P10 no input can crash a reader: no panic, no endless loop, no memory out of proportion.
use crate::dom::*;
use crate::model::*;
use crate::parts::*;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::util::*;
use std::io::Cursor;

/// what a reader may ask for in one allocation, given `n` bytes of input
fn bound(n: usize) -> usize {
    16 * n + (1 << 20) + (64 << 10)
}

fn probe(ctx: &Ctx, bytes: &[u8], parts: bool, what: &dyn Fn() -> String) {
    ctx.st(1);
    ctx.trace(1);
    case(&hex(bytes));
    let fail = |name: &str, msg: String| ctx.violation(format!("{name}: {msg} ({})\ninput {}", what(), hex(bytes)));
    for path in all_paths() {
        alloc_reset();
        let (o, _) = run(path, bytes);
        let m = alloc_max();
        ctx.tr(1);
        if let Out::Panic(p) = o {
            fail(path.0, format!("panics: {p}"));
        }
        if m > bound(bytes.len()) {
            fail(path.0, format!("allocates {m} bytes at once for {} bytes of input", bytes.len()));
        }
    }
    for sizes in [&[][..], &[1][..], &[29][..]] {
        alloc_reset();
        let max = 8 * bytes.len() + 64;
        let t = catch(|| extract(&mut Chunks::new(bytes, sizes), max));
        let m = alloc_max();
        ctx.tr(1);
        match t {
            Err(p) => fail("PacketBufReader", format!("panics: {p} (reads of {sizes:?})")),
            Ok(t) if !t.ended => fail("PacketBufReader", format!("has not reached the end after {} calls (reads of {sizes:?})", t.calls)),
            Ok(_) => {}
        }
        if m > bound(bytes.len()) {
            fail("PacketBufReader", format!("allocates {m} bytes at once for {} bytes of input", bytes.len()));
        }
    }
    if parts {
        part(ctx, bytes, what);
    }
}

fn part(ctx: &Ctx, bytes: &[u8], what: &dyn Fn() -> String) {
    ctx.st(1);
    let fail = |name: &str, msg: String| ctx.violation(format!("{name}: {msg} ({})\ninput {}", what(), hex(bytes)));
    alloc_reset();
    let mut res = vec![];
    for b in blocks_small() {
        if matches!(b, Blk::Tiny(0)) {
            continue;
        }
        res.extend(block_reads(&b, bytes));
    }
    res.extend(payload_reads(bytes));
    let m = alloc_max();
    ctx.tr(res.len() as u64);
    for (name, o, _) in res {
        if let Out::Panic(p) = o {
            fail(name, format!("panics: {p}"));
        }
    }
    if m > bound(bytes.len()) {
        fail("single block or payload", format!("allocates {m} bytes at once for {} bytes of input", bytes.len()));
    }
}

const EDGE: &[u64] = &[
    0, 1, 4, 8, 9, 10, 12, 17, 18, 26, 28, 29, 30, 38, 255, 256, 4096, 65535, 65536, 1 << 20, 0x7fff_ffff, 0x8000_0000,
    0xffff_fff0, 0xffff_ffff, 0x1_0000_0000, 1 << 40, i64::MAX as u64 - 29, i64::MAX as u64, 1 << 63, u64::MAX - 58,
    u64::MAX - 30, u64::MAX - 29, u64::MAX - 28, u64::MAX - 9, u64::MAX - 1, u64::MAX,
];

pub fn run_(ctx: &Ctx) {
    HANG_LIMIT_S.store(60, std::sync::atomic::Ordering::Relaxed);
    // 1. short strings over a critical alphabet
    let alpha: &[u8] = &[0x00, 0xec, 0x25, 0x5e, 0x88, 0xff];
    let depth = if ctx.thorough { 8 } else { 6 };
    let seqs = sequences(alpha.len(), depth);
    ctx.group("short strings", seqs.len() as u64);
    par(ctx, seqs.len().div_ceil(512), |k| {
        for s in seqs.iter().skip(k * 512).take(512) {
            let b: Vec<u8> = s.iter().map(|&i| alpha[i]).collect();
            probe(ctx, &b, b.len() <= 5, &|| "short string".into());
        }
    });
    drop(seqs);
    // ... and behind every beginning of a header
    let heads: Vec<Vec<u8>> = {
        let p = refc::packet(&shapes()[5]);
        (0..p.len()).map(|k| p[..k].to_vec()).collect()
    };
    let tails = sequences(alpha.len(), if ctx.thorough { 4 } else { 3 });
    ctx.group("heads with tails", (heads.len() * tails.len()) as u64);
    par(ctx, heads.len(), |i| {
        for t in &tails {
            let mut b = heads[i].clone();
            b.extend(t.iter().map(|&i| alpha[i]));
            probe(ctx, &b, false, &|| format!("{i} bytes of a packet, then others"));
        }
    });
    // 2. announced lengths, all with a valid header checksum
    let bodies: Vec<Vec<u8>> = {
        let p = shapes();
        let mut v: Vec<Vec<u8>> = p.iter().map(|p| refc::packet(p)[29..].to_vec()).collect();
        v.push(vec![0; 9]);
        v.push(refc::block(&Blk::Tiny(1))[..5].to_vec());
        v.push([refc::block(&Blk::Tiny(1)), refc::payload(&Pl::Tiny(3)), refc::packet(&p[1])].concat());
        v.push(vec![0xff; 300]);
        v.push(sig_bytes(80));
        v.push((0..256).flat_map(|i| refc::block(&Blk::Tiny(i as u8))).collect());
        v
    };
    ctx.group("forged packet headers", (bodies.len() * EDGE.len() * EDGE.len() * 3) as u64);
    par(ctx, bodies.len() * EDGE.len(), |k| {
        let body = &bodies[k / EDGE.len()];
        let n = body.len() as u64;
        let size0 = EDGE[k % EDGE.len()];
        let rel = |e: u64| [e, n.wrapping_add(e), n.wrapping_sub(e)];
        for (j, &bl) in EDGE.iter().enumerate() {
            for size in rel(size0) {
                for bl in if j < 12 { rel(bl).to_vec() } else { vec![bl] } {
                    for flag in [0u8, 1, 2] {
                        let mut b = refc::header(size, bl, flag);
                        b.extend(body);
                        probe(ctx, &b, false, &|| format!("header announces size {size}, blocks {bl}, payload flag {flag}, {n} bytes follow"));
                    }
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // every payload flag value
    par(ctx, 256, |f| {
        for body in &bodies {
            let mut b = refc::header(body.len() as u64, 0, f as u8);
            b.extend(body);
            probe(ctx, &b, false, &|| format!("flag {f}"));
        }
    });
    // 3. forged payload headers: every signature length, every checksum length, edge body lengths
    let pls: Vec<Pl> = payloads_small().into_iter().flatten().collect();
    ctx.group("payload header lengths", 65536);
    par(ctx, 256, |sl| {
        for cl in 0..256usize {
            // consistent lengths
            let mut p = vec![sl as u8];
            p.extend(vec![0x5a; sl]);
            p.push(cl as u8);
            p.extend(vec![1u8; cl]);
            p.extend(3u32.to_le_bytes());
            p.extend([1, 2, 3]);
            part(ctx, &p, &|| format!("payload header with lengths {sl}, {cl}"));
            if sl % 8 == 4 || cl % 8 == 4 || ctx.thorough {
                let mut b = refc::header(p.len() as u64, 0, 1);
                b.extend(&p);
                probe(ctx, &b, false, &|| format!("payload header with lengths {sl}, {cl}"));
            }
            // lengths that run past the data
            for cut in [1usize, 2, 5] {
                if p.len() > cut {
                    part(ctx, &p[..p.len().min(sl + cut)], &|| format!("payload header with lengths {sl}, {cl}, cut"));
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    par(ctx, pls.len(), |i| {
        let pl = &pls[i];
        let h = refc::payload_header(pl);
        let body = refc::payload_body(pl);
        for &len in EDGE.iter().filter(|e| **e <= u32::MAX as u64) {
            for extra in [0usize, 1, 40] {
                let mut p = h[..h.len() - 4].to_vec();
                p.extend((len as u32).to_le_bytes());
                p.extend(&body);
                p.extend(vec![0xEE; extra]);
                part(ctx, &p, &|| format!("payload announces {len} bytes, {} follow", body.len() + extra));
                let mut b = refc::header(p.len() as u64, 0, 1);
                b.extend(&p);
                probe(ctx, &b, false, &|| format!("payload announces {len} bytes, {} follow", body.len() + extra));
            }
        }
    });
    // 4. forged contents of encoded payloads: every 8-byte window replaced by an edge value
    par(ctx, pls.len(), |i| {
        let pl = &pls[i];
        let body = refc::payload_body(pl);
        let h = refc::payload_header(pl);
        for at in 0..body.len().saturating_sub(7) {
            for &e in EDGE {
                let mut nb = body.clone();
                nb[at..at + 8].copy_from_slice(&e.to_le_bytes());
                let mut p = h.clone();
                let crc = refc::crc32(&nb).to_le_bytes();
                let k = p.len() - 8;
                p[k..k + 4].copy_from_slice(&crc);
                p.extend(&nb);
                part(ctx, &p, &|| format!("encoded length at {at} is {e}"));
                let mut b = refc::header(p.len() as u64, 0, 1);
                b.extend(&p);
                probe(ctx, &b, false, &|| format!("encoded length at {at} is {e}"));
            }
        }
    });
    // 5. every truncation and every byte value at every position of valid packets
    let pk: Vec<Pkt> = shapes();
    par(ctx, pk.len() * 32, |k| {
        let b = refc::packet(&pk[k / 32]);
        for i in 0..b.len() {
            if i % 32 != k % 32 {
                continue;
            }
            probe(ctx, &b[..i], true, &|| "truncated".into());
            for x in 1..=255u8 {
                let mut v = b.clone();
                v[i] ^= x;
                probe(ctx, &v, false, &|| format!("byte {i} ^ {x:#x}"));
                // and with the header checksum made valid again
                if (8..25).contains(&i) {
                    let c = refc::crc32(&v[8..25]).to_le_bytes();
                    v[25..29].copy_from_slice(&c);
                    probe(ctx, &v, false, &|| format!("byte {i} ^ {x:#x}, header checksum valid"));
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    // single blocks: every truncation, every byte value, valid checksum again
    let bs = blocks_small();
    par(ctx, bs.len(), |k| {
        let b = refc::block(&bs[k]);
        for i in 0..b.len() {
            part(ctx, &b[..i], &|| "truncated block".into());
            if b.len() > 200 && i % 16 != 3 {
                continue;
            }
            for x in 0..=255u8 {
                let mut v = b.clone();
                v[i] = x;
                part(ctx, &v, &|| format!("block byte {i} = {x:#x}"));
                if i >= 4 && i < b.len() - 4 {
                    let n = b.len();
                    let c = refc::crc32(&v[4..n - 4]).to_le_bytes();
                    v[n - 4..].copy_from_slice(&c);
                    part(ctx, &v, &|| format!("block byte {i} = {x:#x}, checksum valid"));
                    let mut p = refc::header(n as u64, n as u64, 0);
                    p.extend(&v);
                    probe(ctx, &p, false, &|| format!("block byte {i} = {x:#x}, checksum valid"));
                }
            }
        }
    });
    storages(ctx);
    ctx.assume("one allocation may take 16 times the input plus about 1 MiB; user-supplied decoders are not hostile");
}

/// 6. forged storage metadata with a valid checksum
fn storages(ctx: &Ctx) {
    let pk: Vec<Vec<u8>> = [1usize, 5, 3].iter().map(|&i| refc::packet(&shapes()[i])).collect();
    let body: Vec<u8> = pk.concat();
    let lens: Vec<u64> = pk.iter().map(|p| p.len() as u64).collect();
    let mut images: Vec<(String, Vec<u8>)> = vec![];
    // capacities
    for &c in EDGE.iter().chain(&[499, 500, 501, 502]) {
        for valid in [true, false] {
            let mut s = refc::slot(&lens);
            s[8..16].copy_from_slice(&c.to_le_bytes());
            if valid {
                let crc = refc::crc32(&s[8..4016]).to_le_bytes();
                s[4016..].copy_from_slice(&crc);
            }
            let mut img = s.clone();
            img.extend(&body);
            images.push((format!("capacity {c}, checksum valid {valid}"), img));
            images.push((format!("capacity {c}, checksum valid {valid}, cut"), s[..100].to_vec()));
            if c < 600 {
                // a slot really of that capacity
                let mut s = refc::SLOT_SIG.to_vec();
                let mut b = c.to_le_bytes().to_vec();
                for i in 0..c as usize {
                    b.extend(lens.get(i).copied().unwrap_or(0).to_le_bytes());
                }
                s.extend(&b);
                s.extend(refc::crc32(&b).to_le_bytes());
                s.extend(&body);
                images.push((format!("slot of real capacity {c}"), s));
            }
        }
    }
    // lengths
    for pos in [0usize, 1, 2, 3, 250, 498, 499] {
        for &l in EDGE {
            for fill in [0u64, 38] {
                let mut v = lens.clone();
                v.resize(500, fill);
                v[pos] = l;
                let mut img = refc::slot(&v);
                img.extend(&body);
                images.push((format!("length[{pos}] = {l}, others {fill}"), img.clone()));
                img.extend(refc::slot(&[38]));
                images.push((format!("length[{pos}] = {l}, others {fill}, another slot"), img));
            }
        }
    }
    for a in EDGE {
        for b in EDGE {
            let mut img = refc::slot(&[*a, *b]);
            img.extend(&body);
            images.push((format!("lengths {a}, {b}"), img));
        }
    }
    for &l in EDGE {
        let mut img = refc::slot(&vec![l; 500]);
        img.extend(&body);
        images.push((format!("all lengths {l}"), img.clone()));
        let mut many = vec![];
        for _ in 0..4 {
            many.extend(&img[..4020]);
        }
        images.push((format!("all lengths {l}, repeated"), many));
    }
    // full slots of nothing but slots
    ctx.group("storage images", images.len() as u64);
    par(ctx, images.len(), |i| {
        let (name, img) = &images[i];
        storage_probe(ctx, name, img);
    });
}

pub fn storage_probe(ctx: &Ctx, name: &str, img: &[u8]) {
    ctx.st(1);
    ctx.trace(1);
    case(name);
    alloc_reset();
    let r = catch(|| {
        let mut ops = 1;
        if let Ok(mut r) = Reader::new(Cursor::new(img.to_vec())) {
            let cap = 2000;
            ops += r.iter().take(cap).filter(|p| p.is_ok()).count();
            ops += r.filtered().take(cap).filter(|p| p.is_ok()).count();
            for k in [0usize, 1, 2, 3, 250, 498, 499, 500, 501, 999, 1000, usize::MAX / 2, usize::MAX] {
                let _ = r.nth(k);
                let _ = r.seek(k).map(|it| it.take(cap).count());
                let _ = r.range(k, 3).take(cap).count();
                let _ = r.range_filtered(k, 3).take(cap).count();
                ops += 4;
            }
            let _ = r.range(0, usize::MAX).take(cap).count();
            let _ = r.count();
            let _ = r.reload();
            let _ = r.count();
            ops += 4;
            // iteration comes to an end
            let n = r.iter().take(100_000).count();
            let m = r.filtered().take(100_000).count();
            if n >= 100_000 || m >= 100_000 {
                panic!("iteration does not end");
            }
        }
        ops
    });
    match r {
        Ok(n) => ctx.tr(n as u64),
        Err(p) => ctx.violation(format!("storage reader panics: {p} ({name})\nimage {}", hex(img))),
    }
    let m = alloc_max();
    if m > bound(img.len()) {
        ctx.violation(format!("storage reader allocates {m} bytes at once for an image of {} bytes ({name})", img.len()));
    }
    // the writer opens such data too; it may refuse, not crash (no insertion: a forged length may
    // legitimately point far behind the end of the data)
    alloc_reset();
    ctx.tr(1);
    if let Err(p) = catch(|| Writer::new(Cursor::new(img.to_vec())).is_ok()) {
        ctx.violation(format!("storage writer panics when opening: {p} ({name})\nimage {}", hex(img)));
    }
    let m = alloc_max();
    if m > bound(img.len()) {
        ctx.violation(format!("storage writer allocates {m} bytes at once for an image of {} bytes ({name})", img.len()));
    }
}
