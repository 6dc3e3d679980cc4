//! P01 round trip through every reading path; P02 layout and sizes.
use crate::dom::*;
use crate::model::*;
use crate::proto::inner::{BPath, BPathReferred};
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::util::*;
use brec::prelude::*;
use std::io::Cursor;

fn domain(ctx: &Ctx) -> Vec<Pkt> {
    let mut v: Vec<Pkt> = vec![];
    for b in blocks_full() {
        v.push(Pkt::new(vec![b.clone()], None));
        v.push(Pkt::new(vec![b], Some(Pl::Tiny(3))));
    }
    for p in payloads_full(ctx.thorough) {
        v.push(Pkt::new(vec![], Some(p.clone())));
        v.push(Pkt::new(vec![Blk::Tiny(9)], Some(p)));
    }
    v.extend(packets(if ctx.thorough { 4 } else { 3 }));
    let counts: Vec<usize> = (0..=255).collect();
    v.extend(counted(&counts));
    v.push(Pkt::new((0..255).map(|i| Blk::Big(i, i as u8)).collect(), Some(Pl::Bytes(vec![7; 70000]))));
    // lengths of more than two and more than three bytes
    for n in [(1 << 20) + 1, (1 << 24) + 3] {
        v.push(Pkt::new(vec![Blk::Tiny(1)], Some(Pl::Bytes((0..n).map(|i| (i % 251) as u8).collect()))));
    }
    v
}

pub fn run01(ctx: &Ctx) {
    let dom = domain(ctx);
    let paths = all_paths();
    let follow = Pkt::new(vec![Blk::Enum(255)], Some(Pl::Str("next".into())));
    let follow_bytes = refc::packet(&follow);
    ctx.group("packets", dom.len() as u64);
    ctx.group("reading paths", paths.len() as u64);
    par(ctx, dom.len(), |i| {
        let p = &dom[i];
        let short = |p: &Pkt| format!("{p:?}").chars().take(600).collect::<String>();
        case(&format!("packet #{i}"));
        let mut bytes = vec![];
        if let Err(e) = p.real().write_all(&mut bytes) {
            ctx.violation(format!("writing failed: {e} for {}", short(p)));
            return;
        }
        let mut vbytes = vec![];
        if let Err(e) = p.real().write_vectored_all(&mut vbytes) {
            ctx.violation(format!("vectored writing failed: {e} for {}", short(p)));
            return;
        }
        ctx.st(1);
        ctx.tr(2);
        let mut two = bytes.clone();
        two.extend(&follow_bytes);
        for &path in &paths {
            // the largest ones are not worth the byte-wise paths
            if path.0.contains("1-byte") && bytes.len() > 1 << 19 {
                continue;
            }
            for (input, what) in [(&bytes, "alone"), (&two, "followed by another packet"), (&vbytes, "vectored")] {
                if what == "vectored" && *input == bytes {
                    continue;
                }
                ctx.tr(1);
                ctx.trace(1);
                let (o, n) = run(path, input);
                if o != Out::Ok(p.clone()) {
                    ctx.violation(format!(
                        "round trip via {} ({what}) gives {} for {}\nbytes {}",
                        path.0,
                        format!("{o:?}").chars().take(600).collect::<String>(),
                        short(p),
                        hex(input)
                    ));
                } else if n != usize::MAX && n != bytes.len() {
                    ctx.violation(format!(
                        "{} ({what}) consumed {n} of the packet's {} bytes: {}\nbytes {}",
                        path.0,
                        bytes.len(),
                        short(p),
                        hex(input)
                    ));
                }
            }
        }
        // the extractor delivers both and ignores nothing
        for sizes in if two.len() < 1 << 19 { [&[][..], &[1][..], &[7, 64][..]] } else { [&[][..], &[65_537][..], &[8191, 70_000][..]] } {
            let t = catch(|| extract(&mut Chunks::new(&two, sizes), 4 * two.len() + 16));
            ctx.tr(1);
            match t {
                Ok(t) => {
                    if t.found() != vec![p, &follow] || !t.ignored.is_empty() || t.errors() > 0 || !t.ended {
                        ctx.violation(format!(
                            "extractor over two packets (read sizes {sizes:?}) gave {} packets, {} errors, {} ignored bytes: {}",
                            t.found().len(), t.errors(), t.ignored.len(), short(p)
                        ));
                    }
                }
                Err(e) => ctx.violation(format!("PANIC {e} in extractor: {}", short(p))),
            }
        }
        // single blocks and payloads
        if p.blocks.len() <= 2 {
            for b in &p.blocks {
                single_block(ctx, b);
            }
            if let Some(pl) = &p.payload {
                single_payload(ctx, pl);
            }
        }
        if i % 997 == 0 {
            ctx.sample(|| format!("{} -> {}", short(p), hex(&bytes)));
        }
    });
}

macro_rules! typed_block {
    ($ctx:expr, $b:expr, $ty:ident, $refd:ident) => {
        typed_block!($ctx, $b, $ty, $refd, $ty)
    };
    ($ctx:expr, $b:expr, $ty:ident, $refd:ident, $var:ident) => {{
        let Block::$var(real) = $b.real() else { unreachable!() };
        let mut bytes = vec![];
        WriteTo::write_all(&real, &mut bytes).unwrap();
        let want = Out::Ok(Pkt::new(vec![$b.clone()], None));
        let wrap = |r: Result<$ty, Error>| match r {
            Ok(v) => Out::Ok(Pkt::new(vec![Blk::of(&Block::$var(v))], None)),
            Err(e) => Out::Err(errname(&e)),
        };
        let wraps = |r: Result<ReadStatus<$ty>, Error>| match r {
            Ok(ReadStatus::Success(v)) => Out::Ok(Pkt::new(vec![Blk::of(&Block::$var(v))], None)),
            Ok(ReadStatus::NotEnoughData(n)) => Out::Need(n),
            Err(e) => Out::Err(errname(&e)),
        };
        let len = bytes.len();
        let mut ext = bytes.clone();
        ext.extend([0xAA; 7]);
        let mut results: Vec<(&str, Result<(Out, usize), String>, usize)> = vec![];
        results.push(("ReadBlockFrom", catch(|| { let mut c = Cursor::new(&ext); let o = wrap(<$ty as ReadBlockFrom>::read(&mut c, false)); (o, c.position() as usize) }), len));
        results.push(("ReadBlockFrom skip_sig", catch(|| { let mut c = Cursor::new(&ext[4..]); let o = wrap(<$ty as ReadBlockFrom>::read(&mut c, true)); (o, c.position() as usize) }), len - 4));
        results.push(("TryReadFrom", catch(|| { let mut c = Cursor::new(&ext); let o = wraps(<$ty as TryReadFrom>::try_read(&mut c)); (o, c.position() as usize) }), len));
        results.push(("TryReadFromBuffered", catch(|| { let mut c = Cursor::new(&ext); let o = wraps(<$ty as TryReadFromBuffered>::try_read(&mut c)); (o, c.position() as usize) }), len));
        results.push(("TryReadFromBuffered/small buffer", catch(|| {
            let mut c = std::io::BufReader::with_capacity(5, &ext[..]);
            let o = wraps(<$ty as TryReadFromBuffered>::try_read(&mut c));
            let mut rest = vec![]; std::io::Read::read_to_end(&mut c, &mut rest).unwrap();
            (o, ext.len() - rest.len()) }), len));
        results.push(("ReadBlockFromSlice", catch(|| (wrap($refd::read_from_slice(&ext, false).map(|r| r.into())), len)), len));
        results.push(("ReadBlockFromSlice exact", catch(|| (wrap($refd::read_from_slice(&bytes, false).map(|r| r.into())), len)), len));
        results.push(("ReadBlockFromSlice skip_sig", catch(|| (wrap($refd::read_from_slice(&ext[4..], true).map(|r| r.into())), len)), len));
        results.push(("ReadBlockFromSlice skip_sig exact", catch(|| (wrap($refd::read_from_slice(&bytes[4..], true).map(|r| r.into())), len)), len));
        for (name, r, n) in results {
            $ctx.tr(1);
            match r {
                Ok((o, c)) if o == want && c == n => {}
                other => $ctx.violation(format!("{}::{name} gives {other:?}, expected {n} bytes consumed and {:?}\nbytes {}", stringify!($ty), $b, hex(&ext))),
            }
        }
    }};
}

fn single_block(ctx: &Ctx, b: &Blk) {
    match b {
        Blk::Tiny(_) => typed_block!(ctx, b, BTiny, BTinyReferred),
        Blk::Bool(..) => typed_block!(ctx, b, BBool, BBoolReferred),
        Blk::Enum(_) => typed_block!(ctx, b, BEnum, BEnumReferred),
        Blk::Blob(_) => typed_block!(ctx, b, BBlob, BBlobReferred),
        Blk::Mix(..) => typed_block!(ctx, b, BMix, BMixReferred),
        Blk::All(_) => typed_block!(ctx, b, BAll, BAllReferred),
        Blk::NoCrc(_) => typed_block!(ctx, b, BNoCrc, BNoCrcReferred),
        Blk::Big(..) | Blk::BigRaw(..) => typed_block!(ctx, b, BBig, BBigReferred),
        Blk::Edge(..) => typed_block!(ctx, b, BEdge, BEdgeReferred),
        Blk::Unit => typed_block!(ctx, b, BUnit, BUnitReferred),
        Blk::Path(..) => typed_block!(ctx, b, BPath, BPathReferred, InnerBPath),
    }
    // the generated Block enum
    let bytes = refc::block(b);
    let mut ext = bytes.clone();
    ext.extend(refc::block(&Blk::Tiny(77)));
    let one = |r: Result<Block, Error>| match r {
        Ok(v) => Out::Ok(Pkt::new(vec![Blk::of(&v)], None)),
        Err(e) => Out::Err(errname(&e)),
    };
    let ones = |r: Result<ReadStatus<Block>, Error>| match r {
        Ok(ReadStatus::Success(v)) => Out::Ok(Pkt::new(vec![Blk::of(&v)], None)),
        Ok(ReadStatus::NotEnoughData(n)) => Out::Need(n),
        Err(e) => Out::Err(errname(&e)),
    };
    let want = Out::Ok(Pkt::new(vec![b.clone()], None));
    let len = bytes.len();
    for (name, r) in [
        ("Block ReadFrom", catch(|| { let mut c = Cursor::new(&ext); let o = one(<Block as ReadFrom>::read(&mut c)); (o, c.position() as usize) })),
        ("Block ReadBlockFrom", catch(|| { let mut c = Cursor::new(&ext); let o = one(<Block as ReadBlockFrom>::read(&mut c, false)); (o, c.position() as usize) })),
        ("Block TryReadFrom", catch(|| { let mut c = Cursor::new(&ext); let o = ones(<Block as TryReadFrom>::try_read(&mut c)); (o, c.position() as usize) })),
        ("Block TryReadFromBuffered", catch(|| { let mut c = Cursor::new(&ext); let o = ones(<Block as TryReadFromBuffered>::try_read(&mut c)); (o, c.position() as usize) })),
        ("BlockReferred", catch(|| (one(BlockReferred::read_from_slice(&ext, false).map(|r| r.into())), len))),
        ("BlockReferred fields", catch(|| (match BlockReferred::read_from_slice(&ext, false) { Ok(r) => Out::Ok(Pkt::new(vec![Blk::of_ref(&r)], None)), Err(e) => Out::Err(errname(&e)) }, len))),
    ] {
        ctx.tr(1);
        match r {
            Ok((o, c)) if o == want && c == len => {}
            other => ctx.violation(format!("{name} gives {other:?}, expected {len} bytes consumed and {b:?}\nbytes {}", hex(&ext))),
        }
    }
}

fn single_payload(ctx: &Ctx, p: &Pl) {
    let mut real = p.real();
    let mut bytes = vec![];
    if let Err(e) = WriteMutTo::write_all(&mut real, &mut bytes) {
        ctx.violation(format!("writing payload {p:?}: {e}"));
        return;
    }
    let hl = refc::payload_header(p).len();
    let mut ext = bytes.clone();
    ext.extend([0x55; 9]);
    let want: Result<(Pl, usize, usize), String> = Ok((p.clone(), hl, bytes.len()));
    let s = |e: Error| errname(&e);
    let need = |n: u64| format!("Need({n})");
    let runs: Vec<(&str, Result<Result<(Pl, usize, usize), String>, String>)> = vec![
        ("stream", catch(|| {
            let mut c = Cursor::new(&ext);
            let h = <PayloadHeader as ReadFrom>::read(&mut c).map_err(s)?;
            let a = c.position() as usize;
            let v = <Payload as ExtractPayloadFrom<Payload>>::read(&mut c, &h).map_err(s)?;
            Ok((Pl::of(&v), a, c.position() as usize))
        })),
        ("seek", catch(|| {
            let mut c = Cursor::new(&ext);
            let h = match <PayloadHeader as TryReadFrom>::try_read(&mut c).map_err(s)? { ReadStatus::Success(h) => h, ReadStatus::NotEnoughData(n) => return Err(need(n)) };
            let a = c.position() as usize;
            let v = match <Payload as TryExtractPayloadFrom<Payload>>::try_read(&mut c, &h).map_err(s)? { ReadStatus::Success(v) => v, ReadStatus::NotEnoughData(n) => return Err(need(n)) };
            Ok((Pl::of(&v), a, c.position() as usize))
        })),
        ("buffered", catch(|| {
            let mut c = Cursor::new(&ext);
            let h = match <PayloadHeader as TryReadFromBuffered>::try_read(&mut c).map_err(s)? { ReadStatus::Success(h) => h, ReadStatus::NotEnoughData(n) => return Err(need(n)) };
            if c.position() != 0 { return Err("peek moved".into()); }
            let a = h.size();
            c.set_position(a as u64);
            let v = match <Payload as TryExtractPayloadFromBuffered<Payload>>::try_read(&mut c, &h).map_err(s)? { ReadStatus::Success(v) => v, ReadStatus::NotEnoughData(n) => return Err(need(n)) };
            Ok((Pl::of(&v), a, c.position() as usize))
        })),
    ];
    for (name, r) in runs {
        ctx.tr(1);
        match r {
            Ok(r) if r == want => {}
            other => ctx.violation(format!("payload via {name} gives {:?}, expected {p:?}\nbytes {}", format!("{other:?}").chars().take(500).collect::<String>(), hex(&ext))),
        }
    }
}

// ------------------------------------------------------------------------------------ P02

/// records the calls of a writer
#[derive(Default)]
struct Sink(Vec<u8>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        let mut n = 0;
        for b in bufs {
            self.0.extend_from_slice(b);
            n += b.len();
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn run02(ctx: &Ctx) {
    let dom = domain(ctx);
    ctx.group("packets", dom.len() as u64);
    par(ctx, dom.len(), |i| {
        let p = &dom[i];
        case(&format!("packet #{i}"));
        let want = refc::packet(p);
        ctx.st(1);
        let short = || format!("{p:?}").chars().take(600).collect::<String>();
        let outs: Vec<(&str, Result<std::io::Result<(Vec<u8>, usize)>, String>)> = vec![
            ("write_all", catch(|| { let mut s = Sink::default(); WriteMutTo::write_all(&mut p.real(), &mut s)?; let n = s.0.len(); Ok((s.0, n)) })),
            ("write", catch(|| { let mut s = Sink::default(); let n = WriteMutTo::write(&mut p.real(), &mut s)?; Ok((s.0, n)) })),
            ("write_vectored", catch(|| { let mut s = Sink::default(); let n = WriteVectoredMutTo::write_vectored(&mut p.real(), &mut s)?; Ok((s.0, n)) })),
            ("write_vectored_all", catch(|| { let mut s = Sink::default(); WriteVectoredMutTo::write_vectored_all(&mut p.real(), &mut s)?; let n = s.0.len(); Ok((s.0, n)) })),
            ("slices", catch(|| { let mut r = p.real(); let sl = WriteVectoredMutTo::slices(&mut r)?; let v: Vec<u8> = sl.get().iter().flat_map(|s| s.to_vec()).collect(); let n = v.len(); Ok((v, n)) })),
            ("written twice", catch(|| { let mut s = Sink::default(); let mut r = p.real(); WriteMutTo::write_all(&mut r, &mut s)?; s.0.clear(); WriteMutTo::write_all(&mut r, &mut s)?; let n = s.0.len(); Ok((s.0, n)) })),
            ("after reading back", catch(|| { let mut r = <Packet as ReadFrom>::read(&mut Cursor::new(&want)).map_err(std::io::Error::from)?; let mut s = Sink::default(); WriteMutTo::write_all(&mut r, &mut s)?; let n = s.0.len(); Ok((s.0, n)) })),
        ];
        for (name, r) in outs {
            ctx.tr(1);
            ctx.trace(1);
            match r {
                Ok(Ok((v, n))) if v == want && n == want.len() => {}
                Ok(Ok((v, n))) => {
                    let at = v.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(v.len().min(want.len()));
                    ctx.violation(format!(
                        "{name} wrote {} bytes (reported {n}), layout says {}; first difference at {at}\n got {}\nwant {}\nfor {}",
                        v.len(), want.len(), hex(&v), hex(&want), short()
                    ))
                }
                other => ctx.violation(format!("{name}: {:?} for {}", other.map(|r| r.map(|_| ())), short())),
            }
        }
        // sizes
        let real = p.real();
        let h = catch(|| PacketHeader::new(&real.blocks, real.payload.as_ref()));
        ctx.tr(1);
        match h {
            Ok(Ok(h)) => {
                let bl: usize = p.blocks.iter().map(|b| refc::block(b).len()).sum();
                if h.size as usize != want.len() - 29 || h.blocks_len as usize != bl || h.payload != p.payload.is_some() {
                    ctx.violation(format!("header reports size {} blocks {} payload {}: {}", h.size, h.blocks_len, h.payload, short()));
                }
                let mut hb = vec![];
                WriteTo::write_all(&h, &mut hb).unwrap();
                let mut hb2 = vec![];
                let n = WriteTo::write(&h, &mut hb2).unwrap();
                if hb != want[..29] || hb2 != want[..29] || n != 29 || PacketHeader::ssize() != 29 {
                    ctx.violation(format!("packet header written as {} / {}", hex(&hb), hex(&hb2)));
                }
            }
            other => ctx.violation(format!("header: {:?}", other.map(|r| r.map(|_| ())))),
        }
        if p.blocks.len() <= 3 {
            for b in &p.blocks {
                let real = b.real();
                let w = refc::block(b);
                let mut a = vec![];
                let mut v = vec![];
                let mut c = vec![];
                let n = catch(|| {
                    WriteTo::write_all(&real, &mut a).unwrap();
                    let m = WriteTo::write(&real, &mut c).unwrap();
                    WriteVectoredTo::write_vectored_all(&real, &mut v).unwrap();
                    m
                });
                ctx.tr(3);
                let refsize = BlockReferred::read_from_slice(&w, false).map(|r| r.size());
                if n != Ok(w.len()) || a != w || v != w || c != w || real.size() != w.len() as u64 || refsize.as_ref().ok() != Some(&(w.len() as u64)) {
                    ctx.violation(format!("block {b:?}: wrote {} / {} / {} (reported {n:?}, size {} / {refsize:?}), layout {}", hex(&a), hex(&c), hex(&v), real.size(), hex(&w)));
                }
            }
            if let Some(pl) = &p.payload {
                let w = refc::payload(pl);
                let hd = refc::payload_header(pl);
                let mut real = pl.real();
                let r = catch(|| -> std::io::Result<_> {
                    let mut a = vec![];
                    WriteMutTo::write_all(&mut real, &mut a)?;
                    let mut c = vec![];
                    let n = WriteMutTo::write(&mut real, &mut c)?;
                    let mut v = vec![];
                    WriteVectoredMutTo::write_vectored_all(&mut real, &mut v)?;
                    let ph = PayloadHeader::new(&real)?;
                    let sz = PayloadSize::size(&real)?;
                    let hs = PayloadHeader::ssize(&real)?;
                    let total = PacketHeader::payload_size(&real)?;
                    Ok((a, c, n, v, ph.as_vec(), ph.size(), ph.payload_len(), sz as usize, hs, total as usize))
                });
                ctx.tr(8);
                let body = w.len() - hd.len();
                let want = (w.clone(), w.clone(), w.len(), w.clone(), hd.clone(), hd.len(), body, body, hd.len(), w.len());
                match r {
                    Ok(Ok(r)) if r == want => {}
                    Ok(Ok(r)) => ctx.violation(format!(
                        "payload {:?}: sizes reported (written {}, header {} / {}, body {} / {}, total {}) but layout has header {} body {}; bytes ok: {} {} {} header bytes ok: {}",
                        format!("{pl:?}").chars().take(200).collect::<String>(), r.2, r.5, r.8, r.6, r.7, r.9, hd.len(), body, r.0 == w, r.1 == w, r.3 == w, r.4 == hd
                    )),
                    other => ctx.violation(format!("payload {pl:?}: {:?}", other.map(|r| r.map(|_| ())))),
                }
            }
        }
        if i % 997 == 0 {
            ctx.sample(|| format!("{} -> {}", short(), hex(&want)));
        }
    });
    // block and payload signatures are pairwise different, and constants
    let sigs: Vec<([u8; 4], [u8; 4])> = vec![
        (*BTinyReferred::sig(), refc::block_sig(&Blk::Tiny(0))),
        (*BBoolReferred::sig(), refc::block_sig(&Blk::Bool(true, true))),
        (*BEnumReferred::sig(), refc::block_sig(&Blk::Enum(0))),
        (*BBlobReferred::sig(), refc::block_sig(&Blk::Blob([0; 5]))),
        (*BMixReferred::sig(), refc::block_sig(&Blk::Mix(0, [0; 3], 0, [0; 2]))),
        (*BAllReferred::sig(), refc::block_sig(&Blk::All(Box::new(all0())))),
        (*BNoCrcReferred::sig(), refc::block_sig(&Blk::NoCrc(0))),
        (*BBigReferred::sig(), refc::block_sig(&Blk::Big(0, 0))),
        (*BEdgeReferred::sig(), refc::block_sig(&Blk::Edge([0; 2], 0, [0], [0; 4], false, 0, [0; 3], 0))),
        (*BUnitReferred::sig(), refc::block_sig(&Blk::Unit)),
        (*inner::BPathReferred::sig(), refc::block_sig(&Blk::Path(0, 0))),
    ];
    for (a, b) in &sigs {
        ctx.tr(1);
        if a != b {
            ctx.violation(format!("block signature {} differs from the established one {}", hex(a), hex(b)));
        }
    }
    crate::storage::layout(ctx);
}
