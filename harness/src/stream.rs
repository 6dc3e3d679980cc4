//! P06, P07, P08: the stream extractor over all sequences of segments and all splits into reads.
use crate::dom::*;
use crate::model::*;
use crate::readers::*;
use crate::refc;
use crate::util::*;
use std::collections::HashMap;
use std::io::Read;

pub struct Seg {
    pub name: &'static str,
    pub bytes: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Expect {
    pub found: Vec<Pkt>,
    pub ignored: Vec<u8>,
    pub errors: usize,
}

/// Reference recogniser, straight from the published format: the leftmost signature decides.
pub fn reference(s: &[u8], known: &HashMap<Vec<u8>, Pkt>) -> Expect {
    let mut e = Expect::default();
    let mut pos = 0;
    loop {
        let Some(o) = s[pos..].windows(8).position(|w| w == refc::SIG).map(|i| i + pos) else {
            e.ignored.extend(&s[pos..]);
            return e;
        };
        e.ignored.extend(&s[pos..o]);
        if s.len() - o < refc::HDR {
            e.ignored.extend(&s[o..]);
            return e;
        }
        match refc::valid_header(&s[o..]) {
            Some((size, _, flag)) if flag <= 1 => {
                let end = (o + refc::HDR) as u64;
                if size > s.len() as u64 - end {
                    e.ignored.extend(&s[o..]);
                    return e;
                }
                let end = (end + size) as usize;
                match known.get(&s[o..end]) {
                    Some(p) => e.found.push(p.clone()),
                    None => e.errors += 1,
                }
                pos = end;
            }
            _ => {
                e.ignored.push(s[o]);
                e.errors += 1;
                pos = o + 1;
            }
        }
    }
}

pub fn packets_pool() -> Vec<Pkt> {
    let small = Pkt::new(vec![Blk::Tiny(0xec)], None);
    vec![
        Pkt::new(vec![], None),
        small.clone(),
        Pkt::new(vec![Blk::Mix(1, [2; 3], 4, [5; 2]), Blk::Tiny(7)], Some(Pl::Str("text".into()))),
        // a whole packet as payload
        Pkt::new(vec![Blk::Blob([0xec, 0x25, 0x5e, 0x88, 0xec])], Some(Pl::Bytes(refc::packet(&small)))),
    ]
}

pub fn known(extra: &[Pkt]) -> HashMap<Vec<u8>, Pkt> {
    packets_pool().iter().chain(extra).map(|p| (refc::packet(p), p.clone())).collect()
}

fn fix_header(mut b: Vec<u8>) -> Vec<u8> {
    let c = refc::crc32(&b[8..25]).to_le_bytes();
    b[25..29].copy_from_slice(&c);
    b
}

pub fn segments() -> Vec<Seg> {
    let pool = packets_pool();
    let enc: Vec<Vec<u8>> = pool.iter().map(refc::packet).collect();
    let mut v: Vec<Seg> = vec![];
    let mut add = |name, bytes| v.push(Seg { name, bytes });
    add("empty", enc[0].clone());
    add("small", enc[1].clone());
    add("payload", enc[2].clone());
    add("nested", enc[3].clone());
    let flip = |e: &[u8], i: usize, x: u8| {
        let mut b = e.to_vec();
        b[i] ^= x;
        b
    };
    let n2 = enc[2].len();
    add("bad header checksum", flip(&enc[1], 26, 1));
    add("bad size field", flip(&enc[2], 8, 0x40));
    add("bad signature", flip(&enc[1], 7, 2));
    add("bad block", flip(&enc[1], 33, 1));
    add("bad block signature", flip(&enc[2], 30, 0x10));
    add("bad payload", flip(&enc[2], n2 - 1, 1));
    add("bad payload header", flip(&enc[2], n2 - 4 - 14, 0xff));
    add("bad flag", fix_header({
        let mut b = enc[2].clone();
        b[24] = 2;
        b
    }));
    add("blocks longer than packet", fix_header({
        let mut b = enc[1].clone();
        b[16] = 100;
        b
    }));
    add("cut 10", enc[1][..10].to_vec());
    add("cut 28", enc[0][..28].to_vec());
    add("cut 33", enc[2][..33].to_vec());
    add("litter 1", vec![0x55]);
    add("litter ec", vec![0xec]);
    add("sig 4", refc::SIG[..4].to_vec());
    add("sig 7", refc::SIG[..7].to_vec());
    add("sig 8", refc::SIG.to_vec());
    add("litter 28", (0..28).map(|i| i as u8).collect());
    add("litter 29", (0..29).map(|i| 100 + i as u8).collect());
    add("litter 47", (0..47).map(|i| 200 - i as u8).collect());
    v
}

pub struct Flaky<'a> {
    pub inner: Chunks<'a>,
    pub fail: &'a [usize],
    pub n: usize,
    pub failed: usize,
    pub kind: std::io::ErrorKind,
}
impl Read for Flaky<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let i = self.n;
        self.n += 1;
        if self.fail.contains(&i) {
            self.failed += 1;
            return Err(self.kind.into());
        }
        self.inner.read(b)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Delivered,
    Ignored,
    Progress,
}

fn compare(ctx: &Ctx, f: Focus, t: &Result<Trace, String>, e: &Expect, transient: usize, what: &dyn Fn() -> String) {
    ctx.tr(1);
    ctx.trace(1);
    let t = match t {
        Ok(t) => t,
        Err(p) => {
            ctx.violation(format!("panic `{p}` {}", what()));
            return;
        }
    };
    let found = t.found();
    let same = found.len() == e.found.len() && found.iter().zip(&e.found).all(|(a, b)| **a == *b);
    let names = |v: &[&Pkt]| format!("{v:?}").chars().take(700).collect::<String>();
    match f {
        Focus::Delivered => {
            if !same {
                ctx.violation(format!(
                    "delivered {} packets {}\nexpected {} packets {}\n{}",
                    found.len(), names(&found), e.found.len(), names(&e.found.iter().collect::<Vec<_>>()), what()
                ));
            }
        }
        Focus::Ignored => {
            if t.ignored != e.ignored || !t.ended {
                ctx.violation(format!(
                    "handed over as not recognised ({} bytes) {}\nexpected ({} bytes) {}\nended {} {}",
                    t.ignored.len(), hex(&t.ignored), e.ignored.len(), hex(&e.ignored), t.ended, what()
                ));
            }
        }
        Focus::Progress => {
            if !t.ended || t.restless {
                ctx.violation(format!("{} after {} calls {}", if t.ended { "does not keep answering end of data" } else { "has not reached the end" }, t.calls, what()));
            } else if t.errors() != e.errors + transient {
                ctx.violation(format!("{} errors, expected {} (and {transient} of the source): {:?} {}", t.errors(), e.errors, t.evs.iter().filter(|e| matches!(e, Ev::Err(_))).collect::<Vec<_>>(), what()));
            } else if !same {
                ctx.violation(format!("delivered {} packets, expected {}: {}\n{}", found.len(), e.found.len(), names(&found), what()));
            }
        }
    }
}

const CONST_SPLITS: &[usize] = &[1, 2, 3, 5, 7, 8, 13, 28, 29, 30, 31, 37, 64];

fn max_calls(len: usize) -> usize {
    6 * len + 64
}

fn sequences_of_segments(ctx: &Ctx, f: Focus) {
    let segs = segments();
    let kn = known(&[]);
    let depth = if ctx.thorough { 4 } else { 3 };
    let seqs = sequences(segs.len(), depth);
    ctx.group("segment kinds", segs.len() as u64);
    ctx.group("segment sequences", seqs.len() as u64);
    par(ctx, seqs.len().div_ceil(32), |k| {
        for s in seqs.iter().skip(k * 32).take(32) {
            let bytes: Vec<u8> = s.iter().flat_map(|&i| segs[i].bytes.iter().copied()).collect();
            let name = || s.iter().map(|&i| segs[i].name).collect::<Vec<_>>().join(" | ");
            let e = reference(&bytes, &kn);
            case(&name());
            ctx.st(1);
            let mx = max_calls(bytes.len());
            let t = catch(|| extract(&mut Chunks::new(&bytes, &[]), mx));
            compare(ctx, f, &t, &e, 0, &|| format!("stream [{}] in one read\nbytes {}", name(), hex(&bytes)));
            for &c in CONST_SPLITS {
                let sz = [c];
                let t = catch(|| extract(&mut Chunks::new(&bytes, &sz), mx));
                compare(ctx, f, &t, &e, 0, &|| format!("stream [{}] in reads of {c}\nbytes {}", name(), hex(&bytes)));
            }
            // every single split
            if s.len() <= 3 {
                for a in 1..bytes.len() {
                    let cuts = [a];
                    let t = catch(|| extract(&mut Chunks::cut(&bytes, &cuts), mx));
                    compare(ctx, f, &t, &e, 0, &|| format!("stream [{}] split at {a}\nbytes {}", name(), hex(&bytes)));
                }
            }
            // every pair of splits
            if s.len() <= if ctx.thorough { 2 } else { 1 } {
                for a in 1..bytes.len() {
                    for b in a + 1..bytes.len() {
                        let cuts = [a, b];
                        let t = catch(|| extract(&mut Chunks::cut(&bytes, &cuts), mx));
                        compare(ctx, f, &t, &e, 0, &|| format!("stream [{}] split at {a} and {b}\nbytes {}", name(), hex(&bytes)));
                    }
                    tick();
                }
            }
            // every placement of one (and two) temporary failures
            if f == Focus::Progress && s.len() <= 2 {
                for &c in &[1usize, 7, 29, 40, 10_000] {
                    let sz = [c];
                    let reads = bytes.len() / c + 3;
                    for i in 0..reads {
                        for j in [usize::MAX, i + 1, i + 2, i + 3] {
                            for kind in [std::io::ErrorKind::WouldBlock, std::io::ErrorKind::Interrupted, std::io::ErrorKind::TimedOut] {
                                if j != usize::MAX && kind != std::io::ErrorKind::WouldBlock {
                                    continue;
                                }
                                let fail = [i, j];
                                let mut src = Flaky { inner: Chunks::new(&bytes, &sz), fail: &fail, n: 0, failed: 0, kind };
                                let t = catch(|| extract(&mut src, mx + 8));
                                let failed = src.failed;
                                // failures after the end of data are not part of the stream
                                let t = t.map(|mut t| {
                                    t.restless = false;
                                    t
                                });
                                // a failing read may also be retried silently; count what was reported
                                let reported = t.as_ref().map(|t| t.evs.iter().filter(|e| matches!(e, Ev::Err(x) if *x == format!("Io({kind:?})"))).count()).unwrap_or(0);
                                let _ = failed;
                                compare(ctx, f, &t, &e, reported.min(2), &|| format!("stream [{}] in reads of {c}, source fails with {kind:?} at its reads {fail:?}\nbytes {}", name(), hex(&bytes)));
                            }
                        }
                    }
                }
            }
            if ctx.stopped() {
                return;
            }
        }
        if k % 101 == 0 {
            let s = &seqs[k * 32];
            ctx.sample(|| s.iter().map(|&i| segs[i].name).collect::<Vec<_>>().join(" | "));
        }
    });
}

/// around the 8 KiB buffer of the extractor
fn boundaries(ctx: &Ctx, f: Focus) {
    let big: Vec<Pkt> = [8100usize, 8134, 8150, 8163, 8192, 9000, 16500, 40_000]
        .iter()
        .map(|&n| Pkt::new(vec![Blk::Tiny(1)], Some(Pl::Bytes((0..n).map(|i| (i * 31 % 251) as u8).collect()))))
        .collect();
    let kn = known(&big);
    let segs = segments();
    let mut streams: Vec<(String, Vec<u8>)> = vec![];
    let small = refc::packet(&packets_pool()[1]);
    let pay = refc::packet(&packets_pool()[2]);
    let noise = |n: usize| -> Vec<u8> { (0..n).map(|i| (i * 37 % 199) as u8).collect() };
    // litter so that the following segments straddle the boundary at every position
    for k in 0..(small.len() + pay.len() + 35) {
        for head in [8192usize, 16384] {
            if head > 8192 && !ctx.thorough && k % 3 > 0 {
                continue;
            }
            for s in segs.iter() {
                if k > s.bytes.len() + pay.len() + 2 {
                    continue;
                }
                let mut b = noise(head - k);
                b.extend(&s.bytes);
                b.extend(&pay);
                streams.push((format!("{} bytes of litter, {}, payload", head - k, s.name), b));
            }
        }
    }
    // only packets, crossing the boundary
    for rep in [100usize, 218, 300] {
        let mut b: Vec<u8> = vec![];
        for i in 0..rep {
            b.extend(if i % 3 == 0 { &pay } else { &small });
        }
        streams.push((format!("{rep} packets"), b.clone()));
        for s in segs.iter() {
            let mut c = b.clone();
            c.extend(&s.bytes);
            c.extend(&small);
            streams.push((format!("{rep} packets, {}, small", s.name), c));
        }
    }
    for p in &big {
        let e = refc::packet(p);
        for s in segs.iter() {
            let mut b = s.bytes.clone();
            b.extend(&e);
            b.extend(&small);
            streams.push((format!("{}, {} byte packet, small", s.name, e.len()), b));
            let mut b = e.clone();
            b.extend(&s.bytes);
            b.extend(&e);
            streams.push((format!("big, {}, big", s.name), b));
        }
        // damaged big
        let mut d = e.clone();
        let m = d.len() - 5;
        d[m] ^= 1;
        d.extend(&small);
        streams.push(("damaged big, small".into(), d));
        let mut d = e.clone();
        d.truncate(m);
        streams.push(("truncated big".into(), d));
    }
    ctx.group("boundary streams", streams.len() as u64);
    par(ctx, streams.len(), |i| {
        let (name, bytes) = &streams[i];
        case(name);
        ctx.st(1);
        let e = reference(bytes, &kn);
        for c in [usize::MAX, 8192, 8191, 4096, 1000, 61] {
            let sz = [c];
            let t = catch(|| extract(&mut Chunks::new(bytes, &sz), max_calls(bytes.len())));
            compare(ctx, f, &t, &e, 0, &|| format!("stream [{name}] in reads of {c}"));
        }
        if bytes.len() < 9000 {
            let sz = [1];
            let t = catch(|| extract(&mut Chunks::new(bytes, &sz), max_calls(bytes.len())));
            compare(ctx, f, &t, &e, 0, &|| format!("stream [{name}] in reads of 1"));
        }
        if ctx.stopped() {
            return;
        }
    });
}

/// all strings over the bytes of the signature around a packet (every kind of look-alike)
fn lookalikes(ctx: &Ctx, f: Focus) {
    let kn = known(&[]);
    let alpha: &[u8] = &[0xec, 0x25, 0x5e, 0x88, 0x00];
    let n = if ctx.thorough { 8 } else { 6 };
    let seqs = sequences(alpha.len(), n);
    ctx.group("look-alike strings", seqs.len() as u64);
    let small = refc::packet(&packets_pool()[1]);
    let empty = refc::packet(&packets_pool()[0]);
    par(ctx, seqs.len().div_ceil(64), |k| {
        for s in seqs.iter().skip(k * 64).take(64) {
            let l: Vec<u8> = s.iter().map(|&i| alpha[i]).collect();
            for (which, bytes) in [[&l[..], &small].concat(), [&empty[..], &l, &small].concat(), [&refc::SIG[..], &l, &small, &l].concat(), [&refc::SIG[..4], &l, &refc::SIG[4..], &small].concat()]
                .into_iter()
                .enumerate()
            {
                let e = reference(&bytes, &kn);
                ctx.st(1);
                case(&hex(&bytes));
                let p = bytes.len().saturating_sub(small.len() + 3);
                for sizes in [&[][..], &[1][..], &[5][..], &[29][..], &[p.max(1), 1, 1, 100][..]] {
                    let t = catch(|| extract(&mut Chunks::new(&bytes, sizes), max_calls(bytes.len())));
                    compare(ctx, f, &t, &e, 0, &|| format!("look-alike form {which} with {} in reads of {sizes:?}\nbytes {}", hex(&l), hex(&bytes)));
                }
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}

pub fn run06(ctx: &Ctx) {
    sequences_of_segments(ctx, Focus::Delivered);
    boundaries(ctx, Focus::Delivered);
    lookalikes(ctx, Focus::Delivered);
    ctx.assume("other bytes never contain a packet header with a valid checksum, except those of truncated packets listed as segments");
}
pub fn run07(ctx: &Ctx) {
    sequences_of_segments(ctx, Focus::Ignored);
    boundaries(ctx, Focus::Ignored);
    lookalikes(ctx, Focus::Ignored);
}
pub fn run08(ctx: &Ctx) {
    HANG_LIMIT_S.store(60, std::sync::atomic::Ordering::Relaxed);
    sequences_of_segments(ctx, Focus::Progress);
    boundaries(ctx, Focus::Progress);
    lookalikes(ctx, Focus::Progress);
    // every alteration of one byte of the middle packet of three
    let pool = packets_pool();
    let kn = known(&[]);
    let enc: Vec<Vec<u8>> = pool.iter().map(refc::packet).collect();
    par(ctx, enc.len() * 256, |k| {
        let (m, x) = (&enc[k / 256], (k % 256) as u8);
        if x == 0 {
            return;
        }
        for i in 0..m.len() {
            let mut d = m.clone();
            d[i] ^= x;
            let bytes = [&enc[1][..], &d, &enc[2]].concat();
            let e = reference(&bytes, &kn);
            ctx.st(1);
            case(&format!("middle packet {} byte {i} ^ {x:#x}", k / 256));
            for sizes in [&[][..], &[31][..]] {
                let t = catch(|| extract(&mut Chunks::new(&bytes, sizes), max_calls(bytes.len())));
                compare(ctx, Focus::Progress, &t, &e, 0, &|| format!("middle packet with byte {i} ^ {x:#x}, reads of {sizes:?}\nbytes {}", hex(&bytes)));
                // the statement itself: both neighbours are delivered
                if let Ok(t) = &t {
                    let fd = t.found();
                    if fd.first() != Some(&&pool[1]) || fd.last() != Some(&&pool[2]) {
                        ctx.violation(format!("a neighbour of the damaged packet (byte {i} ^ {x:#x}) is lost\nbytes {}", hex(&bytes)));
                    }
                }
            }
        }
    });
}
