//! P24: data is only ever read as the definition it was written with.
use crate::defs::{OTHERS, PAYLOADS};
use crate::util::{hex, par, Ctx};

fn pairs(ctx: &Ctx) {
    let samples: Vec<Vec<u8>> = OTHERS.iter().map(|o| o.1()).collect();
    par(ctx, OTHERS.len(), |j| {
        let (name, _, saw) = &OTHERS[j];
        for (i, e) in samples.iter().enumerate() {
            if i == j || ctx.stopped() {
                continue;
            }
            ctx.st(1);
            for (rd, accepted, other, used) in saw(e) {
                ctx.tr(1);
                if accepted || !other || used.is_some_and(|u| u != 0) {
                    ctx.violation(format!(
                        "{rd}: accepted {accepted}, reported as another type {other}, consumed {used:?}\nread as {name}\nwritten as {}\nbytes {}",
                        OTHERS[i].0,
                        hex(e)
                    ));
                }
            }
            ctx.trace(4);
        }
        ctx.group("readers", 1);
    });
    // payload types: no two have the same signature
    let mut sigs: Vec<(Vec<u8>, &str)> = PAYLOADS.iter().map(|p| ((p.sig)(), p.name)).collect();
    sigs.sort();
    if sigs.windows(2).any(|w| w[0].0 == w[1].0) {
        ctx.violation("the check is wrong: two payload types share a signature".into());
    }
}

#[derive(Clone)]
struct Piece {
    text: String,
    shared: bool,
    noise: bool,
    bytes: Vec<u8>,
}

struct Side {
    name: &'static str,
    pieces: Vec<Piece>,
    store: fn(&[usize]) -> Vec<u8>,
    /// the reading version
    readers: fn(&[u8]) -> Vec<(&'static str, Option<String>, u64)>,
    extract: fn(&[u8], usize) -> (Vec<Option<String>>, Vec<u8>),
    load: fn(Vec<u8>) -> Result<Vec<(&'static str, Vec<Option<String>>)>, String>,
}

fn exchange(ctx: &Ctx, side: &Side) {
    let bad = |what: String, seq: &[usize]| {
        ctx.violation(format!(
            "{}: {what}\npackets {}",
            side.name,
            seq.iter().map(|i| format!("[{}{}]", if side.pieces[*i].shared { "" } else { "not shared: " }, side.pieces[*i].text)).collect::<Vec<_>>().join(" ")
        ))
    };
    let want = |i: usize| side.pieces[i].shared.then(|| side.pieces[i].text.clone());
    for (i, p) in side.pieces.iter().enumerate().filter(|(_, p)| !p.noise) {
        for tail in [0, 50] {
            let mut b = p.bytes.clone();
            b.extend(vec![0; tail]);
            for (rd, got, pos) in (side.readers)(&b) {
                ctx.st(1);
                ctx.trace(1);
                if got != want(i) {
                    bad(format!("{rd} gives {got:?}"), &[i]);
                } else if got.is_some() && pos != p.bytes.len() as u64 {
                    bad(format!("{rd} stops at {pos}"), &[i]);
                } else if got.is_none() && rd == "try_read" && pos != 0 {
                    bad(format!("{rd} fails and stays at {pos}"), &[i]);
                }
            }
        }
    }
    let n = side.pieces.len();
    let depth = if ctx.thorough { 5 } else { 4 };
    let firsts: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    par(ctx, firsts.len(), |k| {
        let mut seqs: Vec<Vec<usize>> = vec![vec![firsts[k].0, firsts[k].1]];
        if firsts[k].0 == 0 {
            seqs.push(vec![firsts[k].1]);
        }
        let mut at = 0;
        while at < seqs.len() {
            if seqs[at].len() >= 2 && seqs[at].len() < depth {
                for x in 0..n {
                    let mut s = seqs[at].clone();
                    s.push(x);
                    seqs.push(s);
                }
            }
            at += 1;
        }
        for s in &seqs {
            if ctx.stopped() {
                return;
            }
            crate::util::tick();
            ctx.st(1);
            let bytes: Vec<u8> = s.iter().flat_map(|i| side.pieces[*i].bytes.clone()).collect();
            let expect: Vec<Option<String>> = s.iter().filter(|i| !side.pieces[**i].noise).map(|i| want(*i)).collect();
            let noise: Vec<u8> = s.iter().filter(|i| side.pieces[**i].noise).flat_map(|i| side.pieces[*i].bytes.clone()).collect();
            for chunk in [usize::MAX, 1, 13, 64] {
                let (got, ignored) = (side.extract)(&bytes, chunk);
                ctx.tr(got.len() as u64);
                ctx.trace(1);
                if got != expect {
                    bad(format!("stream extractor, {chunk} bytes at a time, gives {got:?}"), s);
                }
                if ignored != noise {
                    bad(format!("stream extractor, {chunk} bytes at a time, ignores {}", hex(&ignored)), s);
                }
            }
            if noise.is_empty() {
                match (side.load)((side.store)(s)) {
                    Err(e) => bad(format!("storage: {e}"), s),
                    Ok(v) => {
                        for (how, got) in v {
                            ctx.tr(got.len() as u64);
                            ctx.trace(1);
                            if got != expect {
                                bad(format!("storage, {how}: {got:?}"), s);
                            }
                        }
                    }
                }
            }
        }
        ctx.group(side.name, 1);
    });
}

pub fn run(ctx: &Ctx) {
    ctx.assume("the signatures of the enumerated definitions are free of CRC-32 collisions (checked by the enumeration itself)");
    pairs(ctx);
    macro_rules! pieces {
        ($m:ident) => {{
            let mut v: Vec<Piece> = $m::pieces().into_iter().map(|p| Piece { text: p.text, shared: p.shared, noise: false, bytes: p.bytes }).collect();
            v.push(Piece { text: "noise".into(), shared: false, noise: true, bytes: vec![0xec, 0x25, 7] });
            v
        }};
    }
    exchange(ctx, &Side { name: "newer data, older reader", pieces: pieces!(newer), store: newer::store, readers: older::readers, extract: older::extract, load: older::load });
    exchange(ctx, &Side { name: "older data, newer reader", pieces: pieces!(older), store: older::store, readers: newer::readers, extract: newer::extract, load: newer::load });
    exchange(ctx, &Side { name: "same version", pieces: pieces!(newer).into_iter().map(|mut p| { p.shared = !p.noise; p }).collect(), store: newer::store, readers: newer::readers, extract: newer::extract, load: newer::load });
}
