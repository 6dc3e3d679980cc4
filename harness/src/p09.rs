//! P09: filter rules. All combinations of predicates over all short packet sequences, and all short
//! histories of adding and removing rules, against a list model with the exact consultation order.
use crate::dom::*;
use crate::model::*;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::util::*;
use brec::prelude::*;
use brec::RuleFnDef;
use std::cell::RefCell;
use std::io::Cursor;

#[derive(Debug, Clone, PartialEq)]
enum L {
    Blocks(Vec<Blk>),
    Payload(Vec<u8>),
    Packet(Pkt),
}

thread_local! {
    static LOG: RefCell<Vec<L>> = const { RefCell::new(Vec::new()) };
    static JUNK: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
fn log(l: L) {
    LOG.with(|g| g.borrow_mut().push(l));
}
fn take() -> Vec<L> {
    // asking the same question twice in a row is not observable as a decision
    let mut v = LOG.with(|g| std::mem::take(&mut *g.borrow_mut()));
    v.dedup();
    v
}

/// predicate variants: 0 accepts, 1 rejects, 2 and 3 depend on the content
fn pb(v: u8, b: &[Blk]) -> bool {
    match v {
        0 => true,
        1 => false,
        2 => b.iter().any(|b| matches!(b, Blk::Tiny(1) | Blk::Big(..))),
        _ => b.len() != 1,
    }
}
fn pp(v: u8, b: &[u8]) -> bool {
    match v {
        0 => true,
        1 => false,
        2 => b.len() % 2 == 0,
        _ => b.first().copied().unwrap_or(0) < 0x70,
    }
}
fn pf(v: u8, p: &Pkt) -> bool {
    match v {
        0 => true,
        1 => false,
        2 => p.payload.is_some(),
        _ => matches!(p.blocks.last(), Some(Blk::Tiny(_)) | None),
    }
}

fn blocks_of(b: &[BlockReferred]) -> Vec<Blk> {
    b.iter().map(Blk::of_ref).collect()
}
fn s_blocks<const V: u8>(b: &[BlockReferred<'_>]) -> bool {
    let b = blocks_of(b);
    let r = pb(V, &b);
    log(L::Blocks(b));
    r
}
fn s_payload<const V: u8>(b: &[u8]) -> bool {
    log(L::Payload(b.to_vec()));
    pp(V, b)
}
fn s_packet<const V: u8>(p: &Packet) -> bool {
    let p = Pkt::of(p);
    let r = pf(V, &p);
    log(L::Packet(p));
    r
}
fn s_junk(b: &[u8]) {
    JUNK.with(|j| j.borrow_mut().extend_from_slice(b));
}

fn rule<'a>(kind: usize, v: u8, dynamic: bool) -> Rule<'a> {
    match (kind, dynamic) {
        (0, true) => Rule::FilterByBlocks(RuleFnDef::Dynamic(Box::new(move |b: &[BlockReferred]| {
            let b = blocks_of(b);
            let r = pb(v, &b);
            log(L::Blocks(b));
            r
        }))),
        (0, false) => Rule::FilterByBlocks(RuleFnDef::Static(match v {
            0 => |b: &[BlockReferred]| s_blocks::<0>(b),
            1 => |b: &[BlockReferred]| s_blocks::<1>(b),
            2 => |b: &[BlockReferred]| s_blocks::<2>(b),
            _ => |b: &[BlockReferred]| s_blocks::<3>(b),
        })),
        (1, true) => Rule::FilterByPayload(RuleFnDef::Dynamic(Box::new(move |b: &[u8]| {
            log(L::Payload(b.to_vec()));
            pp(v, b)
        }))),
        (1, false) => Rule::FilterByPayload(RuleFnDef::Static(match v {
            0 => s_payload::<0>,
            1 => s_payload::<1>,
            2 => s_payload::<2>,
            _ => s_payload::<3>,
        })),
        (2, true) => Rule::Filter(RuleFnDef::Dynamic(Box::new(move |p: &Packet| {
            let p = Pkt::of(p);
            let r = pf(v, &p);
            log(L::Packet(p));
            r
        }))),
        (2, false) => Rule::Filter(RuleFnDef::Static(match v {
            0 => s_packet::<0>,
            1 => s_packet::<1>,
            2 => s_packet::<2>,
            _ => s_packet::<3>,
        })),
        (_, true) => Rule::Ignored(RuleFnDef::Dynamic(Box::new(s_junk))),
        (_, false) => Rule::Ignored(RuleFnDef::Static(s_junk)),
    }
}
fn kind_id(kind: usize) -> RuleDefId {
    match kind {
        0 => RuleDefId::FilterByBlocks,
        1 => RuleDefId::FilterByPayload,
        2 => RuleDefId::Filter,
        _ => RuleDefId::Ignored,
    }
}

/// the active rules: variant per kind
type Active = [Option<u8>; 3];

fn decide(a: &Active, p: &Pkt, l: &mut Vec<L>) -> bool {
    if let Some(v) = a[0] {
        l.push(L::Blocks(p.blocks.clone()));
        if !pb(v, &p.blocks) {
            return false;
        }
    }
    if let (Some(v), Some(pl)) = (a[1], &p.payload) {
        let b = refc::payload_body(pl);
        let r = pp(v, &b);
        l.push(L::Payload(b));
        if !r {
            return false;
        }
    }
    if let Some(v) = a[2] {
        l.push(L::Packet(p.clone()));
        if !pf(v, p) {
            return false;
        }
    }
    true
}

fn pool() -> Vec<Pkt> {
    vec![
        Pkt::new(vec![], None),
        Pkt::new(vec![Blk::Tiny(1)], None),
        Pkt::new(vec![Blk::Tiny(2)], Some(Pl::Str("text".into()))),
        Pkt::new(vec![Blk::Mix(1, [1, 2, 3], -1, [4, 5]), Blk::Tiny(1)], Some(Pl::Bytes(vec![0x11, 2, 3]))),
        Pkt::new(vec![], Some(Pl::Struct { a: 1, s: "é".into(), v: vec![], o: None })),
        Pkt::new(vec![Blk::Tiny(1), Blk::Blob([1, 2, 3, 4, 5])], Some(Pl::Bytes(vec![]))),
        Pkt::new(vec![Blk::All(Box::new(all0()))], Some(Pl::Wide(0x0101_0180))),
        Pkt::new(vec![Blk::NoCrc(1), Blk::Enum(7), Blk::Bool(true, false)], Some(Pl::Manual(vec![1, 2]))),
        Pkt::new(vec![Blk::Big(1, 1)], Some(Pl::Bytes((0..9001).map(|i| i as u8).collect()))),
    ]
}

fn short<T: std::fmt::Debug>(v: &T) -> String {
    format!("{v:?}").chars().take(900).collect()
}

fn expect(a: &Active, ps: &[&Pkt]) -> (Vec<Pkt>, Vec<L>) {
    let mut l = vec![];
    let mut f = vec![];
    for p in ps {
        if decide(a, p, &mut l) {
            f.push((*p).clone());
        }
    }
    l.dedup();
    (f, l)
}

fn combos(ctx: &Ctx) {
    let pool = pool();
    let enc: Vec<Vec<u8>> = pool.iter().map(refc::packet).collect();
    let n = pool.len();
    let seqs = sequences(n, if ctx.thorough { 4 } else { 3 });
    ctx.group("packet sequences", seqs.len() as u64);
    ctx.group("rule combinations", 125);
    let opt = |i: usize| if i == 0 { None } else { Some(i as u8 - 1) };
    par(ctx, seqs.len(), |k| {
        let s = &seqs[k];
        let ps: Vec<&Pkt> = s.iter().map(|&i| &pool[i]).collect();
        let mut bytes = vec![];
        let mut noisy = vec![];
        for (j, &i) in s.iter().enumerate() {
            bytes.extend(&enc[i]);
            noisy.extend([0xec, 0x25, j as u8]);
            noisy.extend(&enc[i]);
        }
        noisy.extend([9, 9, 9]);
        let image = refc::storage(&s.iter().map(|&i| enc[i].clone()).collect::<Vec<_>>());
        for c in 0..125 {
            let a: Active = [opt(c % 5), opt(c / 5 % 5), opt(c / 25)];
            let dynamic = (c + k) % 2 == 0;
            let (found, lg) = expect(&a, &ps);
            let skipped = ps.len() - found.len();
            let what = |w: &str| format!("{w}: rules (0 accept, 1 reject, 2/3 by content) {a:?} dynamic {dynamic}, packets {s:?} of the pool");
            case(&what("combination"));
            ctx.st(1);
            let diff = |w: &str, got: &[Pkt], l: &[L], found: &[Pkt], lg: &[L]| {
                ctx.trace(1);
                ctx.tr(got.len() as u64 + 1);
                if got != found {
                    ctx.violation(format!("{}\nreturned {}\nexpected {}", what(w), short(&got), short(&found)));
                }
                if l != lg {
                    ctx.violation(format!("{}\nrules were consulted {}\nexpected {}", what(w), short(&l), short(&lg)));
                }
            };
            // the stream extractor
            for (src, sizes) in [(&bytes, &[][..]), (&noisy, &[][..]), (&noisy, &[29][..]), (&bytes, &[1][..]), (&noisy, &[31, 3, 200][..])] {
                if sizes == [1] && bytes.len() > 2000 && !ctx.thorough {
                    continue;
                }
                take();
                let mut ch = Chunks::new(src, sizes);
                let t = catch(|| {
                    extract_with(&mut ch, 8 * src.len() + 64, |r| {
                        for k in 0..3 {
                            if let Some(v) = a[k] {
                                r.add_rule(rule(k, v, dynamic)).unwrap();
                            }
                        }
                    })
                });
                match t {
                    Err(p) => ctx.violation(format!("panic {p} {}", what("extractor"))),
                    Ok(t) => {
                        let got: Vec<Pkt> = t.found().into_iter().cloned().collect();
                        diff("extractor", &got, &take(), &found, &lg);
                        let sk = t.evs.iter().filter(|e| **e == Ev::Skipped).count();
                        if sk != skipped || t.errors() > 0 || !t.ended {
                            ctx.violation(format!("{}\n{sk} skipped, expected {skipped}; errors {} ended {}", what("extractor"), t.errors(), t.ended));
                        }
                    }
                }
            }
            // packet by packet
            let mut rules: Rules = Rules::default();
            // installed in another order than consulted
            for k in [2, 0, 1] {
                if let Some(v) = a[k] {
                    rules.add_rule(rule(k, v, dynamic)).unwrap();
                }
            }
            take();
            let mut cur = Cursor::new(&bytes[..]);
            let mut got = vec![];
            for (j, &i) in s.iter().enumerate() {
                match Packet::filtered(&mut cur, &rules) {
                    Ok(LookInStatus::Accepted(sz, p)) => {
                        got.push(Pkt::of(&p));
                        if sz + refc::HDR != enc[i].len() {
                            ctx.violation(format!("{}\naccepted size {sz}, packet {} bytes", what("Packet::filtered"), enc[i].len()));
                        }
                    }
                    Ok(LookInStatus::Denied(sz)) => {
                        if sz + refc::HDR != enc[i].len() {
                            ctx.violation(format!("{}\ndenied size {sz}, packet {} bytes", what("Packet::filtered"), enc[i].len()));
                        }
                    }
                    Ok(_) => ctx.violation(what("Packet::filtered asks for more data")),
                    Err(e) => ctx.violation(format!("{} {}", what("Packet::filtered fails"), errname(&e))),
                }
                let end: usize = s[..=j].iter().map(|&i| enc[i].len()).sum();
                if cur.position() as usize != end {
                    ctx.violation(format!("{}\nleaves the source at {} instead of {end}", what("Packet::filtered"), cur.position()));
                    break;
                }
            }
            diff("Packet::filtered", &got, &take(), &found, &lg);
            // storage
            let r = catch(|| {
                let mut r = Reader::new(Cursor::new(image.clone())).map_err(|e| errname(&e))?;
                for k in [1, 2, 0] {
                    if let Some(v) = a[k] {
                        r.add_rule(rule(k, v, dynamic)).map_err(|e| errname(&e))?;
                    }
                }
                take();
                let got: Vec<Pkt> = r.filtered().map(|p| Pkt::of(&p.unwrap())).collect();
                diff("Reader::filtered", &got, &take(), &found, &lg);
                for from in 0..=ps.len() {
                    for len in 0..=ps.len() + 1 {
                        let got: Vec<Pkt> = r.range_filtered(from, len).map(|p| Pkt::of(&p.unwrap())).collect();
                        let want: Vec<Pkt> = expect(&a, &ps[from..]).0.into_iter().take(len).collect();
                        let _ = take();
                        diff("Reader::range_filtered", &got, &[], &want, &[]);
                    }
                }
                // unfiltered reads
                let all: Vec<Pkt> = ps.iter().map(|p| (*p).clone()).collect();
                take();
                let got: Vec<Pkt> = r.iter().map(|p| Pkt::of(&p.unwrap())).collect();
                diff("Reader::iter", &got, &take(), &all, &[]);
                let got: Vec<Pkt> = (0..all.len()).map(|i| Pkt::of(&r.nth(i).unwrap().unwrap())).collect();
                diff("Reader::nth", &got, &take(), &all, &[]);
                let got: Vec<Pkt> = r.range(0, all.len()).map(|p| Pkt::of(&p.unwrap())).collect();
                diff("Reader::range", &got, &take(), &all, &[]);
                if !all.is_empty() {
                    let got: Vec<Pkt> = r.seek(all.len() - 1).unwrap().map(|p| Pkt::of(&p.unwrap())).collect();
                    diff("Reader::seek", &got, &take(), &all[all.len() - 1..], &[]);
                }
                Ok::<(), String>(())
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => ctx.violation(format!("{} {e}", what("storage"))),
                Err(p) => ctx.violation(format!("panic or error {p}: {}", what("storage"))),
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}

/// all histories of add (two variants of every kind) / remove / read
fn histories(ctx: &Ctx) {
    let depth = if ctx.thorough { 6 } else { 5 };
    // 0..6 add kind k variant 1 or 3, 6,7 add Ignored, 8..12 remove kind, 12 read
    let nops = 13;
    let total = (nops as u64).pow(depth) as usize;
    ctx.group("rule histories", total as u64);
    let pool = pool();
    let ps: Vec<&Pkt> = [3usize, 2, 5, 1, 4, 0].iter().map(|&i| &pool[i]).collect();
    let mut bytes = vec![];
    for (j, p) in ps.iter().enumerate() {
        bytes.extend([j as u8, 0xec, 0x25]);
        bytes.extend(refc::packet(p));
    }
    let image = refc::storage(&ps.iter().map(|p| refc::packet(p)).collect::<Vec<_>>());
    let chunk = 13 * 13;
    par(ctx, total / chunk, |c| {
        for x in c * chunk..(c + 1) * chunk {
            let mut ops = vec![];
            let mut y = x;
            for _ in 0..depth {
                ops.push(y % nops);
                y /= nops;
            }
            let what = || {
                ops.iter()
                    .map(|&o| match o {
                        0..=5 => format!("add {:?} v{}", kind_id(o / 2).to_string(), 2 + o % 2),
                        6 | 7 => "add Ignored".to_string(),
                        8..=11 => format!("remove {:?}", kind_id(o - 8).to_string()),
                        _ => "read".to_string(),
                    })
                    .collect::<Vec<_>>()
                    .join(", ")
            };
            if x % 169 == 0 {
                case(&what());
            }
            ctx.st(1);
            ctx.trace(2);
            // the extractor reads in between; the storage reader is probed at the end
            let mut a: Active = [None; 3];
            let mut ign = false;
            let mut src = Cursor::new(&bytes[..]);
            let mut rd: PacketBufReader<_> = PacketBufReader::new(&mut src);
            let mut st = Reader::new(Cursor::new(image.clone())).unwrap();
            let mut i = 0;
            let mut junk: Vec<u8> = vec![];
            JUNK.with(|j| j.borrow_mut().clear());
            for (k, &o) in ops.iter().enumerate() {
                ctx.tr(1);
                match o {
                    0..=7 => {
                        let kind = o / 2;
                        let v = 2 + (o % 2) as u8;
                        let dup = if kind == 3 { ign } else { a[kind].is_some() };
                        for (w, r) in [("extractor", rd.add_rule(rule(kind, v, k % 2 == 0))), ("storage", st.add_rule(rule(kind, v, k % 2 == 1)))] {
                            match r {
                                Ok(()) if !dup => {}
                                Err(Error::RuleDuplicate) if dup => {}
                                r => ctx.violation(format!("{w}: adding a rule (already there: {dup}) answers {:?} in [{}]", r.map_err(|e| errname(&e)), what())),
                            }
                        }
                        if kind == 3 {
                            ign = true;
                        } else if !dup {
                            a[kind] = Some(v);
                        }
                    }
                    8..=11 => {
                        rd.remove_rule(kind_id(o - 8));
                        st.remove_rule(kind_id(o - 8));
                        if o == 11 {
                            ign = false;
                        } else {
                            a[o - 8] = None;
                        }
                    }
                    _ => {
                        let mut lg = vec![];
                        let acc = decide(&a, ps[i], &mut lg);
                        lg.dedup();
                        if ign {
                            junk.extend([i as u8, 0xec, 0x25]);
                        }
                        take();
                        let got = loop {
                            match rd.read() {
                                Ok(NextPacket::Found(p)) => break Some(Some(Pkt::of(&p))),
                                Ok(NextPacket::Skipped) => break Some(None),
                                Ok(NextPacket::NoData) | Err(_) => break None,
                                _ => {}
                            }
                        };
                        let want = if acc { Some(ps[i].clone()) } else { None };
                        if got.as_ref() != Some(&want) {
                            ctx.violation(format!("extractor returns {}, expected {} in [{}]", short(&got), short(&want), what()));
                        }
                        let l = take();
                        if l != lg {
                            ctx.violation(format!("extractor consults {}, expected {} in [{}]", short(&l), short(&lg), what()));
                        }
                        i += 1;
                    }
                }
            }
            let j = JUNK.with(|j| j.borrow().clone());
            if j != junk {
                ctx.violation(format!("callback for unrecognised data got {}, expected {} in [{}]", hex(&j), hex(&junk), what()));
            }
            take();
            let (found, lg) = expect(&a, &ps);
            let got: Vec<Pkt> = st.filtered().filter_map(|p| p.ok()).map(|p| Pkt::of(&p)).collect();
            let l = take();
            if got != found || l != lg {
                ctx.violation(format!("storage returns {}, expected {} after [{}]; consulted {}", short(&got), short(&found), what(), short(&l)));
            }
            if ctx.stopped() {
                return;
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    combos(ctx);
    histories(ctx);
    ctx.assume("predicates are pure functions of their argument; asking the same rule twice about the same packet in a row is tolerated");
}
