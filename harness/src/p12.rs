//! P12 the block limit is the same for every reader.
use crate::model::*;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::util::*;
use brec::prelude::*;
use std::io::Cursor;

fn cases(thorough: bool) -> Vec<Pkt> {
    let mut counts: Vec<usize> = (0..=20).chain(120..=136).chain(250..=270).chain([300, 500, 509, 510, 511, 512, 513, 767, 768, 1000, 1023, 1024]).collect();
    if thorough {
        counts = (0..=1100).collect();
        counts.extend([65535, 65536, 65537]);
    } else {
        counts.push(65536);
    }
    let mixed = [Blk::Tiny(3), Blk::Bool(true, false), Blk::NoCrc(4), Blk::Mix(1, [2; 3], 4, [5; 2]), Blk::Enum(7)];
    let mut v = vec![];
    for n in counts {
        for pl in [None, Some(Pl::Str("p".into())), Some(Pl::Tiny(9))] {
            v.push(Pkt::new((0..n).map(|i| Blk::Tiny(i as u8)).collect(), pl.clone()));
            if n < 2000 {
                v.push(Pkt::new((0..n).map(|i| mixed[i % mixed.len()].clone()).collect(), pl));
            }
        }
    }
    v
}

pub fn run_(ctx: &Ctx) {
    let cs = cases(ctx.thorough);
    ctx.group("packets", cs.len() as u64);
    let before = Pkt::new(vec![Blk::Tiny(1)], Some(Pl::Str("before".into())));
    let after = Pkt::new(vec![Blk::Tiny(2)], Some(Pl::Str("after".into())));
    let (bb, ab) = (refc::packet(&before), refc::packet(&after));
    par(ctx, cs.len(), |i| {
        let p = &cs[i];
        let n = p.blocks.len();
        let bytes = refc::packet(p);
        let ok = n <= 255;
        case(&format!("{n} blocks"));
        ctx.st(1);
        let who = |name: &str| format!("{name}: packet of {n} blocks{}", if p.payload.is_some() { " and a payload" } else { "" });
        for &path in WHOLE {
            ctx.tr(1);
            ctx.trace(1);
            match run(path, &bytes).0 {
                Out::Ok(q) if ok && q == *p => {}
                Out::Err(_) if !ok => {}
                Out::Ok(q) => ctx.violation(format!("{} is read as {} blocks", who(path.0), q.blocks.len())),
                o => ctx.violation(format!("{} gives {}", who(path.0), format!("{o:?}").chars().take(200).collect::<String>())),
            }
        }
        // rule-aware reads: with accepting rules the answer is the same
        for mask in 1..8u32 {
            let mut rules: Rules = Rules::default();
            if mask & 1 != 0 {
                rules.add_rule(Rule::FilterByBlocks(brec::RuleFnDef::Dynamic(Box::new(|_| true)))).unwrap();
            }
            if mask & 2 != 0 {
                rules.add_rule(Rule::FilterByPayload(brec::RuleFnDef::Dynamic(Box::new(|_| true)))).unwrap();
            }
            if mask & 4 != 0 {
                rules.add_rule(Rule::Filter(brec::RuleFnDef::Dynamic(Box::new(|_| true)))).unwrap();
            }
            ctx.tr(1);
            let good = match catch(|| Packet::filtered(&mut Cursor::new(&bytes), &rules)) {
                Ok(Ok(LookInStatus::Accepted(_, q))) => ok && Pkt::of(&q) == *p,
                Ok(Err(_)) => !ok,
                _ => false,
            };
            if !good {
                ctx.violation(format!("{} with rules {mask:#b} is not treated by the limit", who("Packet::filtered")));
            }
        }
        // the extractor goes on after it
        let stream = [&bb[..], &bytes, &ab].concat();
        for sizes in [&[][..], &[1000][..], &[29, 7][..]] {
            if sizes.len() == 2 && bytes.len() > 20_000 {
                continue;
            }
            ctx.tr(1);
            ctx.trace(1);
            match catch(|| extract(&mut Chunks::new(&stream, sizes), 4 * stream.len() + 64)) {
                Ok(t) => {
                    let want: Vec<&Pkt> = if ok { vec![&before, p, &after] } else { vec![&before, &after] };
                    if t.found() != want || t.errors() != (!ok) as usize || !t.ignored.is_empty() || !t.ended {
                        ctx.violation(format!(
                            "{} between two others: delivered {} packets with {:?} blocks, {} errors, {} ignored bytes (reads of {sizes:?})",
                            who("PacketBufReader"), t.found().len(), t.found().iter().map(|p| p.blocks.len()).collect::<Vec<_>>(), t.errors(), t.ignored.len()
                        ));
                    }
                }
                Err(e) => ctx.violation(format!("{}: panics {e}", who("PacketBufReader"))),
            }
        }
        // storage
        let img = refc::storage(&[bb.clone(), bytes.clone(), ab.clone()]);
        let r = catch(|| {
            let mut bad = vec![];
            let mut s = Reader::new(Cursor::new(img)).map_err(|e| e.to_string())?;
            if s.count() != 3 {
                bad.push(format!("count {}", s.count()));
            }
            let one = |r: Option<Result<Packet, Error>>| match r {
                Some(Ok(q)) => Some(Some(Pkt::of(&q))),
                Some(Err(_)) => Some(None),
                None => None,
            };
            let mid = Some(if ok { Some(p.clone()) } else { None });
            let nth: Vec<_> = (0..3).map(|k| one(s.nth(k).transpose())).collect();
            if nth != vec![Some(Some(before.clone())), mid.clone(), Some(Some(after.clone()))] {
                bad.push("nth".to_string());
            }
            for k in 0..3 {
                let want = [Some(Some(before.clone())), mid.clone(), Some(Some(after.clone()))][k].clone();
                if one(s.range(k, 1).next()) != want {
                    bad.push(format!("range({k},1)"));
                }
                if one(s.range_filtered(k, 1).next()) != want {
                    bad.push(format!("range_filtered({k},1)"));
                }
            }
            let all: Vec<_> = s.range(0, 3).map(|r| one(Some(r))).collect();
            if all != vec![Some(Some(before.clone())), mid.clone(), Some(Some(after.clone()))] {
                bad.push("range(0,3)".to_string());
            }
            let it: Vec<_> = s.iter().take(10).map(|r| one(Some(r))).collect();
            let fi: Vec<_> = s.filtered().take(10).map(|r| one(Some(r))).collect();
            for (name, v) in [("iter", it), ("filtered", fi)] {
                let good = if ok {
                    v == vec![Some(Some(before.clone())), mid.clone(), Some(Some(after.clone()))]
                } else {
                    // an error at its place; never the packet or a part of it
                    v.first() == Some(&Some(Some(before.clone()))) && v.get(1) == Some(&Some(None)) && v.iter().skip(2).all(|x| matches!(x, Some(None)) || *x == Some(Some(after.clone())))
                };
                if !good {
                    bad.push(format!("{name}: {} items", v.len()));
                }
            }
            Ok::<_, String>(bad)
        });
        ctx.tr(12);
        match r {
            Ok(Ok(b)) if b.is_empty() => {}
            other => ctx.violation(format!("{} in a storage: {other:?}", who("Reader"))),
        }
        if i % 61 == 0 {
            ctx.sample(|| who("packet"));
        }
    });
}
