//! P27 payload hooks: every write prepares the content exactly once, every packet handed out was finished exactly once.
use crate::dev::*;
use crate::dom::*;
use crate::model::*;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::storage::*;
use crate::util::*;
use brec::RuleFnDef;
use brec::prelude::*;
use std::io::{Cursor, ErrorKind, Write};

const ACTS_ALL: [HookAct; 5] = [HookAct::Keep, HookAct::Xor, HookAct::Push, HookAct::Pop, HookAct::Clear];
const KINDS: [ErrorKind; 5] =
    [ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidData];

fn acts_and_failures() -> Vec<HookAct> {
    ACTS_ALL.into_iter().chain(KINDS.into_iter().map(HookAct::Fail)).collect()
}

/// runs with the given hooks; gives the result and what was called
fn hooked<T>(before: HookAct, after: HookAct, f: impl FnOnce() -> T) -> (Result<T, String>, Vec<HookEv>) {
    ACTS.set((before, after));
    CALLS.with(|c| c.borrow_mut().clear());
    let r = catch(f);
    ACTS.set((HookAct::Keep, HookAct::Keep));
    (r, CALLS.with(|c| std::mem::take(&mut *c.borrow_mut())))
}
fn count(l: &[HookEv], e: HookEv) -> usize {
    l.iter().filter(|x| **x == e).count()
}

fn act_on(p: &Pl, a: HookAct) -> Pl {
    let mut p = p.clone();
    match &mut p {
        Pl::Hook(v) => a.on_bytes(v).unwrap(),
        Pl::HookBin(x, t) => a.on_pair(x, t).unwrap(),
        _ => {}
    }
    p
}
fn act_on_packet(p: &Pkt, a: HookAct) -> Pkt {
    Pkt::new(p.blocks.clone(), p.payload.as_ref().map(|x| act_on(x, a)))
}
fn has_hooks(p: &Pkt) -> bool {
    matches!(p.payload, Some(Pl::Hook(_) | Pl::HookBin(..)))
}

fn payloads() -> Vec<Pl> {
    let mut v: Vec<Pl> = [0usize, 1, 2, 3, 8, 60, 4096, 9001].iter().map(|n| Pl::Hook((0..*n).map(|i| i as u8).collect())).collect();
    v.push(Pl::Hook(refc::packet(&Pkt::new(vec![Blk::Tiny(1)], None))));
    v.push(Pl::HookBin(0, String::new()));
    v.push(Pl::HookBin(u32::MAX, "text".into()));
    v.push(Pl::HookBin(7, "x".repeat(5000)));
    // neighbours without hooks
    v.push(Pl::Str("no hooks".into()));
    v.push(Pl::Tiny(3));
    v
}

fn packets_() -> Vec<Pkt> {
    let bl = blocks_small();
    let mut v = vec![];
    for p in payloads() {
        v.push(Pkt::new(vec![], Some(p.clone())));
        v.push(Pkt::new(vec![bl[0].clone()], Some(p.clone())));
        v.push(Pkt::new(vec![bl[3].clone(), bl[1].clone(), bl[4].clone()], Some(p)));
    }
    v.push(Pkt::new(vec![bl[2].clone()], None));
    v
}

/// takes `room` bytes, at most `step` at once, then fails
struct Sink {
    out: Vec<u8>,
    room: usize,
    step: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.room - self.out.len());
        if n == 0 && !b.is_empty() {
            return Err(ErrorKind::BrokenPipe.into());
        }
        self.out.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// the same content as an object of its own type, of the payload enum, and as a packet
enum Obj {
    Packet(Packet),
    Enum(Payload),
    Own(PHook),
    OwnBin(PHookBin),
}
impl Obj {
    fn content(&self) -> Pkt {
        match self {
            Obj::Packet(p) => Pkt::of(p),
            Obj::Enum(p) => Pkt::new(vec![], Some(Pl::of(p))),
            Obj::Own(p) => Pkt::new(vec![], Some(Pl::Hook(p.raw.clone()))),
            Obj::OwnBin(p) => Pkt::new(vec![], Some(Pl::HookBin(p.x, p.t.clone()))),
        }
    }
    fn bytes(&self, c: &Pkt) -> Vec<u8> {
        match (self, &c.payload) {
            (Obj::Packet(_), _) => refc::packet(c),
            (_, Some(p)) => refc::payload(p),
            _ => unreachable!(),
        }
    }
    fn write(&mut self, op: usize, out: &mut Sink) -> std::io::Result<()> {
        macro_rules! ops {
            ($p:expr, $w:ident, $v:ident) => {
                match op {
                    0 => brec::$w::write_all($p, out),
                    1 => brec::$w::write($p, out).map(|_| ()),
                    2 => brec::$v::write_vectored_all($p, out),
                    3 => brec::$v::write_vectored($p, out).map(|_| ()),
                    _ => brec::$v::slices($p).and_then(|s| {
                        for part in s.get().iter() {
                            out.write_all(part)?;
                        }
                        Ok(())
                    }),
                }
            };
        }
        match self {
            Obj::Packet(p) => ops!(p, WriteMutTo, WriteVectoredMutTo),
            Obj::Enum(p) => ops!(p, WriteMutTo, WriteVectoredMutTo),
            Obj::Own(p) => ops!(p, WritePayloadWithHeaderTo, WriteVectoredPayloadWithHeaderTo),
            Obj::OwnBin(p) => ops!(p, WritePayloadWithHeaderTo, WriteVectoredPayloadWithHeaderTo),
        }
    }
}
const OPS: [&str; 5] = ["write_all", "write", "write_vectored_all", "write_vectored", "slices"];

fn objects(p: &Pkt) -> Vec<(&'static str, Obj)> {
    let mut v = vec![("packet", Obj::Packet(p.real()))];
    if let (true, Some(pl)) = (p.blocks.is_empty(), &p.payload) {
        v.push(("payload enum", Obj::Enum(pl.real())));
        match pl {
            Pl::Hook(b) => v.push(("payload", Obj::Own(PHook { raw: b.clone() }))),
            Pl::HookBin(x, t) => v.push(("payload", Obj::OwnBin(PHookBin { x: *x, t: t.clone() }))),
            _ => {}
        }
    }
    v
}
fn short(p: &Pkt) -> String {
    format!("{p:?}").chars().take(200).collect()
}

/// one call on one object, compared with the model; `c` is the content before and after
fn call(o: &mut Obj, name: &str, c: &mut Pkt, op: usize, act: HookAct, room: usize, step: usize) -> Result<(), String> {
    let hooks = has_hooks(c);
    let start = short(c);
    let what = |s: String| format!("{} of a {name} {start}, before_encode does {act:?}, sink takes {room} bytes, {step} at once: {s}", OPS[op]);
    let mut sink = Sink { out: vec![], room, step };
    let (r, calls) = hooked(act, HookAct::Keep, || o.write(op, &mut sink));
    let r = r.map_err(|p| what(format!("panics: {p}")))?;
    let n = count(&calls, HookEv::Before);
    if n != usize::from(hooks) {
        return Err(what(format!("before_encode was called {n} times ({calls:?})")));
    }
    if count(&calls, HookEv::After) > 0 {
        return Err(what("after_decode was called".into()));
    }
    if let (true, HookAct::Fail(k)) = (hooks, act) {
        return match r {
            Err(e) if e.kind() == k => {
                if sink.out.is_empty() && o.content() == *c {
                    Ok(())
                } else {
                    Err(what(format!("failed, but {} bytes were delivered; content is now {}", sink.out.len(), short(&o.content()))))
                }
            }
            Err(e) => Err(what(format!("fails with {:?}", e.kind()))),
            Ok(()) => Err(what("reports success".into())),
        };
    }
    if hooks {
        *c = act_on_packet(c, act);
    }
    if o.content() != *c {
        return Err(what(format!("leaves {}", short(&o.content()))));
    }
    let enc = o.bytes(c);
    match r {
        Ok(()) if matches!(op, 0 | 2 | 4) && sink.out != enc => Err(what(format!("writes {}\ninstead of {}", hex(&sink.out), hex(&enc)))),
        Ok(()) if room >= enc.len() && step >= enc.len() && op == 1 && sink.out != enc => Err(what(format!("writes {}\ninstead of {}", hex(&sink.out), hex(&enc)))),
        Err(e) if room >= enc.len() => Err(what(format!("fails with {:?}", e.kind()))),
        _ if !enc.starts_with(&sink.out) => Err(what(format!("writes {}\nwhich is not a prefix of {}", hex(&sink.out), hex(&enc)))),
        _ => Ok(()),
    }
}

fn writes(ctx: &Ctx) {
    let pk = packets_();
    let acts = acts_and_failures();
    ctx.group("contents x hooks written", (pk.len() * acts.len()) as u64);
    par(ctx, pk.len() * acts.len(), |k| {
        let (p, act) = (&pk[k / acts.len()], acts[k % acts.len()]);
        case(&format!("writing {} with {act:?}", short(p)));
        let len = refc::packet(p).len();
        let mut sinks = vec![(usize::MAX, usize::MAX), (usize::MAX, 1), (usize::MAX, 29), (usize::MAX, 100)];
        if len < 400 {
            sinks.extend((0..len + 40).map(|r| (r, usize::MAX)));
        } else {
            sinks.extend([0, 1, 28, 29, 30, 60, len - 1].map(|r| (r, usize::MAX)));
        }
        for op in 0..OPS.len() {
            for (room, step) in &sinks {
                for (name, mut o) in objects(p) {
                    ctx.st(1);
                    ctx.tr(1);
                    ctx.trace(1);
                    if let Err(e) = call(&mut o, name, &mut p.clone(), op, act, *room, *step) {
                        ctx.violation(e);
                        return;
                    }
                }
            }
        }
    });
    // the same object written again and again
    let depth = if ctx.thorough { 4 } else { 3 };
    let small: Vec<Pkt> = pk.into_iter().filter(|p| refc::packet(p).len() < 300).collect();
    let seqs = sequences(OPS.len(), depth);
    let choices = [HookAct::Keep, HookAct::Xor, HookAct::Push, HookAct::Pop, HookAct::Fail(ErrorKind::Other)];
    ctx.group("sequences of writes of one object", (small.len() * seqs.len()) as u64);
    par(ctx, small.len() * seqs.len(), |k| {
        let (p, s) = (&small[k / seqs.len()], &seqs[k % seqs.len()]);
        case(&format!("writing {} with {s:?}", short(p)));
        for a in 0..choices.len().pow(s.len() as u32) {
            for (name, mut o) in objects(p) {
                let mut c = p.clone();
                let mut a = a;
                for (i, op) in s.iter().enumerate() {
                    ctx.tr(1);
                    let act = choices[a % choices.len()];
                    a /= choices.len();
                    if let Err(e) = call(&mut o, name, &mut c, *op, act, usize::MAX, usize::MAX) {
                        ctx.violation(format!("call {i} of {s:?}: {e}"));
                        return;
                    }
                }
                ctx.st(1);
                ctx.trace(1);
            }
        }
    });
}

fn reads(ctx: &Ctx) {
    let pk = packets_();
    let acts = acts_and_failures();
    let paths = all_paths();
    ctx.group("contents x hooks x reading paths", (pk.len() * acts.len() * paths.len()) as u64);
    par(ctx, pk.len() * paths.len(), |k| {
        let (p, path) = (&pk[k / paths.len()], paths[k % paths.len()]);
        let enc = refc::packet(p);
        let hooks = usize::from(has_hooks(p));
        case(&format!("{} of {}", path.0, short(p)));
        for act in &acts {
            for tail in [vec![], refc::packet(&Pkt::new(vec![Blk::Tiny(9)], Some(Pl::Str("next".into())))), vec![0x33; 40]] {
                if path.0.contains("pieces") && !tail.is_empty() {
                    continue;
                }
                ctx.st(1);
                ctx.tr(1);
                ctx.trace(1);
                let b = [&enc[..], &tail].concat();
                let what = |s: String| format!("{} of {}, followed by {} bytes, after_decode does {act:?}: {s}", path.0, short(p), tail.len());
                let (r, calls) = hooked(HookAct::Keep, *act, || run(path, &b).0);
                let n = count(&calls, HookEv::After);
                let r = match r {
                    Ok(Out::Panic(e)) | Err(e) => return ctx.violation(what(format!("panics: {e}"))),
                    Ok(r) => r,
                };
                if count(&calls, HookEv::Before) > 0 {
                    return ctx.violation(what("before_encode was called".into()));
                }
                if let (1, HookAct::Fail(_)) = (hooks, act) {
                    if !matches!(r, Out::Err(_)) || n == 0 {
                        return ctx.violation(what(format!("{r:?}, after_decode was called {n} times")));
                    }
                    continue;
                }
                let want = act_on_packet(p, *act);
                if r != Out::Ok(want.clone()) || n != hooks {
                    return ctx.violation(what(format!("{r:?}, after_decode was called {n} times; expected {want:?}")).chars().take(3000).collect());
                }
            }
        }
        // nothing is finished that is not handed out: cut and damaged input
        // (a packet within a payload may come to light)
        if enc.len() > 400 || matches!(&p.payload, Some(Pl::Hook(b)) if b.starts_with(&enc[..4])) {
            return;
        }
        for cut in 0..enc.len() {
            ctx.st(1);
            ctx.tr(1);
            let (r, calls) = hooked(HookAct::Keep, HookAct::Push, || run(path, &enc[..cut]).0);
            if matches!(r, Ok(Out::Ok(_)) | Err(_)) || count(&calls, HookEv::After) > 0 {
                return ctx.violation(format!("{} of {cut} bytes of {}: {r:?}, after_decode was called {} times", path.0, short(p), count(&calls, HookEv::After)));
            }
        }
        for at in 0..enc.len() {
            for x in 1..=255u8 {
                ctx.st(1);
                ctx.tr(1);
                let mut b = enc.clone();
                b[at] ^= x;
                let (r, calls) = hooked(HookAct::Keep, HookAct::Push, || run(path, &b).0);
                let n = count(&calls, HookEv::After);
                let bad = match r {
                    Err(e) => Some(format!("panics: {e}")),
                    Ok(Out::Ok(q)) => (q != act_on_packet(p, HookAct::Push) || n != hooks).then(|| format!("{q:?}, after_decode was called {n} times")),
                    Ok(o) => (n > 0).then(|| format!("{o:?}, but after_decode was called {n} times")),
                };
                if let Some(e) = bad {
                    return ctx.violation(format!("{} of {} with byte {at} altered by {x:#x}: {e}", path.0, short(p)));
                }
            }
        }
    });
}

thread_local! {
    static SEEN: std::cell::RefCell<Vec<Pkt>> = const { std::cell::RefCell::new(vec![]) };
}
/// (rule set, verdict): 0 none, 1 blocks, 2 payload bytes, 3 packet
fn rules<'a>(kind: usize, verdict: bool) -> Vec<Rule<'a>> {
    match kind {
        1 => vec![Rule::FilterByBlocks(RuleFnDef::Dynamic(Box::new(move |_: &[BlockReferred]| verdict)))],
        2 => vec![Rule::FilterByPayload(RuleFnDef::Dynamic(Box::new(move |_: &[u8]| verdict)))],
        3 => vec![Rule::Filter(RuleFnDef::Dynamic(Box::new(move |p: &Packet| {
            SEEN.with(|s| s.borrow_mut().push(Pkt::of(p)));
            verdict
        })))],
        _ => vec![],
    }
}

/// sequences of packets through the extractor and a storage
fn sequences_(ctx: &Ctx) {
    let pool = [
        Pkt::new(vec![Blk::Tiny(1)], Some(Pl::Hook(vec![1, 2, 3]))),
        Pkt::new(vec![], Some(Pl::HookBin(5, "abc".into()))),
        Pkt::new(vec![Blk::Enum(7)], Some(Pl::Str("plain".into()))),
        Pkt::new(vec![Blk::Tiny(2)], None),
    ];
    let depth = if ctx.thorough { 4 } else { 3 };
    let seqs = sequences(pool.len(), depth);
    let pairs: Vec<(HookAct, HookAct)> = acts_and_failures().into_iter().flat_map(|b| acts_and_failures().into_iter().map(move |a| (b, a))).filter(|(b, a)| {
        // failures of one kind on both sides suffice
        ![*a, *b].iter().any(|x| matches!(x, HookAct::Fail(k) if *k != ErrorKind::Other))
    }).collect();
    ctx.group("sequences of packets x hooks", (seqs.len() * pairs.len()) as u64);
    par(ctx, seqs.len() * pairs.len(), |k| {
        let s = &seqs[k / pairs.len()];
        let (before, after) = pairs[k % pairs.len()];
        case(&format!("{s:?} with {before:?}, {after:?}"));
        ctx.st(1);
        let what = |e: String| format!("{s:?} of the pool, before_encode does {before:?}, after_decode does {after:?}: {e}");
        // written into a storage
        let dev = Dev::new(vec![]);
        let mut stored: Vec<Pkt> = vec![];
        let r: Result<(), String> = (|| {
            let mut w = Writer::new(dev.handle()).map_err(|e| errname(&e))?;
            for i in s {
                let p = &pool[*i];
                ctx.tr(1);
                let (r, calls) = hooked(before, after, || w.insert(p.real()));
                let n = count(&calls, HookEv::Before);
                if n != usize::from(has_hooks(p)) || count(&calls, HookEv::After) > 0 {
                    return Err(format!("insert: hooks called {calls:?}"));
                }
                match (r?, has_hooks(p) && matches!(before, HookAct::Fail(_))) {
                    (Ok(()), false) => stored.push(if has_hooks(p) { act_on_packet(p, before) } else { p.clone() }),
                    (Err(_), true) => {}
                    (r, _) => return Err(format!("insert: {:?}", r.map_err(|e| errname(&e)))),
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            return ctx.violation(what(e));
        }
        let img = dev.image();
        if let Err(e) = image_shows(&img, &stored) {
            return ctx.violation(what(format!("without hooks on reading: {e}")));
        }
        let stream: Vec<u8> = stored.iter().flat_map(refc::packet).collect();
        // what a reader gives for a record
        let finished = |p: &Pkt| -> Option<Pkt> {
            match (has_hooks(p), after) {
                (true, HookAct::Fail(_)) => None,
                (true, a) => Some(act_on_packet(p, a)),
                _ => Some(p.clone()),
            }
        };
        for kind in 0..4 {
            for verdict in [true, false] {
                if kind == 0 && !verdict {
                    continue;
                }
                // payload rules concern packets with a payload only
                let denied = |p: &Pkt| !verdict && (kind != 2 || p.payload.is_some());
                let visible: Vec<Option<Pkt>> = stored.iter().map(|p| if kind != 3 && denied(p) { None } else { Some(finished(p)) }).flatten().collect();
                // hooks run only for packets which reach the last stage
                let reached: usize = stored.iter().filter(|p| has_hooks(p) && !(kind < 3 && denied(p))).count();
                for src in 0..6 {
                    ctx.tr(1);
                    ctx.trace(1);
                    SEEN.with(|s| s.borrow_mut().clear());
                    let (r, calls) = hooked(before, after, || -> Result<Vec<Option<Pkt>>, String> {
                        let mut out = vec![];
                        if src < 2 {
                            let sizes: &[usize] = if src == 0 { &[] } else { &[13] };
                            let mut c = Chunks::new(&stream, sizes);
                            let mut r: PacketBufReader<_> = PacketBufReader::new(&mut c);
                            for x in rules(kind, verdict) {
                                r.add_rule(x).map_err(|e| errname(&e))?;
                            }
                            for _ in 0..20 * stream.len() + 20 {
                                match r.read() {
                                    Ok(NextPacket::Found(p)) => out.push(Some(Pkt::of(&p))),
                                    Ok(NextPacket::NoData) => return Ok(out),
                                    Ok(_) => {}
                                    Err(e) if matches!(after, HookAct::Fail(_)) => {
                                        let _ = e;
                                        out.push(None)
                                    }
                                    Err(e) => return Err(errname(&e)),
                                }
                            }
                            return Err("does not end".into());
                        }
                        let mut r = Reader::new(Cursor::new(img.clone())).map_err(|e| errname(&e))?;
                        for x in rules(kind, verdict) {
                            r.add_rule(x).map_err(|e| errname(&e))?;
                        }
                        let item = |x: Result<Packet, Error>| x.ok().map(|p| Pkt::of(&p));
                        match src {
                            2 => out.extend(r.filtered().map(item)),
                            3 => out.extend(r.range_filtered(0, stored.len()).map(item)),
                            4 => out.extend(r.iter().map(item)),
                            _ => {
                                for i in 0..stored.len() {
                                    out.extend(r.nth(i).transpose().map(item));
                                }
                            }
                        }
                        Ok(out)
                    });
                    let name = ["extractor", "extractor in reads of 13", "filtered", "range_filtered", "iter", "nth"][src];
                    let w = |e: String| what(format!("{name}, rule {kind} says {verdict}: {e}"));
                    let unfiltered = src >= 4;
                    let seen = SEEN.with(|s| s.borrow().clone());
                    let n = count(&calls, HookEv::After);
                    let got = match r {
                        Ok(Ok(g)) => g,
                        Ok(Err(e)) | Err(e) => return ctx.violation(w(e)),
                    };
                    let want: Vec<Option<Pkt>> = if unfiltered {
                        stored.iter().map(finished).collect()
                    } else if kind == 3 && !verdict {
                        // those whose hook fails are reported, all others denied
                        visible.iter().filter(|x| x.is_none()).cloned().collect()
                    } else {
                        visible.clone()
                    };
                    let calls_wanted = if unfiltered { stored.iter().filter(|p| has_hooks(p)).count() } else { reached };
                    if got != want {
                        return ctx.violation(w(format!("{got:?}\nexpected {want:?}")));
                    }
                    if n != calls_wanted || count(&calls, HookEv::Before) > 0 {
                        return ctx.violation(w(format!("hooks called {calls:?}, expected {calls_wanted} times after_decode")));
                    }
                    if kind == 3 && !unfiltered {
                        let mut asked: Vec<Pkt> = visible.iter().flatten().cloned().collect();
                        let mut seen = seen;
                        asked.dedup();
                        seen.dedup();
                        if seen != asked {
                            return ctx.violation(w(format!("the rule saw {seen:?}\nexpected {asked:?}")));
                        }
                    }
                }
            }
        }
    });
}

pub fn check(ctx: &Ctx) {
    writes(ctx);
    reads(ctx);
    sequences_(ctx);
    ctx.assume("hooks change the content of their own payload only, or fail");
}
