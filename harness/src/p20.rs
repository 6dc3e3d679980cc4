//! P20: several openers of one locked file storage, all interleavings of their system calls within a
//! bound on preemptions, in virtual time, on real files of a scratch folder.
use crate::model::*;
use crate::proto::*;
use crate::readers::*;
use crate::refc;
use crate::storage::*;
use crate::sys::*;
use crate::util::*;
use brec::prelude::*;
use std::path::{Path, PathBuf};
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Act {
    /// open with this waiting time and interval in milliseconds
    Open(Option<u64>, u64),
    Insert,
    /// keep it open for that long
    Hold(u64),
    Close,
}
use Act::*;

#[derive(Clone)]
struct Scenario {
    name: &'static str,
    initial: Initial,
    threads: Vec<Vec<Act>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Initial {
    Absent,
    Records(usize),
    Damaged,
}

const MS: u64 = 1_000_000;

fn record(t: usize, n: usize) -> Pkt {
    Pkt::new(vec![Blk::Mix(t as u16, [n as u8; 3], 7, [1, 2])], Some(Pl::Str(format!("t{t}n{n}"))))
}

fn open_storage(path: &Path, timeout: Option<u64>, interval: u64) -> Result<FileStorage, Error> {
    // both ways of opening
    if timeout.is_some() || interval != 50 {
        let mut o = FileStorageOptions::new(path).interval(Duration::from_millis(interval));
        if let Some(t) = timeout {
            o = o.timeout(Duration::from_millis(t));
        }
        o.open()
    } else {
        FileStorage::new(path, None, None)
    }
}

#[derive(Debug, Clone)]
struct Opening {
    thread: usize,
    timeout: Option<u64>,
    /// indices in the event log
    call: usize,
    back: usize,
    /// closing of a successful opening
    close_call: usize,
    close_back: usize,
    result: String,
    inserted: Vec<Pkt>,
    t0: u64,
    t1: u64,
}

struct Outcome {
    openings: Vec<Opening>,
    log: Vec<Event>,
    trace: Vec<(usize, usize)>,
    overrun: bool,
    panics: Vec<String>,
}

fn run_threads(sc: &Scenario, path: &Path, plan: Vec<usize>, preemptions: usize, timed: bool) -> Outcome {
    let n = sc.threads.len();
    let s = Sched::new(n, plan, preemptions, path);
    s.m.lock().unwrap().timed = timed;
    let mut hs = vec![];
    for t in 0..n {
        let s = s.clone();
        let acts = sc.threads[t].clone();
        let path: PathBuf = path.to_path_buf();
        hs.push(std::thread::spawn(move || {
            s.enter(t);
            let r = catch(|| {
                let mut ops: Vec<Opening> = vec![];
                let mut st: Option<FileStorage> = None;
                let mut n = 0;
                let mark = |w: What| {
                    s.note(t, w);
                    s.m.lock().unwrap().log.len() - 1
                };
                let close = |st: &mut Option<FileStorage>, ops: &mut Vec<Opening>| {
                    if let Some(x) = st.take() {
                        let a = mark(What::Call("close".into()));
                        drop(x);
                        let b = mark(What::Return("close".into()));
                        let o = ops.last_mut().unwrap();
                        o.close_call = a;
                        o.close_back = b;
                    }
                };
                for a in acts {
                    match a {
                        Open(timeout, interval) => {
                            close(&mut st, &mut ops);
                            let call = mark(What::Call(format!("open {timeout:?}/{interval}")));
                            let t0 = s.now();
                            let r = open_storage(&path, timeout, interval);
                            let t1 = s.now();
                            let result = match &r {
                                Ok(_) => "ok".to_string(),
                                Err(e) => errname(e),
                            };
                            st = r.ok();
                            let back = mark(What::Return(result.clone()));
                            ops.push(Opening {
                                thread: t,
                                timeout,
                                call,
                                back,
                                close_call: usize::MAX,
                                close_back: usize::MAX,
                                result,
                                inserted: vec![],
                                t0,
                                t1,
                            });
                        }
                        Insert => {
                            if let Some(x) = &mut st {
                                let p = record(t, n);
                                n += 1;
                                match x.insert(p.real()) {
                                    Ok(()) => ops.last_mut().unwrap().inserted.push(p),
                                    Err(e) => panic!("insertion fails: {}", errname(&e)),
                                }
                            }
                        }
                        Hold(ms) => {
                            if st.is_some() {
                                std::thread::sleep(Duration::from_millis(ms));
                            }
                        }
                        Close => close(&mut st, &mut ops),
                    }
                }
                close(&mut st, &mut ops);
                ops
            });
            s.leave(t);
            r
        }));
    }
    s.start();
    let mut openings = vec![];
    let mut panics = vec![];
    for h in hs {
        match h.join().unwrap() {
            Ok(o) => openings.extend(o),
            Err(p) => panics.push(p),
        }
    }
    let g = s.m.lock().unwrap();
    Outcome { openings, log: g.log.clone(), trace: g.trace.clone(), overrun: g.overrun, panics }
}

fn judge(sc: &Scenario, path: &Path, o: &Outcome) -> Result<(), String> {
    if !o.panics.is_empty() {
        return Err(format!("panic {:?}", o.panics));
    }
    if o.overrun {
        return Err(format!("no end after {MAX_STEPS} operations"));
    }
    let base = match sc.initial {
        Initial::Records(n) => base_list(n),
        _ => vec![],
    };
    // accesses of the storage file per opening; an opener that is refused has none
    let mut spans: Vec<(usize, usize, usize)> = vec![];
    for (k, op) in o.openings.iter().enumerate() {
        let end = if op.result == "ok" { op.close_back } else { op.back };
        let acc: Vec<usize> = o
            .log
            .iter()
            .enumerate()
            .filter(|(i, e)| *i > op.call && *i < end && e.thread == op.thread && matches!(&e.what, What::Storage(n) if *n != "close" && *n != "open"))
            .map(|(i, _)| i)
            .collect();
        let refused = op.result.starts_with("FileIsLocked") || op.result.starts_with("TimeoutToWaitLockedFile");
        if refused && !acc.is_empty() {
            return Err(format!("thread {} was refused ({}) but used the storage file: {:?}", op.thread, op.result, o.log[acc[0]].what));
        }
        if let (Some(a), Some(b)) = (acc.first(), acc.last()) {
            spans.push((*a, *b, k));
        }
        // answers
        let others = |from: usize, to: usize| {
            o.openings.iter().enumerate().any(|(j, x)| {
                let xe = if x.result == "ok" { x.close_back } else { x.back };
                j != k && x.thread != op.thread && x.call < to && from < xe
            })
        };
        let damaged = sc.initial == Initial::Damaged && op.result.starts_with("DamagedSlot");
        if op.result == "ok" {
            if sc.initial == Initial::Damaged {
                return Err("a damaged storage is opened".into());
            }
        } else if op.result.starts_with("FileIsLocked") {
            if op.timeout.is_some() {
                return Err("an opener with a waiting time gets `locked`".into());
            }
            if !others(op.call, op.back) {
                return Err(format!("thread {} gets `locked` although nobody else had it open", op.thread));
            }
            if o.log[op.call..op.back].iter().any(|e| e.thread == op.thread && matches!(e.what, What::Sleep(_))) {
                return Err("an opener without a waiting time waits".into());
            }
        } else if op.result.starts_with("TimeoutToWaitLockedFile") {
            let Some(w) = op.timeout else {
                return Err("an opener without a waiting time reports a timeout".into());
            };
            if op.t1 - op.t0 < w * MS {
                return Err(format!("thread {} reports a timeout after {} of {w} ms", op.thread, (op.t1 - op.t0) / MS));
            }
            // its last attempt, after its last sleep, must have met somebody
            let last = (op.call..op.back).rev().find(|&i| o.log[i].thread == op.thread && matches!(o.log[i].what, What::Sleep(_))).unwrap_or(op.call);
            // waking up is later than falling asleep: the first thing it did afterwards
            let woke = (last + 1..op.back).find(|&i| o.log[i].thread == op.thread).unwrap_or(last);
            if !others(woke, op.back) {
                return Err(format!("thread {} reports a timeout although the storage was free at its last attempt", op.thread));
            }
        } else if !damaged {
            return Err(format!("opening by thread {} answers {}", op.thread, op.result));
        }
    }
    // at most one is open
    for (i, a) in o.openings.iter().enumerate() {
        for b in &o.openings[i + 1..] {
            if a.result == "ok" && b.result == "ok" && a.back < b.close_call && b.back < a.close_call {
                return Err(format!("the storage is open twice, by threads {} and {}", a.thread, b.thread));
            }
        }
    }
    spans.sort();
    for w in spans.windows(2) {
        if w[1].0 < w[0].1 {
            let (a, b) = (&o.openings[w[0].2], &o.openings[w[1].2]);
            return Err(format!(
                "threads {} and {} use the storage file at the same time ({:?} of the second between {:?} and {:?} of the first)",
                a.thread, b.thread, o.log[w[1].0].what, o.log[w[0].0].what, o.log[w[0].1].what
            ));
        }
    }
    if sc.initial == Initial::Damaged {
        return Ok(());
    }
    // everything inserted survives, in the order of the holders
    let mut want = base;
    let mut holders: Vec<&Opening> = o.openings.iter().filter(|x| x.result == "ok").collect();
    holders.sort_by_key(|x| x.back);
    for h in holders {
        want.extend(h.inserted.iter().cloned());
    }
    let img = std::fs::read(path).unwrap_or_default();
    image_shows(&img, &want).map_err(|e| format!("at the end: {e}"))?;
    // and the lock is free
    match open_storage(path, None, 50) {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("at the end the storage cannot be opened: {}", errname(&e))),
    }
}

fn explore(ctx: &Ctx, sc: &Scenario, dir: &Path, preemptions: usize, first: usize) -> u64 {
    let mut plan = vec![first];
    let path = dir.join("s.bin");
    let lock = dir.join("s.lock");
    let mut count = 0u64;
    loop {
        let _ = std::fs::remove_file(&lock);
        match sc.initial {
            Initial::Absent => {
                let _ = std::fs::remove_file(&path);
            }
            Initial::Records(n) => std::fs::write(&path, base_image(n)).unwrap(),
            Initial::Damaged => {
                let mut b = base_image(2);
                b[100] ^= 1;
                std::fs::write(&path, b).unwrap();
            }
        }
        case(&format!("{} schedule {plan:?}", sc.name));
        let o = execute(sc, &path, plan.clone(), preemptions);
        count += 1;
        ctx.trace(1);
        ctx.tr(o.log.len() as u64);
        if let Err(e) = judge(sc, &path, &o) {
            let mut text = format!("{e}\nscenario {} ({:?}), threads {:?}\n", sc.name, sc.initial, sc.threads);
            for (i, ev) in o.log.iter().enumerate() {
                text.push_str(&format!("  {i:3} {:6} ms thread {} {:?}\n", (ev.time - 1_000_000_000) / MS, ev.thread, ev.what));
            }
            ctx.violation(text.chars().take(6000).collect());
            return count;
        }
        if count == 1 {
            ctx.sample(|| format!("{}: {} operations, {:?}", sc.name, o.log.len(), o.openings.iter().map(|x| (x.thread, x.result.clone())).collect::<Vec<_>>()));
        }
        let Some(i) = o.trace.iter().rposition(|(c, max)| c + 1 < *max) else { return count };
        if i == 0 {
            return count; // another item explores the other first choice
        }
        plan = o.trace[..i].iter().map(|c| c.0).collect();
        plan.push(o.trace[i].0 + 1);
        if ctx.stopped() {
            return count;
        }
    }
}

pub fn run(ctx: &Ctx) {
    let one = vec![Open(None, 50), Insert, Close];
    let wait = vec![Open(Some(100), 50), Insert, Close];
    let mut scs = vec![
        Scenario { name: "two without waiting, new file", initial: Initial::Absent, threads: vec![one.clone(), one.clone()] },
        Scenario { name: "two without waiting", initial: Initial::Records(1), threads: vec![one.clone(), one.clone()] },
        Scenario { name: "one waits", initial: Initial::Records(1), threads: vec![one.clone(), wait.clone()] },
        Scenario { name: "one waits, new file", initial: Initial::Absent, threads: vec![one.clone(), wait.clone()] },
        Scenario { name: "both wait", initial: Initial::Records(499), threads: vec![wait.clone(), wait.clone()] },
        Scenario { name: "held for 70 ms", initial: Initial::Records(0), threads: vec![vec![Open(None, 50), Insert, Hold(70), Insert, Close], wait.clone()] },
        Scenario { name: "held for long", initial: Initial::Records(1), threads: vec![vec![Open(None, 50), Insert, Hold(400), Close], wait.clone()] },
        Scenario { name: "held for 130 ms, interval 30 of 100 ms", initial: Initial::Records(1), threads: vec![vec![Open(None, 50), Hold(130), Insert, Close], vec![Open(Some(100), 30), Insert, Close]] },
        Scenario { name: "waiting time of zero", initial: Initial::Records(1), threads: vec![one.clone(), vec![Open(Some(0), 50), Insert, Close]] },
        Scenario { name: "reopening", initial: Initial::Absent, threads: vec![vec![Open(None, 50), Insert, Close, Open(None, 50), Insert, Close], wait.clone()] },
        Scenario { name: "damaged storage", initial: Initial::Damaged, threads: vec![vec![Open(None, 50), Close, Open(None, 50), Close], vec![Open(Some(60), 20), Close]] },
    ];
    if ctx.thorough {
        scs.push(Scenario { name: "three without waiting", initial: Initial::Records(1), threads: vec![one.clone(), one.clone(), one.clone()] });
        scs.push(Scenario { name: "three, two wait", initial: Initial::Records(500), threads: vec![one.clone(), wait.clone(), vec![Open(Some(60), 20), Insert, Close]] });
        scs.push(Scenario { name: "three on a new file, waiting", initial: Initial::Absent, threads: vec![wait.clone(), wait.clone(), wait.clone()] });
    }
    let bound = |sc: &Scenario| match (ctx.thorough, sc.threads.len()) {
        (false, _) => 2,
        (true, 2) => 3,
        (true, _) => 2,
    };
    ctx.group("scenarios", scs.len() as u64);
    let total = std::sync::atomic::AtomicU64::new(0);
    let items: Vec<(usize, usize)> = scs.iter().enumerate().flat_map(|(i, s)| (0..s.threads.len()).map(move |f| (i, f))).collect();
    par(ctx, items.len(), |k| {
        let (i, first) = items[k];
        let dir = Scratch::new("p20");
        let n = explore(ctx, &scs[i], &dir.0, bound(&scs[i]), first);
        total.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        ctx.st(n);
    });
    ctx.group("schedules", total.into_inner());
    sequences_of_calls(ctx);
    waiting_times(ctx);
    ctx.assume("openers use the same path; locks are advisory and every opener uses this library; preemption bound 2 (thorough 3 with two openers)");
}

/// one thread, several storages objects: every sequence of open / insert / close
fn sequences_of_calls(ctx: &Ctx) {
    // per object: open, insert, close; and opening with a directory in place of the file is refused
    let k = 3;
    let depth = if ctx.thorough { 6 } else { 5 };
    let seqs: Vec<Vec<usize>> = sequences(3 * k, depth).into_iter().filter(|s| s.len() == depth as usize).collect();
    ctx.group("sequences of calls", seqs.len() as u64);
    let dirs: Vec<Scratch> = (0..16).map(|_| Scratch::new("p20s")).collect();
    let chunk = seqs.len().div_ceil(16);
    par(ctx, 16, |w| {
        let path = dirs[w].0.join("s.bin");
        let lock = dirs[w].0.join("s.lock");
        for s in seqs.iter().skip(w * chunk).take(chunk) {
            let _ = std::fs::remove_file(&lock);
            let _ = std::fs::remove_file(&path);
            let what = || s.iter().map(|o| format!("{}{}", ["open ", "insert ", "close "][o % 3], o / 3)).collect::<Vec<_>>().join(", ");
            case(&what());
            ctx.st(1);
            ctx.trace(1);
            let r = catch(|| -> Result<(), String> {
                let mut objs: Vec<Option<FileStorage>> = (0..k).map(|_| None).collect();
                let mut list = vec![];
                for (i, &o) in s.iter().enumerate() {
                    let j = o / 3;
                    ctx.tr(1);
                    match o % 3 {
                        0 => {
                            objs[j] = None;
                            let busy = objs.iter().any(|o| o.is_some());
                            match (open_storage(&path, None, if i % 2 == 0 { 50 } else { 10 }), busy) {
                                (Ok(x), false) => objs[j] = Some(x),
                                (Err(Error::FileIsLocked(_)), true) => {}
                                (Ok(_), true) => return Err(format!("step {i}: opened although it is open")),
                                (Err(e), busy) => return Err(format!("step {i}: {} (open elsewhere: {busy})", errname(&e))),
                            }
                        }
                        1 => {
                            if let Some(x) = &mut objs[j] {
                                let p = fresh(i);
                                x.insert(p.real()).map_err(|e| format!("step {i}: {}", errname(&e)))?;
                                list.push(p);
                            }
                        }
                        _ => objs[j] = None,
                    }
                }
                drop(objs);
                let img = std::fs::read(&path).unwrap_or_default();
                image_shows(&img, &list)
            })
            .unwrap_or_else(|p| Err(format!("panic {p}")));
            if let Err(e) = r {
                ctx.violation(format!("{e}\ncalls {}", what()));
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    // refused openings leave nothing behind
    let d = Scratch::new("p20d");
    let p = d.0.join("s.bin");
    let r = catch(|| -> Result<(), String> {
        std::fs::create_dir(&p).unwrap();
        match open_storage(&p, None, 50) {
            Err(Error::PathIsNotFile(_)) => {}
            Err(e) => return Err(format!("a folder in place of the file: {}", errname(&e))),
            Ok(_) => return Err("a folder is opened".into()),
        }
        std::fs::remove_dir(&p).unwrap();
        for round in 0..3 {
            // damaged: fails, but the lock is free at once
            let mut b = base_image(3);
            b[17 + round] ^= 0x55;
            std::fs::write(&p, &b).unwrap();
            for _ in 0..2 {
                match open_storage(&p, None, 50) {
                    Err(Error::DamagedSlot(_)) => {}
                    Err(e) => return Err(format!("a damaged storage: {}", errname(&e))),
                    Ok(_) => return Err("a damaged storage is opened".into()),
                }
            }
            if std::fs::read(&p).unwrap() != b {
                return Err("a failed opening changes the file".into());
            }
            std::fs::write(&p, base_image(3)).unwrap();
            let mut s = open_storage(&p, None, 50).map_err(|e| format!("after failed openings: {}", errname(&e)))?;
            s.insert(fresh(1).real()).map_err(|e| errname(&e))?;
            drop(s);
            let mut l = base_list(3);
            l.push(fresh(1));
            image_shows(&std::fs::read(&p).unwrap(), &l)?;
        }
        Ok(())
    })
    .unwrap_or_else(|p| Err(format!("panic {p}")));
    if let Err(e) = r {
        ctx.violation(e);
    }
    // the lock really is that of another process as well
    let _ = refc::SLOT_CAP;
}

/// one holder that frees the storage at a given time (or never), one waiter: all combinations
fn waiting_times(ctx: &Ctx) {
    let timeouts = [0u64, 1, 29, 30, 31, 50, 99, 100, 101, 250];
    let intervals = [1u64, 7, 30, 50, 100, 300];
    let holds = [0u64, 1, 10, 29, 30, 31, 60, 99, 100, 101, 200, 1000];
    let mut items = vec![];
    for t in timeouts {
        for i in intervals {
            items.push((t, i));
        }
    }
    ctx.group("waiting times", (items.len() * holds.len()) as u64);
    par(ctx, items.len(), |k| {
        let (t, i) = items[k];
        let dir = Scratch::new("p20w");
        for h in holds {
            let sc = Scenario {
                name: "waiting times",
                initial: Initial::Records(1),
                threads: vec![vec![Open(None, 50), Hold(h), Insert, Close], vec![Open(Some(t), i), Insert, Close]],
            };
            // no preemption: the schedules differ in who wakes up first
            ctx.st(1);
            for first in 0..2 {
                let path = dir.0.join("s.bin");
                let _ = std::fs::remove_file(dir.0.join("s.lock"));
                std::fs::write(&path, base_image(1)).unwrap();
                case(&format!("waiting {t} ms, interval {i}, held {h} ms"));
                // time order: whoever wakes up first runs first
                let o = execute_timed(&sc, &path, first);
                ctx.trace(1);
                ctx.tr(o.log.len() as u64);
                let r = judge(&sc, &path, &o).and_then(|()| {
                    // free within the waiting time (and at least one interval before its end): must succeed
                    let w = o.openings.iter().find(|x| x.thread == 1).unwrap();
                    if first == 0 && h + i <= t && w.result != "ok" {
                        return Err(format!("the storage became free after {h} ms, the opener with {t} ms (interval {i}) answers {}", w.result));
                    }
                    // ... and at the first attempt after that
                    let took = (w.t1 - w.t0) / MS;
                    if first == 0 && w.result == "ok" && took > h + i {
                        return Err(format!("the storage became free after {h} ms, the opener retrying every {i} ms got it after {took} ms"));
                    }
                    if first == 0 && h > t + i && w.result == "ok" {
                        return Err(format!("opened after {t} ms although held for {h} ms"));
                    }
                    Ok(())
                });
                if let Err(e) = r {
                    ctx.violation(format!("{e}\nwaiting {t} ms, interval {i}, held {h} ms, thread {first} first\n{:?}", o.log.iter().map(|e| (e.time / MS - 1000, e.thread, &e.what)).collect::<Vec<_>>()));
                }
            }
        }
    });
}

/// runs in time order: at every choice the thread that wakes up first
fn execute_timed(sc: &Scenario, path: &Path, first: usize) -> Outcome {
    run_threads(sc, path, vec![first], 0, true)
}
fn execute(sc: &Scenario, path: &Path, plan: Vec<usize>, preemptions: usize) -> Outcome {
    run_threads(sc, path, plan, preemptions, false)
}
