//! P21: the real sensor sources on loom's primitives; a stand-in for the notification service and the
//! channel; the size of the observed file is a scheduling point of its own.
#[allow(dead_code)]
#[path = "../../harness/src/util.rs"]
mod util;
include!(concat!(env!("OUT_DIR"), "/inc.rs"));

use loom::sync::atomic::{AtomicU64, Ordering::*};
use notify::EventHandler;
use sensor::*;
use std::cell::{Cell, RefCell};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64 as RealU64, Ordering::Relaxed as R};
use std::sync::{Arc, Mutex};
use util::*;

// ------------------------------------------------------------------ the observed file
thread_local! {
    static INO: Cell<u64> = const { Cell::new(0) };
    static SIZE: RefCell<Option<Arc<AtomicU64>>> = const { RefCell::new(None) };
    /// failures of the size query left
    static BROKEN: Cell<bool> = const { Cell::new(false) };
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static FAIL: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn file() -> Arc<AtomicU64> {
    SIZE.with(|s| s.borrow().clone().expect("file"))
}
/// a system call: ordered with everything
fn size_now() -> u64 {
    loom::sync::atomic::fence(SeqCst);
    let v = file().load(SeqCst);
    loom::sync::atomic::fence(SeqCst);
    v
}
fn grow(to: u64) {
    loom::sync::atomic::fence(SeqCst);
    file().store(to, SeqCst);
    loom::sync::atomic::fence(SeqCst);
    log(|| format!("file grows to {to}"));
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mask: libc::c_uint, b: *mut libc::statx) -> libc::c_int {
    let r = libc::syscall(libc::SYS_statx, dir, path, flags, mask, b) as libc::c_int;
    if r == 0 && INO.with(|i| i.get()) != 0 && (*b).stx_ino == INO.with(|i| i.get()) && SIZE.with(|s| s.borrow().is_some()) {
        if BROKEN.with(|x| x.get()) {
            *libc::__errno_location() = libc::EIO;
            return -1;
        }
        (*b).stx_size = size_now();
    }
    r
}

fn log(f: impl FnOnce() -> String) {
    LOG.with(|l| l.borrow_mut().push(f()));
}
fn fail(s: String) {
    log(|| format!("!! {s}"));
    FAIL.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_none() {
            *f = Some(s);
        }
    });
}

struct World {
    sensor: Arc<Sensor>,
    rx: Arc<crossbeam::channel::Receiver<Wake>>,
    handler: Arc<loom::sync::Mutex<Box<dyn EventHandler>>>,
}
fn event() -> notify::Result<notify::Event> {
    use notify::event::*;
    Ok(Event { kind: EventKind::Modify(ModifyKind::Data(DataChange::Any)), paths: vec![path()] })
}
thread_local! { static PATH: RefCell<PathBuf> = RefCell::new(PathBuf::new()); }
fn path() -> PathBuf {
    PATH.with(|p| p.borrow().clone())
}

fn world(initial: u64) -> World {
    SIZE.with(|s| *s.borrow_mut() = Some(Arc::new(AtomicU64::new(initial))));
    BROKEN.with(|b| b.set(false));
    LOG.with(|l| l.borrow_mut().clear());
    notify::clear();
    let (sensor, rx) = match Sensor::new(path()) {
        Ok(x) => x,
        Err(e) => panic!("a sensor cannot be created: {e}"),
    };
    let h = notify::take_handler().expect("no handler of events");
    if notify::watched() != vec![path()] {
        let parent = path().parent().unwrap().to_path_buf();
        if !notify::watched().contains(&parent) && !notify::watched().contains(&path()) {
            panic!("the file is not watched");
        }
    }
    World { sensor: Arc::new(sensor), rx: Arc::new(rx), handler: Arc::new(loom::sync::Mutex::new(h)) }
}
impl World {
    fn fire(&self) {
        log(|| "event".into());
        let mut h = self.handler.lock().unwrap();
        h.handle_event(event());
        drop(h);
        log(|| "event handled".into());
    }
    fn ack(&self, to: u64) {
        log(|| format!("acknowledge {to}"));
        match self.sensor.processed(to) {
            Ok(()) => log(|| format!("acknowledged {to}")),
            Err(e) => fail(format!("acknowledging fails: {e}")),
        }
    }
    fn take(&self) -> Option<Wake> {
        let w = self.rx.try_recv().ok();
        if let Some(w) = w {
            log(|| format!("wake {} taken", w.size));
        }
        w
    }
    /// everything is at rest
    fn quiet(&self, acked: u64, taken: bool) {
        let size = size_now();
        if size > acked && !taken && self.rx.is_empty() {
            fail(format!("the file has {size} bytes, {acked} are acknowledged, everybody is idle and no wake-up is waiting"));
        }
        if self.rx.len() > 1 {
            fail(format!("{} wake-ups are waiting", self.rx.len()));
        }
    }
    /// the consumer goes on until there is nothing more to do
    fn drain(&self, mut acked: u64) {
        let size = size_now();
        for _ in 0..4 {
            let Some(w) = self.take() else { break };
            if w.size > size {
                fail(format!("wake-up for {} bytes of {size}", w.size));
            }
            if !self.rx.is_empty() {
                fail("a second wake-up is waiting while the first is not acknowledged".into());
            }
            acked = acked.max(w.size);
            self.ack(w.size);
        }
        if acked < size {
            fail(format!("the consumer stops at {acked} of {size} bytes"));
        }
        if !self.rx.is_empty() {
            fail("wake-ups without end".into());
        }
        // nothing new: no wake-up; something new: one
        self.fire();
        if !self.rx.is_empty() {
            fail(format!("wake-up although all {size} bytes are acknowledged"));
        }
        grow(size + 7);
        self.fire();
        match self.take() {
            Some(w) if w.size == size + 7 => {}
            Some(w) => fail(format!("wake-up for {} of {} bytes", w.size, size + 7)),
            None => fail("no wake-up for new data although everybody is idle".into()),
        }
        self.fire();
        if !self.rx.is_empty() {
            fail("a second wake-up before the first is acknowledged".into());
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Ack {
    /// what the wake-up says
    Wake,
    /// what the file has by then
    Seen,
    /// less than the wake-up says (an incomplete record)
    Part,
}

#[derive(Debug, Clone)]
enum Sc {
    /// growth and events in one thread, one consumer looking `.2` times
    Pair { sizes: Vec<u64>, ack: Ack, looks: usize },
    /// growth, events (coalescing) and the consumer in threads of their own
    Trio { sizes: Vec<u64>, events: usize, ack: Ack, looks: usize },
    /// acknowledgements from two threads
    TwoAcks { a: u64, b: u64, size: u64, wake: bool },
    /// acknowledgement without a wake-up (position found by other means), while the file grows
    Unasked { sizes: Vec<u64>, acks: Vec<u64> },
    /// acknowledgement while the wake-up is still in the channel
    NotTaken { sizes: Vec<u64>, acks: Vec<u64> },
    /// consumer blocks until woken for all the data
    Blocking { sizes: Vec<u64>, ack: Ack },
    /// nobody listens any more
    Gone { sizes: Vec<u64> },
}

fn consumer(w: &World, ack: Ack, looks: usize) -> (u64, bool) {
    let mut acked = 0;
    for _ in 0..looks {
        if let Some(k) = w.take() {
            if k.size > size_now() || k.size == 0 {
                fail(format!("wake-up for {} bytes", k.size));
            }
            let to = match ack {
                Ack::Wake => k.size,
                Ack::Seen => size_now(),
                Ack::Part => k.size - 1,
            };
            if !w.rx.is_empty() {
                fail("a second wake-up is waiting while the first is not acknowledged".into());
            }
            w.ack(to);
            acked = acked.max(to);
        }
    }
    (acked, false)
}

fn scenario(sc: &Sc) {
    use loom::thread::spawn;
    match sc.clone() {
        Sc::Pair { sizes, ack, looks } => {
            let w = Arc::new(world(0));
            let w1 = w.clone();
            let t = spawn(move || {
                for s in sizes {
                    grow(s);
                    w1.fire();
                }
            });
            let (acked, taken) = consumer(&w, ack, looks);
            t.join().unwrap();
            w.quiet(acked, taken);
            w.drain(acked);
        }
        Sc::Trio { sizes, events, ack, looks } => {
            let w = Arc::new(world(0));
            let pending = Arc::new(loom::sync::Mutex::new(false));
            let p1 = pending.clone();
            let t1 = spawn(move || {
                for s in sizes {
                    grow(s);
                    *p1.lock().unwrap() = true;
                }
            });
            let (p2, w2) = (pending.clone(), w.clone());
            let t2 = spawn(move || {
                for _ in 0..events {
                    let due = std::mem::take(&mut *p2.lock().unwrap());
                    if due {
                        w2.fire();
                    }
                }
            });
            let (acked, taken) = consumer(&w, ack, looks);
            t1.join().unwrap();
            t2.join().unwrap();
            let due = std::mem::take(&mut *pending.lock().unwrap());
            if due {
                w.fire();
            }
            w.quiet(acked, taken);
            w.drain(acked);
        }
        Sc::TwoAcks { a, b, size, wake } => {
            let w = Arc::new(world(0));
            if wake {
                grow(size);
                w.fire();
                if w.take().is_none() {
                    fail("no wake-up".into());
                }
            }
            let w1 = w.clone();
            let t = spawn(move || w1.ack(a));
            if !wake {
                grow(size);
                w.fire();
            }
            w.ack(b);
            t.join().unwrap();
            w.quiet(a.max(b), false);
            let mut acked = a.max(b);
            if acked >= size {
                // wake-ups that were under way say nothing; later ones do
                while w.take().is_some() {}
                w.ack(0);
                if let Some(k) = w.take() {
                    fail(format!("the acknowledged position moves backwards: wake-up for {} although {acked} is acknowledged", k.size));
                }
            }
            // wake-ups that were under way
            for _ in 0..3 {
                match w.take() {
                    Some(k) => {
                        acked = acked.max(k.size);
                        w.ack(k.size)
                    }
                    None => break,
                }
            }
            w.drain(acked);
            // an acknowledgement of less than before takes nothing back
            let now = size_now();
            w.ack(now);
            w.ack(now / 2);
            w.fire();
            if w.take().is_some() {
                fail("the acknowledged position moves backwards".into());
            }
        }
        Sc::Unasked { sizes, acks } => {
            let w = Arc::new(world(0));
            let w1 = w.clone();
            let t = spawn(move || {
                for s in sizes {
                    grow(s);
                    w1.fire();
                }
            });
            let mut top = 0;
            for a in acks {
                let a = a.min(size_now());
                w.ack(a);
                top = top.max(a);
            }
            t.join().unwrap();
            w.quiet(top, false);
            let mut acked = top;
            for _ in 0..3 {
                match w.take() {
                    Some(k) => {
                        acked = acked.max(k.size);
                        w.ack(k.size)
                    }
                    None => break,
                }
            }
            w.drain(acked);
        }
        Sc::NotTaken { sizes, acks } => {
            let w = Arc::new(world(0));
            grow(3);
            w.fire();
            let w1 = w.clone();
            let t = spawn(move || {
                for s in sizes {
                    grow(s);
                    w1.fire();
                }
            });
            let mut top = 0;
            for a in acks {
                w.ack(a);
                top = top.max(a);
            }
            t.join().unwrap();
            w.quiet(top, false);
            let mut acked = top;
            for _ in 0..3 {
                match w.take() {
                    Some(k) => {
                        acked = acked.max(k.size);
                        w.ack(k.size)
                    }
                    None => break,
                }
            }
            w.drain(acked);
        }
        Sc::Blocking { sizes, ack } => {
            let w = Arc::new(world(0));
            let last = *sizes.last().unwrap();
            let w1 = w.clone();
            let t = spawn(move || {
                for s in sizes {
                    grow(s);
                    w1.fire();
                }
            });
            let mut acked = 0;
            // a lost wake-up shows as a deadlock
            while acked < last {
                match w.rx.recv() {
                    Ok(k) => {
                        log(|| format!("wake {} taken", k.size));
                        if !w.rx.is_empty() {
                            fail("a second wake-up is waiting while the first is not acknowledged".into());
                        }
                        acked = acked.max(if ack == Ack::Seen { size_now() } else { k.size });
                        w.ack(acked);
                    }
                    Err(_) => {
                        fail("the sensor has gone".into());
                        break;
                    }
                }
            }
            t.join().unwrap();
            // a wake-up for data acknowledged meanwhile may still be there
            while let Some(k) = w.take() {
                w.ack(k.size);
            }
            w.drain(acked);
        }
        Sc::Gone { sizes } => {
            let w = world(0);
            let World { sensor, rx, handler } = w;
            let h1 = handler.clone();
            let t = spawn(move || {
                for s in sizes {
                    grow(s);
                    h1.lock().unwrap().handle_event(event());
                }
            });
            drop(rx);
            log(|| "receiver dropped".into());
            let _ = sensor.processed(0);
            t.join().unwrap();
        }
    }
}

fn explore(ctx: &Ctx, name: &str, bound: Option<usize>, f: impl Fn() + Sync + Send + Clone + 'static) -> u64 {
    let n = Arc::new(RealU64::new(0));
    let steps = Arc::new(RealU64::new(0));
    let (n2, s2) = (n.clone(), steps.clone());
    let mut b = loom::model::Builder::new();
    b.preemption_bound = bound;
    b.max_branches = 100_000;
    b.max_duration = None;
    b.max_permutations = None;
    b.log = false;
    b.location = false;
    FAIL.with(|f| *f.borrow_mut() = None);
    let name2 = name.to_string();
    let r = catch(|| {
        b.check(move || {
            let i = n2.fetch_add(1, R);
            if i % 64 == 0 {
                case(&name2);
            }
            f();
            notify::clear();
            SIZE.with(|s| *s.borrow_mut() = None);
            s2.fetch_add(LOG.with(|l| l.borrow().len()) as u64, R);
            if FAIL.with(|f| f.borrow().is_some()) {
                panic!("stop");
            }
        })
    });
    let seen = FAIL.with(|f| f.borrow_mut().take());
    let text = LOG.with(|l| l.borrow().iter().map(|x| format!("  {x}\n")).collect::<String>());
    SIZE.with(|s| *s.borrow_mut() = None);
    match (r, seen) {
        (_, Some(e)) => ctx.violation(format!("{e}\nscenario {name}\n{text}")),
        (Err(p), None) => {
            let p: String = p.chars().take(400).collect();
            ctx.violation(format!("{p}\nscenario {name}\n{text}"))
        }
        (Ok(()), None) => {}
    }
    ctx.tr(steps.load(R));
    ctx.trace(n.load(R));
    ctx.sample(|| format!("{name}: {} interleavings; last: {}", n.load(R), text.replace('\n', ";")));
    n.load(R)
}

// ------------------------------------------------------------------ one party at a time: every sequence

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    Grow,
    Event,
    Take,
    AckTaken,
    AckPart,
    AckAll,
    Older,
}
const OPS: [Op; 7] = [Op::Grow, Op::Event, Op::Take, Op::AckTaken, Op::AckPart, Op::AckAll, Op::Older];

fn sequence(s: &[Op]) {
    let w = world(0);
    let (mut size, mut acked) = (0u64, 0u64);
    // what the consumer knows of
    let (mut queue, mut taken): (Option<u64>, Option<u64>) = (None, None);
    let mut locked = false;
    for (i, op) in s.iter().enumerate() {
        let mut look = false;
        match op {
            Op::Grow => {
                size += 10;
                grow(size);
            }
            Op::Event => {
                w.fire();
                look = true;
            }
            Op::Take => {
                let k = w.take().map(|k| k.size);
                if k != queue {
                    fail(format!("step {i}: wake-up {k:?} instead of {queue:?}"));
                }
                if k.is_some() {
                    taken = k;
                }
                queue = None;
            }
            Op::AckTaken | Op::AckPart => {
                let Some(t) = taken.take() else { continue };
                let to = if *op == Op::AckPart { t - 5 } else { t };
                w.ack(to);
                acked = acked.max(to);
                locked = false;
                look = true;
            }
            Op::AckAll => {
                taken = None;
                w.ack(size);
                acked = size;
                locked = false;
                look = true;
            }
            Op::Older => {
                taken = None;
                w.ack(acked / 2);
                locked = false;
                look = true;
            }
        }
        if look && size > acked && !locked {
            locked = true;
            queue = queue.or(Some(size));
        }
        if w.rx.len() != queue.is_some() as usize {
            fail(format!("step {i} ({op:?}): {} wake-ups waiting instead of {queue:?}", w.rx.len()));
            return;
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = std::env::var("VERIF_OUT").unwrap_or("/verif".into());
    if std::env::var("HARNESS_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    start_watchdog();
    let ctx = Ctx::new("P21", tier == "thorough", seed, out);
    if let Err(p) = catch(|| run(&ctx)) {
        ctx.violation(format!("PANIC {p}"));
    }
    std::process::exit(ctx.finish("model_checking"));
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        static N: RealU64 = RealU64::new(0);
        let d = std::env::temp_dir().join(format!("verif-sensor-{}-{}", std::process::id(), N.fetch_add(1, R)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    fn prepare(&self) {
        use std::os::unix::fs::MetadataExt;
        let p = self.0.join("store.bin");
        std::fs::write(&p, b"").unwrap();
        INO.with(|i| i.set(std::fs::metadata(&p).unwrap().ino()));
        PATH.with(|x| *x.borrow_mut() = p);
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        INO.with(|i| i.set(0));
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn run(ctx: &Ctx) {
    let mut scs: Vec<(Sc, Option<usize>)> = vec![];
    let th = ctx.thorough;
    for ack in [Ack::Wake, Ack::Seen, Ack::Part] {
        scs.push((Sc::Pair { sizes: vec![5], ack, looks: 2 }, None));
        scs.push((Sc::Pair { sizes: vec![5, 9], ack, looks: 2 }, None));
        scs.push((Sc::Pair { sizes: vec![5, 9, 12], ack, looks: 2 }, if th { None } else { Some(4) }));
        scs.push((Sc::Pair { sizes: vec![5, 9, 12], ack, looks: 3 }, if th { None } else { Some(4) }));
        scs.push((Sc::Trio { sizes: vec![5, 9], events: 2, ack, looks: 2 }, Some(if th { 5 } else { 3 })));
        if th {
            scs.push((Sc::Trio { sizes: vec![5, 9, 12], events: 3, ack, looks: 3 }, Some(3)));
        }
    }
    for ack in [Ack::Wake, Ack::Seen] {
        scs.push((Sc::Blocking { sizes: vec![5], ack }, None));
        scs.push((Sc::Blocking { sizes: vec![5, 9], ack }, None));
        scs.push((Sc::Blocking { sizes: vec![5, 9, 12], ack }, if th { None } else { Some(4) }));
    }
    for (a, b) in [(4, 8), (8, 4), (8, 8), (2, 4)] {
        for wake in [true, false] {
            scs.push((Sc::TwoAcks { a, b, size: 8, wake }, None));
        }
    }
    for acks in [vec![0], vec![9], vec![0, 9], vec![4, 2]] {
        for sizes in [vec![5], vec![5, 9]] {
            scs.push((Sc::Unasked { sizes: sizes.clone(), acks: acks.clone() }, None));
            if acks[0] < 4 {
                scs.push((Sc::NotTaken { sizes, acks: acks.iter().map(|a| *a.min(&3)).collect() }, None));
            }
        }
    }
    scs.push((Sc::Gone { sizes: vec![5, 9] }, Some(3)));
    ctx.group("scenarios", scs.len() as u64);
    let total = RealU64::new(0);
    par(ctx, scs.len(), |i| {
        let d = Scratch::new();
        d.prepare();
        let (sc, bound) = scs[i].clone();
        let name = format!("{sc:?}, preemptions {bound:?}");
        let t0 = std::time::Instant::now();
        let n = explore(ctx, &name, bound, move || scenario(&sc));
        if std::env::var("COUNTS").is_ok() {
            eprintln!("{name}: {n} in {:?}", t0.elapsed());
        }
        total.fetch_add(n, R);
        ctx.st(n);
    });
    ctx.group("interleavings", total.into_inner());
    if ctx.stopped() {
        return;
    }
    // every sequence of steps
    let depth = if ctx.thorough { 8 } else { 6 };
    let all: Vec<Vec<usize>> = {
        let mut v = vec![vec![]];
        for _ in 0..depth {
            v = v.into_iter().flat_map(|s: Vec<usize>| (0..OPS.len()).map(move |o| { let mut t = s.clone(); t.push(o); t })).collect();
        }
        v
    };
    ctx.group("sequences of steps", all.len() as u64);
    ctx.st(all.len() as u64);
    let all = Arc::new(all);
    let chunks = all.len().div_ceil(200);
    let first: Mutex<()> = Mutex::new(());
    par(ctx, chunks, |c| {
        let d = Scratch::new();
        d.prepare();
        let all2 = all.clone();
        let mut b = loom::model::Builder::new();
        b.max_branches = 10_000_000;
        FAIL.with(|f| *f.borrow_mut() = None);
        let which = Arc::new(RealU64::new(0));
        let w2 = which.clone();
        let r = catch(|| {
            b.check(move || {
                for i in c * 200..((c + 1) * 200).min(all2.len()) {
                    w2.store(i as u64, R);
                    let ops: Vec<Op> = all2[i].iter().map(|o| OPS[*o]).collect();
                    sequence(&ops);
                    notify::clear();
                    SIZE.with(|s| *s.borrow_mut() = None);
                    if FAIL.with(|f| f.borrow().is_some()) {
                        break;
                    }
                }
            })
        });
        ctx.trace(200.min(all.len() - c * 200) as u64);
        ctx.tr(200 * depth as u64);
        let seen = FAIL.with(|f| f.borrow_mut().take());
        let e = seen.or(r.err());
        if let Some(e) = e {
            let _g = first.lock();
            let ops: Vec<Op> = all[which.load(R) as usize].iter().map(|o| OPS[*o]).collect();
            ctx.violation(format!("{e}\nsequence {ops:?}\n{}", LOG.with(|l| l.borrow().join("; "))));
        }
    });
    ctx.assume("loom's model of the Rust memory model; size queries and growth of the file are sequentially consistent; events are delivered by one thread, at least one after each growth; growth is observed from the creation of the sensor on");
}
