//! Reporting, parallel enumeration, panic capture and the watchdog.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: i64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub violations: Mutex<Vec<String>>,
    pub nviol: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub groups: Mutex<BTreeMap<String, u64>>,
    pub assumptions: Mutex<Vec<String>>,
    pub start: Instant,
    pub out_dir: String,
}

pub static PROP: Mutex<String> = Mutex::new(String::new());

pub const MAX_VIOLATIONS: u64 = 12;

impl Ctx {
    pub fn new(id: &'static str, thorough: bool, seed: i64, out_dir: String) -> Self {
        *PROP.lock().unwrap() = id.to_string();
        Ctx {
            id,
            thorough,
            seed,
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            violations: Mutex::new(vec![]),
            nviol: 0.into(),
            samples: Mutex::new(vec![]),
            groups: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            start: Instant::now(),
            out_dir,
        }
    }
    /// distinct states (inputs, positions, device images, ...) reached
    pub fn st(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    /// operations executed on the implementation
    pub fn tr(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    /// complete executions compared with the oracle
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn group(&self, name: &str, n: u64) {
        *self.groups.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 8 {
            let v = f();
            s.push(v.chars().take(1500).collect());
        }
    }
    pub fn stopped(&self) -> bool {
        self.nviol.load(Relaxed) >= MAX_VIOLATIONS
    }
    pub fn violation(&self, desc: String) {
        let n = self.nviol.fetch_add(1, Relaxed);
        if n < MAX_VIOLATIONS {
            self.violations.lock().unwrap().push(desc);
        }
    }
    /// run the body; a panic inside is a violation
    pub fn guard<R>(&self, what: impl Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match catch(f) {
            Ok(r) => Some(r),
            Err(p) => {
                self.violation(format!("PANIC `{p}` in {}", what()));
                None
            }
        }
    }
    pub fn finish(self, level: &str) -> i32 {
        let viol = self.violations.lock().unwrap();
        let total = self.nviol.load(Relaxed);
        let mut rc = 0;
        if total > 0 {
            let path = replay_path(self.id);
            let mut text = format!(
                "property {} (tier {}) : {} violation(s), first {}:\nre-run: bash /verif/run.sh {} {}\n",
                self.id,
                if self.thorough { "thorough" } else { "quick" },
                total,
                viol.len(),
                self.id,
                if self.thorough { "thorough" } else { "quick" },
            );
            for (i, v) in viol.iter().enumerate() {
                text.push_str(&format!("--- #{}\n{}\n", i + 1, v));
            }
            let _ = std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap());
            let _ = std::fs::write(&path, &text);
            eprintln!("{}", text.chars().take(6000).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, path);
            rc = 1;
        }
        let groups = self
            .groups
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}:{}", js(k), v))
            .collect::<Vec<_>>()
            .join(",");
        let samples = self.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        let assumptions =
            self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
        let (st, tr, tc) = (
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
        );
        let cov = format!(
            "{{\"states\":{st},\"transitions\":{tr},\"traces_validated_against_impl\":{tc},\"exhaustive\":{},\"groups\":{{{groups}}},\"samples\":[{samples}]}}",
            total == 0
        );
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            js(self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            js(level),
            cov,
            assumptions,
            self.start.elapsed().as_secs_f64(),
            total
        );
        let dir = format!("{}/evidence", self.out_dir);
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.id), ev) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        eprintln!(
            "{}: states={st} transitions={tr} executions={tc} violations={total} [{groups}] in {:.1}s",
            self.id,
            self.start.elapsed().as_secs_f64()
        );
        rc
    }
}

pub fn replay_path(id: &str) -> String {
    format!("/verif/replays/{id}.txt")
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for (i, x) in b.iter().enumerate() {
        if i >= 400 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

// ---------------------------------------------------------------- parallel enumeration

struct Slot {
    busy: AtomicBool,
    tick: AtomicU64,
    desc: Mutex<String>,
}

static SLOTS: [Slot; 16] = [const { Slot { busy: AtomicBool::new(false), tick: AtomicU64::new(0), desc: Mutex::new(String::new()) } }; 16];
pub static HANG_LIMIT_S: AtomicU64 = AtomicU64::new(120);

thread_local! {
    static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static CASE: RefCell<[u8; 512]> = const { RefCell::new([0; 512]) };
    static CASE_LEN: Cell<usize> = const { Cell::new(0) };
    static ALLOC_MAX: Cell<usize> = const { Cell::new(0) };
}

/// progress mark for the watchdog from inside a long item
pub fn tick() {
    let i = MY_SLOT.with(|s| s.get());
    if i < SLOTS.len() {
        SLOTS[i].tick.fetch_add(1, Relaxed);
    }
}

/// names what the current thread is doing; shown if the process gets stuck or asks for absurd memory
pub fn case(desc: &str) {
    let b = desc.as_bytes();
    let n = b.len().min(512);
    CASE.with(|c| c.borrow_mut()[..n].copy_from_slice(&b[..n]));
    CASE_LEN.with(|c| c.set(n));
    let i = MY_SLOT.with(|s| s.get());
    if i < SLOTS.len() {
        let mut d = SLOTS[i].desc.lock().unwrap();
        d.clear();
        d.push_str(desc);
        drop(d);
        SLOTS[i].tick.fetch_add(1, Relaxed);
    }
}

/// Every index in 0..n is processed exactly once (exhaustive, order irrelevant).
pub fn par(ctx: &Ctx, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let workers = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).clamp(1, 16).min(n.max(1));
    std::thread::scope(|s| {
        for w in 0..workers {
            let next = &next;
            let f = &f;
            s.spawn(move || {
                MY_SLOT.with(|m| m.set(w));
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n || ctx.stopped() {
                        break;
                    }
                    SLOTS[w].tick.fetch_add(1, Relaxed);
                    SLOTS[w].busy.store(true, SeqCst);
                    if let Err(p) = catch(|| f(i)) {
                        ctx.violation(format!(
                            "PANIC `{p}` (uncaught) in item {i} [{}]",
                            SLOTS[w].desc.lock().map(|d| d.clone()).unwrap_or_default()
                        ));
                    }
                    SLOTS[w].busy.store(false, SeqCst);
                }
            });
        }
    });
}

pub fn start_watchdog() {
    std::thread::spawn(|| {
        let mut last: Vec<(u64, Instant)> = SLOTS.iter().map(|_| (0, Instant::now())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in SLOTS.iter().enumerate() {
                let t = s.tick.load(SeqCst);
                if !s.busy.load(SeqCst) || t != last[i].0 {
                    last[i] = (t, Instant::now());
                    continue;
                }
                if last[i].1.elapsed() > Duration::from_secs(HANG_LIMIT_S.load(Relaxed)) {
                    let id = PROP.lock().unwrap().clone();
                    let path = replay_path(&id);
                    let desc = s.desc.try_lock().map(|d| d.clone()).unwrap_or_default();
                    let _ = std::fs::create_dir_all("/verif/replays");
                    let text = format!("no answer (endless loop) in: {desc}\n");
                    let _ = std::fs::write(&path, &text);
                    eprintln!("{text}");
                    println!("VIOLATION property={id} replay={path}");
                    unsafe { libc::_exit(1) }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- allocation monitor

pub struct Mon;

const ABSURD: usize = 1 << 30;

static ABSURD_SEEN: AtomicBool = AtomicBool::new(false);

fn absurd(size: usize) {
    if ABSURD_SEEN.swap(true, SeqCst) {
        loop {
            unsafe { libc::pause() };
        }
    }
    // an allocation of a gigabyte: report it as it is, without allocating
    let mut buf = [0u8; 512];
    let mut n = 0;
    let _ = CASE.try_with(|c| {
        if let Ok(c) = c.try_borrow() {
            n = CASE_LEN.try_with(|l| l.get()).unwrap_or(0);
            buf[..n].copy_from_slice(&c[..n]);
        }
    });
    unsafe {
        let mut id = [0u8; 16];
        let mut idn = 0;
        if let Ok(p) = PROP.try_lock() {
            idn = p.len().min(16);
            id[..idn].copy_from_slice(&p.as_bytes()[..idn]);
        }
        let w = |s: &[u8], fd: i32| {
            libc::write(fd, s.as_ptr() as *const _, s.len());
        };
        libc::mkdir(c"/verif/replays".as_ptr(), 0o755);
        let mut path = [0u8; 64];
        let pre = b"/verif/replays/";
        path[..pre.len()].copy_from_slice(pre);
        path[pre.len()..pre.len() + idn].copy_from_slice(&id[..idn]);
        path[pre.len() + idn..pre.len() + idn + 4].copy_from_slice(b".txt");
        let plen = pre.len() + idn + 4;
        let fd = libc::open(path.as_ptr() as *const _, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
        let mut num = [0u8; 24];
        let mut k = 24;
        let mut v = size;
        while k > 0 {
            k -= 1;
            num[k] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        for f in [fd, 2] {
            w(b"allocation of ", f);
            w(&num[k..], f);
            w(b" bytes requested in: ", f);
            w(&buf[..n], f);
            w(b"\n", f);
        }
        w(b"VIOLATION property=", 1);
        w(&id[..idn], 1);
        w(b" replay=", 1);
        w(&path[..plen], 1);
        w(b"\n", 1);
        libc::_exit(1);
    }
}

fn note(size: usize) {
    let _ = ALLOC_MAX.try_with(|m| {
        if size > m.get() {
            m.set(size)
        }
    });
    if size >= ABSURD {
        absurd(size);
    }
}

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
fn live(d: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + d));
}
/// bytes this thread holds (allocated minus freed by it)
pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        live(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        live(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        live(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as i64));
        System.dealloc(p, l)
    }
}

pub fn alloc_reset() {
    ALLOC_MAX.with(|m| m.set(0));
}
/// the largest single allocation of this thread since the reset
pub fn alloc_max() -> usize {
    ALLOC_MAX.with(|m| m.get())
}

// ---------------------------------------------------------------- small helpers

/// all sequences over 0..k of length <= max (including the empty one)
pub fn sequences(k: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        let mut nx = Vec::with_capacity(cur.len() * k);
        for s in &cur {
            for i in 0..k {
                let mut t = s.clone();
                t.push(i);
                nx.push(t);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}
