//! Controlled scheduling of threads at their system calls. The libc symbols used by the standard library
//! are defined here; on threads that take part in an exploration every such call is a point at which the
//! explorer decides who runs next, and time is virtual. All other threads go straight to the kernel.
use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t, timespec};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum St {
    Ready,
    Sleeping(u64),
    Done,
}

#[derive(Debug, Clone, PartialEq)]
pub enum What {
    /// storage file: operation name
    Storage(&'static str),
    Lock(&'static str),
    Sleep(u64),
    Call(String),
    Return(String),
}
#[derive(Debug, Clone)]
pub struct Event {
    pub thread: usize,
    pub time: u64,
    pub what: What,
}

pub struct Inner {
    pub st: Vec<St>,
    pub cur: usize,
    pub now: u64,
    pub plan: Vec<usize>,
    /// chosen option, number of options allowed at that point
    pub trace: Vec<(usize, usize)>,
    pub preempt_left: usize,
    /// after the planned choices whoever wakes up first runs first
    pub timed: bool,
    pub log: Vec<Event>,
    pub steps: usize,
    pub overrun: bool,
    pub storage: Vec<u8>,
    pub fds: HashMap<c_int, bool>,
}
pub struct Sched {
    pub m: Mutex<Inner>,
    pub cv: Condvar,
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static SCHED: RefCell<Option<Arc<Sched>>> = const { RefCell::new(None) };
}

pub const MAX_STEPS: usize = 4000;

fn sched() -> Option<(Arc<Sched>, usize)> {
    let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if me == usize::MAX {
        return None;
    }
    SCHED.try_with(|s| s.try_borrow().ok().and_then(|s| s.clone())).ok().flatten().map(|s| (s, me))
}

impl Sched {
    pub fn new(threads: usize, plan: Vec<usize>, preemptions: usize, storage: &std::path::Path) -> Arc<Self> {
        use std::os::unix::ffi::OsStrExt;
        Arc::new(Sched {
            m: Mutex::new(Inner {
                st: vec![St::Ready; threads],
                cur: usize::MAX,
                now: 1_000_000_000,
                plan,
                trace: vec![],
                preempt_left: preemptions,
                timed: false,
                log: vec![],
                steps: 0,
                overrun: false,
                storage: storage.as_os_str().as_bytes().to_vec(),
                fds: HashMap::new(),
            }),
            cv: Condvar::new(),
        })
    }
    /// thread `me` gives the control to whoever the plan says
    fn switch(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.steps += 1;
        if g.steps > MAX_STEPS {
            g.overrun = true;
        }
        self.pick(&mut g, me);
        while g.cur != me && !matches!(g.st[me], St::Done) {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn pick(&self, g: &mut Inner, me: usize) {
        // options: continue (if possible) first, then the others
        let mut opts: Vec<usize> = vec![];
        let running = me != usize::MAX && g.st[me] == St::Ready;
        if running {
            opts.push(me);
        }
        if !running || g.preempt_left > 0 {
            for i in 0..g.st.len() {
                if i != me && g.st[i] != St::Done {
                    opts.push(i);
                }
            }
            if !running && me != usize::MAX && matches!(g.st[me], St::Sleeping(_)) {
                opts.push(me);
            }
        }
        if opts.is_empty() {
            g.cur = usize::MAX;
            self.cv.notify_all();
            return;
        }
        let i = g.trace.len();
        let mut c = if g.overrun { 0 } else { g.plan.get(i).copied().unwrap_or(0).min(opts.len() - 1) };
        if g.timed && i >= g.plan.len() {
            let wake = |t: usize| match g.st[t] {
                St::Sleeping(w) => w,
                _ => 0,
            };
            c = (0..opts.len()).min_by_key(|&k| (wake(opts[k]), k)).unwrap();
        }
        g.trace.push((c, opts.len()));
        let next = opts[c];
        if running && next != me {
            g.preempt_left -= 1;
        }
        if let St::Sleeping(t) = g.st[next] {
            g.now = g.now.max(t);
            g.st[next] = St::Ready;
        }
        g.cur = next;
        self.cv.notify_all();
    }
    pub fn start(&self) {
        let mut g = self.m.lock().unwrap();
        self.pick(&mut g, usize::MAX);
    }
    /// the calling thread becomes thread `me` and waits for its turn
    pub fn enter(self: &Arc<Self>, me: usize) {
        SCHED.with(|s| *s.borrow_mut() = Some(self.clone()));
        ME.with(|m| m.set(me));
        let mut g = self.m.lock().unwrap();
        while g.cur != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    pub fn leave(&self, me: usize) {
        ME.with(|m| m.set(usize::MAX));
        SCHED.with(|s| *s.borrow_mut() = None);
        let mut g = self.m.lock().unwrap();
        g.st[me] = St::Done;
        self.pick(&mut g, me);
    }
    pub fn note(&self, me: usize, what: What) {
        let mut g = self.m.lock().unwrap();
        let time = g.now;
        g.log.push(Event { thread: me, time, what });
    }
    pub fn now(&self) -> u64 {
        self.m.lock().unwrap().now
    }
}

fn on_fd(fd: c_int, name: &'static str) {
    if let Some((s, me)) = sched() {
        let kind = s.m.lock().unwrap().fds.get(&fd).copied();
        if let Some(storage) = kind {
            s.switch(me);
            s.note(me, if storage { What::Storage(name) } else { What::Lock(name) });
        }
    }
}

unsafe fn ret(r: c_long) -> c_long {
    r
}

unsafe fn do_open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let me = sched();
    if let Some((s, me)) = &me {
        s.switch(*me);
    }
    let r = ret(libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode)) as c_int;
    if let Some((s, me)) = me {
        let p = std::ffi::CStr::from_ptr(path).to_bytes();
        let storage = {
            let mut g = s.m.lock().unwrap();
            let st = p == g.storage;
            if r >= 0 {
                g.fds.insert(r, st);
            }
            st
        };
        s.note(me, if storage { What::Storage(if flags & libc::O_TRUNC != 0 { "open with truncation" } else { "open" }) } else { What::Lock("open") });
        // what follows may be a lock request that goes straight to the kernel
        s.switch(me);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(path, flags | libc::O_LARGEFILE, mode)
}
#[allow(invalid_runtime_symbol_definitions)]
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    on_fd(fd, "close");
    if let Some((s, _)) = sched() {
        s.m.lock().unwrap().fds.remove(&fd);
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    on_fd(fd, "read");
    libc::syscall(libc::SYS_read, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    on_fd(fd, "write");
    libc::syscall(libc::SYS_write, fd, b, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    on_fd(fd, "write");
    libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, w: c_int) -> off64_t {
    on_fd(fd, "seek");
    libc::syscall(libc::SYS_lseek, fd, o, w) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, o: off64_t) -> c_int {
    on_fd(fd, "truncate");
    libc::syscall(libc::SYS_ftruncate, fd, o) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    on_fd(fd, "lock");
    libc::syscall(libc::SYS_flock, fd, op) as c_int
}

unsafe fn do_sleep(ns: u64) -> bool {
    if let Some((s, me)) = sched() {
        s.note(me, What::Sleep(ns));
        {
            let mut g = s.m.lock().unwrap();
            let t = g.now + ns;
            g.st[me] = St::Sleeping(t);
        }
        s.switch(me);
        return true;
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    if do_sleep(ns) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    let mut ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    if let Some((s, _)) = sched() {
        if flags & libc::TIMER_ABSTIME != 0 {
            ns = ns.saturating_sub(s.now());
        }
        do_sleep(ns);
        return 0;
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, clk, flags, req, rem);
    if r < 0 {
        *libc::__errno_location()
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if let Some((s, _)) = sched() {
        let t = s.now();
        (*ts).tv_sec = (t / 1_000_000_000) as _;
        (*ts).tv_nsec = (t % 1_000_000_000) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int
}
