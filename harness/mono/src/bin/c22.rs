//! C22: native calls offloaded to worker threads.
#![allow(dead_code, unused_imports, static_mut_refs, clippy::all)]
#![feature(cfg_sanitize)]
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vh::{vbail, vcheck, veq, Case, Rng, Verdict, Violation};

/// Bytes in use by the whole process.
struct Counting;
static IN_USE: AtomicI64 = AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        IN_USE.fetch_add(l.size() as i64, Relaxed);
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        IN_USE.fetch_sub(l.size() as i64, Relaxed);
        unsafe { std::alloc::System.dealloc(p, l) }
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

#[path = "/repo/monoruby/src/native_pool.rs"]
mod native_pool;
use native_pool::{Completion, NativeOp};

pub mod executor {
    pub struct Executor {
        pub thread: usize,
    }
    #[derive(Debug, PartialEq)]
    pub struct Killed;
    pub type Result<T> = std::result::Result<T, Killed>;
}
pub mod globals {
    pub struct Globals;
}
pub mod builtins {
    pub mod fiddle {
        pub struct FfiWorkerCall(pub crate::Call);
        impl FfiWorkerCall {
            pub fn run(&self) -> i64 {
                self.0.run()
            }
        }
    }
}
use builtins::fiddle::FfiWorkerCall;
use executor::{Executor, Killed};
use globals::Globals;

/// One foreign call: what it answers, when it may finish and how often it ran.
pub struct CallState {
    answer: i64,
    open: AtomicBool,
    delay_us: u64,
    begun: AtomicU32,
    ended: AtomicU32,
    home: u64,
}
#[derive(Clone)]
pub struct Call(Arc<CallState>);
fn tid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}
impl Call {
    fn new(answer: i64, open: bool, delay_us: u64) -> Call {
        Call(Arc::new(CallState {
            answer,
            open: AtomicBool::new(open),
            delay_us,
            begun: AtomicU32::new(0),
            ended: AtomicU32::new(0),
            home: tid(),
        }))
    }
    fn run(&self) -> i64 {
        self.0.begun.fetch_add(1, SeqCst);
        if self.0.delay_us > 0 {
            std::thread::sleep(Duration::from_micros(self.0.delay_us));
        }
        while !self.0.open.load(SeqCst) {
            std::thread::sleep(Duration::from_micros(30));
        }
        let same = tid() == self.0.home;
        self.0.ended.fetch_add(1, SeqCst);
        if same { self.0.answer ^ 0x5555 } else { self.0.answer }
    }
    fn ended(&self) -> bool {
        self.0.ended.load(SeqCst) > 0
    }
    fn op(&self) -> NativeOp {
        NativeOp::Ffi(FfiWorkerCall(self.clone()))
    }
}

// ---------------------------------------------------------------- green threads

/// A cooperative scheduler on one OS thread, as the interpreter has: a ready
/// queue, and one poll over every parked thread when it is empty.
pub mod scheduler {
    use super::*;
    pub fn wait_fd(vm: &mut Executor, _g: &mut Globals, fd: i32, ev: i16, _dl: Option<Instant>) -> executor::Result<()> {
        super::park(vm.thread, fd, ev)
    }
}

struct Green {
    ctx: Box<libc::ucontext_t>,
    stack: Vec<u8>,
    body: Option<Box<dyn FnOnce(usize)>>,
    done: bool,
    parked: Option<(i32, i16)>,
    killed: bool,
    parks: u64,
}
struct Sched {
    main: Box<libc::ucontext_t>,
    threads: Vec<Green>,
    ready: VecDeque<usize>,
    rng: Rng,
    /// calls a parked thread is waiting for
    waiting: Vec<Option<Call>>,
    fail: Option<String>,
    kills: u64,
    wakes: u64,
    spurious: u64,
    delays: u64,
}
static mut SCHED: *mut Sched = std::ptr::null_mut();
fn sched() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}

extern "C" fn entry(i: usize) {
    {
        let body = sched().threads[i].body.take().unwrap();
        body(i);
    }
    let s = sched();
    s.threads[i].done = true;
    switch_out(i);
}
fn switch_out(i: usize) {
    let s = sched();
    unsafe {
        let main: *const libc::ucontext_t = &*s.main;
        let me: *mut libc::ucontext_t = &mut *s.threads[i].ctx;
        libc::swapcontext(me, main);
    }
}
fn yield_now(i: usize) {
    sched().ready.push_back(i);
    switch_out(i);
}
fn park(i: usize, fd: i32, ev: i16) -> executor::Result<()> {
    let s = sched();
    s.threads[i].parked = Some((fd, ev));
    s.threads[i].parks += 1;
    switch_out(i);
    let s = sched();
    if std::mem::replace(&mut s.threads[i].killed, false) { Err(Killed) } else { Ok(()) }
}

fn run_green(bodies: Vec<Box<dyn FnOnce(usize)>>, rng: Rng, kill_den: u64) -> Option<String> {
    let n = bodies.len();
    let mut s = Box::new(Sched {
        main: unsafe { Box::new(std::mem::zeroed()) },
        threads: vec![],
        ready: (0..n).collect(),
        rng,
        waiting: vec![None; n],
        fail: None,
        kills: 0,
        wakes: 0,
        spurious: 0,
        delays: 0,
    });
    for body in bodies {
        s.threads.push(Green {
            ctx: unsafe { Box::new(std::mem::zeroed()) },
            stack: vec![0u8; 128 * 1024],
            body: Some(body),
            done: false,
            parked: None,
            killed: false,
            parks: 0,
        });
    }
    unsafe { SCHED = &mut *s };
    for i in 0..n {
        let g = &mut s.threads[i];
        unsafe {
            libc::getcontext(&mut *g.ctx);
            g.ctx.uc_stack.ss_sp = g.stack.as_mut_ptr() as *mut _;
            g.ctx.uc_stack.ss_size = g.stack.len();
            g.ctx.uc_link = std::ptr::null_mut();
            let f: extern "C" fn(usize) = entry;
            libc::makecontext(&mut *g.ctx, std::mem::transmute::<extern "C" fn(usize), extern "C" fn()>(f), 1, i);
        }
    }
    let mut idle = 0u32;
    loop {
        vh::step();
        let s = sched();
        if s.fail.is_some() {
            break;
        }
        if let Some(i) = s.ready.pop_front() {
            // time passes before the thread actually runs
            if s.rng.chance(1, 4) {
                s.delays += 1;
                std::thread::sleep(Duration::from_micros(s.rng.below(300)));
            }
            unsafe {
                let main: *mut libc::ucontext_t = &mut *s.main;
                let to: *const libc::ucontext_t = &*s.threads[i].ctx;
                libc::swapcontext(main, to);
            }
            continue;
        }
        let parked: Vec<usize> = (0..n).filter(|i| s.threads[*i].parked.is_some()).collect();
        if parked.is_empty() {
            break;
        }
        // Thread#raise / #kill of a parked thread
        if kill_den > 0 && s.rng.chance(1, kill_den) {
            let i = *s.rng.pick(&parked);
            s.threads[i].killed = true;
            s.threads[i].parked = None;
            s.ready.push_back(i);
            s.kills += 1;
            continue;
        }
        let mut pfds: Vec<libc::pollfd> = parked
            .iter()
            .map(|i| {
                let (fd, events) = s.threads[*i].parked.unwrap();
                libc::pollfd { fd, events, revents: 0 }
            })
            .collect();
        let r = unsafe { libc::poll(pfds.as_mut_ptr(), pfds.len() as _, 10) };
        if r > 0 {
            idle = 0;
            for (p, i) in pfds.iter().zip(&parked) {
                if p.revents != 0 {
                    s.threads[*i].parked = None;
                    s.ready.push_back(*i);
                    s.wakes += 1;
                    if s.waiting[*i].as_ref().is_some_and(|c| !c.ended()) {
                        s.spurious += 1;
                    }
                }
            }
        } else {
            // A gated call opens when nothing else can happen.
            let mut any = false;
            for c in s.waiting.iter().flatten() {
                if !c.0.open.swap(true, SeqCst) {
                    any = true;
                    break;
                }
            }
            if any {
                idle = 0;
                continue;
            }
            idle += 1;
            if idle >= 100 && parked.iter().all(|i| s.waiting[*i].as_ref().is_some_and(|c| c.ended())) {
                s.fail = Some(format!(
                    "lost wake-up: {} thread(s) stay parked although their calls ended a hundred polls of ten milliseconds ago",
                    parked.len()
                ));
            }
        }
    }
    s.fail.clone()
}

fn green(case: &mut Case) -> Verdict {
    let n = 2 + case.rng.us(5);
    let rounds = 1 + case.rng.us(6);
    let kill_den = *case.rng.pick(&[0u64, 0, 6, 20]);
    let log: Arc<Mutex<Vec<String>>> = Arc::default();
    let ok = Arc::new(AtomicU64::new(0));
    let killed = Arc::new(AtomicU64::new(0));
    let seed = case.rng.next();
    let gates: Arc<Mutex<Vec<Call>>> = Arc::default();
    let all: Arc<Mutex<Vec<Call>>> = Arc::default();
    let mut bodies: Vec<Box<dyn FnOnce(usize)>> = vec![];
    for k in 0..n {
        let (log, ok, killed, gates, all) = (log.clone(), ok.clone(), killed.clone(), gates.clone(), all.clone());
        let mut r = Rng::new(seed, k as u64);
        bodies.push(Box::new(move |i| {
            let mut vm = Executor { thread: i };
            let mut g = Globals;
            for _ in 0..rounds {
                for _ in 0..r.us(3) {
                    yield_now(i);
                }
                if r.chance(1, 4) {
                    // let some other thread's call finish
                    if let Some(c) = gates.lock().unwrap().pop() {
                        c.0.open.store(true, SeqCst);
                    }
                }
                let answer = r.next() as i64;
                let gated = r.chance(1, 4);
                let c = Call::new(answer, !gated, if r.chance(1, 2) { r.below(400) } else { 0 });
                if gated {
                    gates.lock().unwrap().push(c.clone());
                }
                all.lock().unwrap().push(c.clone());
                sched().waiting[i] = Some(c.clone());
                let res = native_pool::run_blocking(&mut vm, &mut g, c.op());
                sched().waiting[i] = None;
                match res {
                    Ok(Completion { ret, errno }) => {
                        if ret != answer || errno != 0 {
                            log.lock().unwrap().push(format!("a call answering {answer} was reported as ({ret}, {errno})"));
                        }
                        if c.0.ended.load(SeqCst) != 1 {
                            log.lock().unwrap().push(format!("a call was reported complete after {} runs", c.0.ended.load(SeqCst)));
                        }
                        ok.fetch_add(1, SeqCst);
                    }
                    Err(Killed) => {
                        killed.fetch_add(1, SeqCst);
                        c.0.open.store(true, SeqCst);
                    }
                }
            }
        }));
    }
    let fail = run_green(bodies, Rng::new(seed, 99), kill_den);
    let s = sched();
    case.count_n("green_wakes", s.wakes);
    case.count_n("green_spurious", s.spurious);
    case.count_n("green_kills", s.kills);
    case.count_n("green_done", ok.load(SeqCst));
    case.count_n("green_abandoned", killed.load(SeqCst));
    case.count("green_runs");
    // release everything, and let it end
    for c in all.lock().unwrap().iter() {
        c.0.open.store(true, SeqCst);
    }
    settle(&all.lock().unwrap())?;
    if let Some(f) = fail {
        vbail!("{f}");
    }
    if let Some(m) = log.lock().unwrap().first() {
        vbail!("{m}");
    }
    veq!(ok.load(SeqCst) + killed.load(SeqCst), (n * rounds) as u64, "calls finished or abandoned");
    for c in all.lock().unwrap().iter() {
        veq!(c.0.begun.load(SeqCst), 1, "runs of one offloaded call");
    }
    native_pool::drain();
    Ok(())
}

/// Wait for every call to have ended (an operation never run shows here).
fn settle(calls: &[Call]) -> Verdict {
    for c in calls {
        let mut n = 0;
        while !c.ended() {
            std::thread::sleep(Duration::from_micros(200));
            n += 1;
            if n > 25_000 {
                vbail!("a submitted call was not run in {n} sleeps of 200 microseconds");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tickets

/// Wait until `f` answers, counting the waiter's own polls.
fn await_some<T>(mut f: impl FnMut() -> Option<T>) -> Option<T> {
    for k in 0..4000 {
        if let Some(v) = f() {
            return Some(v);
        }
        if k < 50 { std::thread::yield_now() } else { std::thread::sleep(Duration::from_micros(500)) }
    }
    None
}

/// Several OS threads submit, collect and discard tickets.
fn tickets(case: &mut Case) -> Verdict {
    let threads = 1 + case.rng.us(4);
    let per = 4 + case.rng.us(20);
    let seed = case.rng.next();
    let ids: Arc<Mutex<Vec<u64>>> = Arc::default();
    let hs: Vec<_> = (0..threads)
        .map(|k| {
            let ids = ids.clone();
            std::thread::spawn(move || -> Result<[u64; 4], Violation> {
                let mut r = Rng::new(seed, k as u64);
                let mut n = [0u64; 4];
                let mut live: Vec<(u64, Call, i64)> = vec![];
                let mut dead: Vec<(u64, Call)> = vec![];
                let mut made = 0;
                while made < per || !live.is_empty() {
                    match r.us(6) {
                        0 | 1 | 2 if made < per => {
                            let a = r.next() as i64;
                            let c = Call::new(a, true, if r.chance(1, 2) { r.below(300) } else { 0 });
                            let id = native_pool::submit(c.op());
                            ids.lock().unwrap().push(id);
                            made += 1;
                            n[0] += 1;
                            if r.chance(1, 3) {
                                // give up at some moment around the completion
                                match r.us(3) {
                                    0 => {}
                                    1 => {
                                        for _ in 0..r.us(20000) {
                                            std::hint::spin_loop();
                                        }
                                    }
                                    _ => while !c.ended() {
                                        std::hint::spin_loop();
                                        std::thread::yield_now();
                                    },
                                }
                                native_pool::discard(id);
                                n[2] += 1;
                                dead.push((id, c));
                            } else {
                                live.push((id, c, a));
                            }
                        }
                        3 if !live.is_empty() => {
                            let k = r.us(live.len());
                            if let Some(comp) = native_pool::try_take(live[k].0) {
                                let (id, c, a) = live.swap_remove(k);
                                veq!((comp.ret, comp.errno), (a, 0), "completion of one's own ticket");
                                veq!(c.0.ended.load(SeqCst), 1, "runs of a completed call");
                                vcheck!(native_pool::try_take(id).is_none(), "a completion was delivered twice");
                                n[1] += 1;
                            }
                        }
                        4 if !live.is_empty() => {
                            // park on the pipe like a waiter, then look at every ticket
                            let mut got = false;
                            for _ in 0..300 {
                                let mut p = libc::pollfd { fd: native_pool::wake_fd(), events: libc::POLLIN, revents: 0 };
                                let rr = unsafe { libc::poll(&mut p, 1, 10) };
                                if rr > 0 {
                                    native_pool::drain();
                                    n[3] += 1;
                                }
                                let mut k = 0;
                                while k < live.len() {
                                    if let Some(comp) = native_pool::try_take(live[k].0) {
                                        let (_, _, a) = live.swap_remove(k);
                                        veq!((comp.ret, comp.errno), (a, 0), "completion of one's own ticket");
                                        n[1] += 1;
                                        got = true;
                                    } else {
                                        k += 1;
                                    }
                                }
                                if got {
                                    break;
                                }
                            }
                            if !got {
                                vbail!("{} submitted calls, none completed within three hundred polls", live.len());
                            }
                        }
                        _ => {
                            if !dead.is_empty() {
                                let (id, _) = *r.pick(&dead.iter().map(|d| (d.0, 0)).collect::<Vec<_>>());
                                vcheck!(native_pool::try_take(id).is_none(), "a discarded ticket's result was delivered");
                            }
                        }
                    }
                    vh::step();
                }
                for (id, c) in &dead {
                    if await_some(|| c.ended().then_some(())).is_none() {
                        vbail!("a discarded call was never run");
                    }
                    for _ in 0..20 {
                        std::thread::yield_now();
                        vcheck!(native_pool::try_take(*id).is_none(), "a discarded ticket's result was delivered");
                    }
                }
                Ok(n)
            })
        })
        .collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    for r in rs {
        let n = r?;
        case.count_n("submitted", n[0]);
        case.count_n("collected", n[1]);
        case.count_n("discarded", n[2]);
        case.count_n("pipe_wakes", n[3]);
    }
    let mut v = ids.lock().unwrap().clone();
    let all = v.len();
    v.sort();
    v.dedup();
    veq!(v.len(), all, "distinct tickets");
    case.count("ticket_runs");
    Ok(())
}

fn wake_and_take(id: u64) -> Option<Completion> {
    let mut n = 0;
    loop {
        if let Some(c) = native_pool::try_take(id) {
            return Some(c);
        }
        let mut p = libc::pollfd { fd: native_pool::wake_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, 10) } > 0 {
            native_pool::drain();
        }
        n += 1;
        if n > 400 {
            return None;
        }
    }
}

/// A directory of the case's own, removed with it.
struct Scratch(String);
impl Scratch {
    fn new() -> Self {
        let mut t = *b"/tmp/c22.XXXXXX\0";
        let p = unsafe { libc::mkdtemp(t.as_mut_ptr() as *mut _) };
        assert!(!p.is_null());
        Scratch(String::from_utf8(t[..t.len() - 1].to_vec()).unwrap())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Tids of this process now.
fn tids() -> Vec<i32> {
    let mut v: Vec<i32> = std::fs::read_dir("/proc/self/task").unwrap().filter_map(|e| e.unwrap().file_name().to_str()?.parse().ok()).collect();
    v.sort();
    v
}
extern "C" fn nothing(_: i32) {}

/// Lock and open calls: right descriptor, right flags, right result, interrupted calls resumed.
fn syscalls(case: &mut Case) -> Verdict {
    let scratch = Scratch::new();
    let dir = scratch.0.as_str();
    let path = format!("{dir}/f{}", case.rng.us(4));
    let cpath = std::ffi::CString::new(path.clone()).unwrap();
    let before = tids();
    match case.rng.us(6) {
        0 | 1 => {
            // a lock held by another description; exclusive or shared
            let a = unsafe { libc::open(cpath.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_CLOEXEC, 0o600) };
            let b = unsafe { libc::open(cpath.as_ptr(), libc::O_RDWR | libc::O_CLOEXEC) };
            vcheck!(a >= 0 && b >= 0, "harness: open");
            let shared = case.rng.chance(1, 2);
            let held = case.rng.chance(2, 3);
            let want = if shared { libc::LOCK_SH } else { libc::LOCK_EX };
            let hold = if case.rng.chance(1, 2) { libc::LOCK_SH } else { libc::LOCK_EX };
            if held {
                unsafe { libc::flock(a, hold) };
            }
            let blocks = held && (hold == libc::LOCK_EX || !shared);
            case.op(|| format!("flock(shared={shared}) while held={held} ({hold})"));
            let id = native_pool::submit(NativeOp::Flock { fd: b, op: want });
            if blocks {
                std::thread::sleep(Duration::from_micros(case.rng.below(3000)));
                vcheck!(native_pool::try_take(id).is_none(), "a lock held elsewhere was reported acquired");
                if case.rng.chance(1, 2) {
                    interrupt_new(&before, case);
                    vcheck!(native_pool::try_take(id).is_none(), "an interrupted lock call was reported finished");
                }
                unsafe { libc::flock(a, libc::LOCK_UN) };
                case.count("locks_waited");
            }
            let Some(c) = wake_and_take(id) else { vbail!("a lock that is free was never acquired") };
            veq!((c.ret, c.errno), (0, 0), "result of a lock call");
            // it really holds the lock asked for
            let probe_ex = unsafe { libc::flock(a, libc::LOCK_EX | libc::LOCK_NB) };
            if probe_ex == 0 {
                vbail!("the lock was reported acquired but another description can take it");
            }
            let probe_sh = unsafe { libc::flock(a, libc::LOCK_SH | libc::LOCK_NB) };
            veq!(probe_sh == 0, shared, "kind of lock acquired");
            unsafe {
                libc::close(a);
                libc::close(b);
            }
            case.count("locks");
        }
        2 => {
            let id = native_pool::submit(NativeOp::Flock { fd: 999_999, op: libc::LOCK_EX });
            let Some(c) = wake_and_take(id) else { vbail!("a failing lock call never completed") };
            veq!((c.ret, c.errno), (-1, libc::EBADF), "result of a lock call on a bad descriptor");
            let p = std::ffi::CString::new(format!("{dir}/absent/x")).unwrap();
            let id = native_pool::submit(NativeOp::Open { path: p, flags: libc::O_RDONLY, mode: 0 });
            let Some(c) = wake_and_take(id) else { vbail!("a failing open call never completed") };
            veq!((c.ret, c.errno), (-1, libc::ENOENT), "result of opening a missing file");
            case.count("failed_calls");
        }
        3 => {
            // ordinary file: flags and mode reach the kernel
            let p = format!("{dir}/n{}", case.rng.us(1 << 20));
            let cp = std::ffi::CString::new(p.clone()).unwrap();
            let mode = *case.rng.pick(&[0o600u32, 0o640, 0o700, 0o400]);
            let acc = *case.rng.pick(&[libc::O_WRONLY, libc::O_RDWR]);
            let app = if case.rng.chance(1, 2) { libc::O_APPEND } else { 0 };
            let id = native_pool::submit(NativeOp::Open { path: cp.clone(), flags: acc | app | libc::O_CREAT | libc::O_EXCL, mode });
            let Some(c) = wake_and_take(id) else { vbail!("an open call never completed") };
            vcheck!(c.ret >= 0 && c.errno == 0, "opening a new file gave ({}, {})", c.ret, c.errno);
            let fd = c.ret as i32;
            let fl = unsafe { libc::fcntl(fd, libc::F_GETFL) };
            veq!(fl & (libc::O_ACCMODE | libc::O_APPEND), acc | app, "flags of the descriptor opened");
            use std::os::unix::fs::PermissionsExt;
            veq!(std::fs::metadata(&p).unwrap().permissions().mode() & 0o777, mode, "mode of the file created");
            // once more with O_EXCL fails
            let id = native_pool::submit(NativeOp::Open { path: cp, flags: acc | libc::O_CREAT | libc::O_EXCL, mode });
            let Some(c) = wake_and_take(id) else { vbail!("an open call never completed") };
            veq!((c.ret, c.errno), (-1, libc::EEXIST), "opening an existing file exclusively");
            unsafe { libc::close(fd) };
            std::fs::remove_file(&p).unwrap();
            case.count("files_opened");
        }
        _ => {
            // a FIFO blocks until its peer appears
            let p = format!("{dir}/p{}", case.rng.us(1 << 20));
            let cp = std::ffi::CString::new(p.clone()).unwrap();
            vcheck!(unsafe { libc::mkfifo(cp.as_ptr(), 0o600) } == 0, "harness: mkfifo");
            let reader = case.rng.chance(1, 2);
            let id = native_pool::submit(NativeOp::Open { path: cp.clone(), flags: if reader { libc::O_RDONLY } else { libc::O_WRONLY }, mode: 0 });
            std::thread::sleep(Duration::from_micros(case.rng.below(2000)));
            vcheck!(native_pool::try_take(id).is_none(), "a FIFO with no peer was reported open");
            if case.rng.chance(1, 2) {
                interrupt_new(&before, case);
                vcheck!(native_pool::try_take(id).is_none(), "an interrupted open was reported finished");
            }
            let peer = unsafe { libc::open(cp.as_ptr(), if reader { libc::O_WRONLY } else { libc::O_RDONLY }) };
            vcheck!(peer >= 0, "harness: peer");
            let Some(c) = wake_and_take(id) else { vbail!("opening a FIFO whose peer appeared never completed") };
            vcheck!(c.ret >= 0 && c.errno == 0, "opening a FIFO gave ({}, {})", c.ret, c.errno);
            let fd = c.ret as i32;
            let (rd, wr) = if reader { (fd, peer) } else { (peer, fd) };
            let mut b = [0u8; 4];
            unsafe {
                vcheck!(libc::write(wr, b"abc".as_ptr() as *const _, 3) == 3, "writing to the FIFO opened");
                vcheck!(libc::read(rd, b.as_mut_ptr() as *mut _, 4) == 3 && &b[..3] == b"abc", "reading from the FIFO opened");
                libc::close(fd);
                libc::close(peer);
            }
            std::fs::remove_file(&p).unwrap();
            case.count("fifos_opened");
        }
    }
    native_pool::drain();
    Ok(())
}

/// Send a signal whose handler does not restart calls to every thread that appeared since.
fn interrupt_new(before: &[i32], case: &mut Case) {
    for _ in 0..3 {
        for t in tids() {
            if !before.contains(&t) {
                unsafe { libc::syscall(libc::SYS_tgkill, libc::getpid(), t, libc::SIGUSR1) };
                case.count("interruptions");
            }
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}

/// Nothing accumulates: after many abandoned calls the heap is as before.
fn accumulate(case: &mut Case) -> Verdict {
    let rounds = 3;
    let per = if cfg!(sanitize = "thread") { 400 } else { 1200 };
    let mut live = vec![];
    for _ in 0..rounds {
        let mut calls: Vec<(u64, Call)> = Vec::with_capacity(per);
        for _ in 0..per {
            let c = Call::new(1, true, 0);
            let id = native_pool::submit(c.op());
            match case.rng.us(3) {
                0 => native_pool::discard(id),
                1 => {
                    while !c.ended() {
                        std::thread::yield_now();
                    }
                    native_pool::discard(id);
                }
                _ => {
                    if wake_and_take(id).is_none() {
                        vbail!("a call never completed");
                    }
                }
            }
            calls.push((id, c));
            vh::step();
        }
        for (_, c) in &calls {
            if await_some(|| c.ended().then_some(())).is_none() {
                vbail!("a discarded call was never run");
            }
        }
        drop(calls);
        // the workers' own threads end too
        let base = tids().len();
        let _ = base;
        let mut last = i64::MAX;
        for _ in 0..50 {
            std::thread::sleep(Duration::from_millis(2));
            let now = IN_USE.load(SeqCst);
            if now >= last {
                break;
            }
            last = now;
        }
        native_pool::drain();
        live.push(IN_USE.load(SeqCst));
        case.count_n("abandoned_and_counted", per as u64);
    }
    // two thirds of `per` tickets abandoned per round: a leak of even one word each shows
    let grown = live[rounds - 1] - live[0];
    if grown > (per as i64) * 8 {
        vbail!("{} bytes more in use after {} further calls were abandoned or collected (in use after each round: {live:?})", grown, per * (rounds - 1));
    }
    case.max("accumulated_bytes", grown.max(0) as u64);
    Ok(())
}

fn main() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nothing as extern "C" fn(i32) as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        libc::umask(0o022);
    }
    let san = cfg!(sanitize = "thread") || cfg!(sanitize = "address");
    vh::main_loop("c22", |case| {
        case.nontrivial();
        let k = case.rng.weighted(if san { &[0, 20, 20, 1] } else { &[60, 20, 20, 1] });
        let s = case.rng.next();
        case.sig(s);
        match k {
            0 => green(case),
            1 => tickets(case),
            2 => syscalls(case),
            _ => accumulate(case),
        }
    });
}
