//! C21: safepoint requests raised by threads, timers and signal handlers.
#![allow(dead_code, unused_imports, clippy::all)]
#![feature(cfg_sanitize)]
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vh::{vbail, vcheck, veq, Case, Verdict, Violation};

#[path = "/repo/monoruby/src/poll_flag.rs"]
mod poll_flag;
#[path = "/repo/monoruby/src/preempt.rs"]
mod preempt;
#[path = "/repo/monoruby/src/codegen"]
mod codegen {
    pub mod signal_table;
}
use codegen::signal_table as st;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Value(pub u64);
#[derive(Clone, Debug, PartialEq)]
pub struct MonorubyErr(pub &'static str, pub String);
impl MonorubyErr {
    pub fn interrupt(m: impl Into<String>) -> Self {
        MonorubyErr("Interrupt", m.into())
    }
    pub fn signalexception(m: impl Into<String>) -> Self {
        MonorubyErr("SignalException", m.into())
    }
}

const SIGS: [i32; 8] = [libc::SIGUSR1, libc::SIGUSR2, libc::SIGHUP, libc::SIGURG, libc::SIGWINCH, libc::SIGCHLD, libc::SIGTERM, libc::SIGCONT];
static STARTED: [AtomicU64; 40] = [const { AtomicU64::new(0) }; 40];
static DONE: [AtomicU64; 40] = [const { AtomicU64::new(0) }; 40];

/// Around the real handler: how many deliveries began and completed.
extern "C" fn observed_handler(signo: i32) {
    STARTED[signo as usize].fetch_add(1, SeqCst);
    st::signal_handler(signo);
    DONE[signo as usize].fetch_add(1, SeqCst);
}

fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        for s in SIGS {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = observed_handler as extern "C" fn(i32) as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    });
}

/// A poll word with guard words around it.
struct Word(Box<[AtomicU32; 3]>);
const GUARD: u32 = 0xdead_5afe;
impl Word {
    fn new() -> Self {
        Word(Box::new([AtomicU32::new(GUARD), AtomicU32::new(0), AtomicU32::new(GUARD)]))
    }
    fn ptr(&self) -> *mut u32 {
        self.0[1].as_ptr()
    }
    fn get(&self) -> u32 {
        self.0[1].load(SeqCst)
    }
    fn guards(&self) -> bool {
        self.0[0].load(SeqCst) == GUARD && self.0[2].load(SeqCst) == GUARD
    }
}

fn on_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::spawn(f).join().unwrap()
}

/// What a case does on its own thread reports back.
#[derive(Default)]
struct Tally {
    counts: Vec<(&'static str, u64)>,
    sig: u64,
}
impl Tally {
    fn add(&mut self, k: &'static str, n: u64) {
        match self.counts.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 += n,
            None => self.counts.push((k, n)),
        }
    }
    fn into(self, case: &mut Case) {
        for (k, n) in self.counts {
            case.count_n(k, n);
        }
        case.sig(self.sig);
    }
}
type Res = Result<Tally, Violation>;

/// One thread, several interpreters, every lane operation against a model.
fn model(seed: u64) -> Res {
    let mut rng = vh::Rng::new(seed, 1);
    let mut t = Tally::default();
    let mut pend: u32 = 0;
    st::take_pending_signals();
    let n = 1 + rng.us(3);
    let words: Vec<Word> = (0..n).map(|_| Word::new()).collect();
    // model state per word: gc, preempt, signal; `frozen` holds the value at unregistration
    let mut lanes = vec![[false; 3]; n];
    let mut frozen: Vec<Option<u32>> = vec![Some(0); n];
    let mut mine: Option<usize> = None;
    let mut target: Option<usize> = None;
    let steps = 20 + rng.us(120);
    for _ in 0..steps {
        let op = rng.us(15);
        t.sig = t.sig.wrapping_mul(0x9e3779b97f4a7c15) ^ op as u64;
        match op {
            0 => {
                let i = rng.us(n);
                poll_flag::register(words[i].ptr());
                mine = Some(i);
                target = Some(i);
                frozen[i] = None;
                t.add("registrations", 1);
            }
            1 => {
                let i = rng.us(n);
                poll_flag::unregister(words[i].ptr());
                if mine == Some(i) {
                    mine = None;
                }
                if target == Some(i) {
                    target = None;
                }
                frozen[i] = Some(words[i].get());
                t.add("unregistrations", 1);
            }
            2 => {
                poll_flag::adopt_signal_registry();
                if mine.is_some() {
                    target = mine;
                }
            }
            3 | 4 => {
                poll_flag::set_gc();
                if let Some(i) = mine {
                    lanes[i][0] = true;
                }
            }
            5 => {
                poll_flag::clear_gc();
                if let Some(i) = mine {
                    lanes[i][0] = false;
                }
            }
            6 | 7 => {
                poll_flag::set_preempt();
                if let Some(i) = mine {
                    lanes[i][1] = true;
                }
            }
            8 => {
                let r = poll_flag::consume_preempt();
                let want = mine.map(|i| std::mem::replace(&mut lanes[i][1], false)).unwrap_or(false);
                if r != want {
                    vbail!("a preemption check answered {r}, but a tick was {}", if want { "pending" } else { "not pending" });
                }
                t.add("preempt_checks", 1);
            }
            9 => {
                let r = poll_flag::gc_requested();
                let want = mine.map(|i| lanes[i][0]).unwrap_or(true);
                if r != want {
                    vbail!("a collection check answered {r}, expected {want}");
                }
                t.add("gc_checks", 1);
            }
            10 => {
                poll_flag::clear_signal();
                if let Some(i) = mine {
                    lanes[i][2] = false;
                }
            }
            11 | 12 => {
                // real delivery on this thread, or a direct call for numbers not to be raised
                let signo = if rng.chance(1, 2) {
                    let s = *rng.pick(&SIGS);
                    unsafe { libc::raise(s) };
                    t.add("signals_raised", 1);
                    s
                } else {
                    let s = 1 + rng.us(32) as i32;
                    st::signal_handler(s);
                    s
                };
                pend |= 1u32 << (signo - 1);
                if let Some(i) = target {
                    lanes[i][2] = true;
                }
            }
            13 => {
                veq!(st::has_pending_signals(), pend != 0, "pending-signal query");
                let got = st::take_pending_signals();
                veq!(got, pend, "signals reported by a drain (bit n = signal n+1)");
                let want_low = (1..=32).find(|s| pend & (1u32 << (s - 1)) != 0);
                veq!(st::lowest_pending_signo(got), want_low, "lowest pending signal");
                veq!(st::take_pending_signals(), 0, "a second drain");
                pend = 0;
                t.add("drains", 1);
            }
            _ => {
                poll_flag::set_signal_from_handler();
                if let Some(i) = target {
                    lanes[i][2] = true;
                }
            }
        }
        for i in 0..n {
            if !words[i].guards() {
                vbail!("memory next to a poll word was written");
            }
            // A word that was unregistered and is neither this thread's nor the handler's stays as it was.
            if let (Some(v), true) = (frozen[i], mine != Some(i) && target != Some(i)) {
                veq!(words[i].get(), v, "an unregistered interpreter's word was written");
            } else {
                let want = lanes[i].iter().any(|b| *b);
                veq!(words[i].get() != 0, want, "poll word armed (lanes gc/preempt/signal = {:?})", lanes[i]);
            }
        }
        t.add("lane_steps", 1);
        vh::step();
    }
    for w in &words {
        poll_flag::unregister(w.ptr());
    }
    st::take_pending_signals();
    Ok(t)
}

/// An interpreter thread polling for real while other threads send signals and ticks.
fn storm(seed: u64, secs: f64, senders: usize) -> Res {
    let mut rng = vh::Rng::new(seed, 2);
    let mut t = Tally::default();
    st::take_pending_signals();
    // learn which bits a tick sets
    let word = Arc::new(Word::new());
    poll_flag::register(word.ptr());
    poll_flag::set_preempt();
    let tick = word.get();
    vcheck!(poll_flag::consume_preempt(), "a tick just raised is not seen");
    vcheck!(word.get() == 0, "consuming the only request leaves the word armed");

    let base_started: Vec<u64> = STARTED.iter().map(|a| a.load(SeqCst)).collect();
    let stop = Arc::new(AtomicBool::new(false));
    let ticks_done = Arc::new(AtomicU64::new(0));
    let ticks_started = Arc::new(AtomicU64::new(0));
    let me = unsafe { libc::pthread_self() } as usize;
    let mut hs = vec![];
    for k in 0..senders {
        let (stop, word, td, ts) = (stop.clone(), word.clone(), ticks_done.clone(), ticks_started.clone());
        let mut r = vh::Rng::new(seed, 100 + k as u64);
        let mode = if k == 0 { 0 } else { r.us(3) };
        hs.push(std::thread::spawn(move || {
            let mut sent = 0u64;
            while !stop.load(Relaxed) {
                match mode {
                    0 => unsafe {
                        // to the interpreter thread itself
                        libc::pthread_kill(me as libc::pthread_t, *r.pick(&SIGS));
                        sent += 1;
                    },
                    1 => unsafe {
                        // handled on this foreign thread
                        libc::raise(*r.pick(&SIGS));
                        sent += 1;
                    },
                    _ => {
                        ts.fetch_add(1, SeqCst);
                        word.0[1].fetch_or(tick, Relaxed);
                        td.fetch_add(1, SeqCst);
                    }
                }
                for _ in 0..r.us(200) {
                    std::hint::spin_loop();
                }
                if r.chance(1, 64) {
                    std::thread::yield_now();
                }
            }
            sent
        }));
    }
    // the signal is reported by a drain at or after its delivery: highest delivery count known covered
    let mut covered: Vec<u64> = DONE.iter().map(|a| a.load(SeqCst)).collect();
    // deliveries before this storm are not judged
    for s in 0..40 {
        covered[s] = covered[s].max(base_started[s]);
    }
    let mut reports = vec![0u64; 40];
    let mut ticks_covered = 0u64;
    let mut tick_reports = 0u64;
    let mut gc = false;
    let deadline = Instant::now() + Duration::from_secs_f64(secs);
    let mut fail: Option<String> = None;
    let mut rounds = 0u64;
    let mut finishing = false;
    loop {
        rounds += 1;
        // the owner's own lane follows the owner's operations exactly
        match rng.us(4) {
            0 => {
                poll_flag::set_gc();
                gc = true;
            }
            1 => {
                poll_flag::clear_gc();
                gc = false;
            }
            _ => {}
        }
        if poll_flag::gc_requested() != gc {
            fail = Some(format!("the collection request was {} but a check says otherwise", if gc { "raised" } else { "cleared" }));
            break;
        }
        let done: Vec<u64> = DONE.iter().map(|a| a.load(SeqCst)).collect();
        let tdone = ticks_done.load(SeqCst);
        let w = word.get();
        if w == 0 {
            if gc {
                fail = Some("the poll word is zero while a collection is requested".into());
                break;
            }
            if let Some(s) = (1..33).find(|s| done[*s] > covered[*s]) {
                fail = Some(format!("signal {s} was delivered ({} times, {} reported so far) but the poll word is zero", done[s], covered[s]));
                break;
            }
            if tdone > ticks_covered {
                fail = Some(format!("tick {tdone} was raised but the poll word is zero"));
                break;
            }
            t.add("idle_polls", 1);
            if finishing {
                break;
            }
            continue;
        }
        // the poll proper: consume the tick, then clear and drain the signals
        let got_tick = poll_flag::consume_preempt();
        let ts = ticks_started.load(SeqCst);
        if got_tick {
            ticks_covered = ticks_covered.max(ts);
            tick_reports += 1;
        } else if tdone > ticks_covered {
            fail = Some(format!("tick {tdone} was raised before a check that did not see it"));
            break;
        }
        if rng.chance(7, 8) || finishing {
            // (otherwise a poll that may not deliver: the signals stay pending)
            let done: Vec<u64> = DONE.iter().map(|a| a.load(SeqCst)).collect();
            poll_flag::clear_signal();
            let mut p = st::take_pending_signals();
            let started: Vec<u64> = STARTED.iter().map(|a| a.load(SeqCst)).collect();
            let full = p;
            let mut last = 0;
            while let Some(s) = st::lowest_pending_signo(p) {
                if s <= last || s > 32 {
                    fail = Some(format!("pending signals come out of order: {s} after {last} in {full:#x}"));
                    break;
                }
                last = s;
                p &= !(1u32 << (s - 1));
                let s = s as usize;
                reports[s] += 1;
                if reports[s] > started[s] - base_started[s] {
                    fail = Some(format!("signal {s} was reported {} times but delivered at most {} times", reports[s], started[s] - base_started[s]));
                    break;
                }
                covered[s] = covered[s].max(started[s]);
            }
            if fail.is_some() {
                break;
            }
            if let Some(s) = (1..33).find(|s| done[*s] > covered[*s]) {
                fail = Some(format!("signal {s} was delivered before a drain that did not report it"));
                break;
            }
            t.add("storm_drains", 1);
        } else {
            t.add("deferred_polls", 1);
        }
        if finishing {
            if gc {
                poll_flag::clear_gc();
                gc = false;
            }
        } else if Instant::now() >= deadline {
            stop.store(true, SeqCst);
            for h in hs.drain(..) {
                t.add("storm_signals", h.join().unwrap());
            }
            poll_flag::clear_gc();
            gc = false;
            finishing = true;
        }
    }
    stop.store(true, SeqCst);
    for h in hs.drain(..) {
        let _ = h.join();
    }
    let guards = word.guards();
    poll_flag::unregister(word.ptr());
    st::take_pending_signals();
    if let Some(m) = fail {
        vbail!("{m} (after {rounds} polls)");
    }
    vcheck!(guards, "memory next to the poll word was written");
    t.add("storm_polls", rounds);
    t.add("storm_reports", reports.iter().sum());
    t.add("ticks_seen", tick_reports);
    t.add("ticks_raised", ticks_done.load(SeqCst));
    t.sig = seed;
    Ok(t)
}

/// Wait for a tick; the waiter's own sleeps measure whether the machine keeps time.
fn await_tick(word: &Word, limit: u32) -> Result<bool, Violation> {
    for _ in 0..limit {
        let armed = word.get() != 0;
        if poll_flag::consume_preempt() {
            return Ok(true);
        }
        if armed {
            // a signal (a child's end) may have armed it as well
            poll_flag::clear_signal();
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    Ok(poll_flag::consume_preempt())
}

/// The timer starts, stops, restarts and detaches with the number of live threads.
fn timer(seed: u64, rounds: usize) -> Res {
    let mut rng = vh::Rng::new(seed, 3);
    let mut t = Tally::default();
    let mut word = Word::new();
    poll_flag::register(word.ptr());
    preempt::register_flag(word.ptr());
    for _ in 0..rounds {
        preempt::on_thread_count(2 + rng.us(3));
        if !await_tick(&word, 100)? {
            vbail!("two threads are alive but no tick came in a hundred sleeps of ten milliseconds");
        }
        t.add("timer_ticks", 1);
        let t0 = Instant::now();
        match rng.us(8) {
            0..=4 => {
                // the count drops and rises again near the next tick
                preempt::on_thread_count(rng.us(2));
                let aim = Duration::from_micros(9_900 + rng.below(500));
                if aim > Duration::from_millis(1) {
                    std::thread::sleep(aim - Duration::from_millis(1));
                }
                while t0.elapsed() < aim {
                    std::hint::spin_loop();
                }
                t.add("timer_restarts", 1);
            }
            5 => {
                preempt::on_thread_count(1);
                std::thread::sleep(Duration::from_millis(rng.below(25)));
                // at most the tick already under way; then quiet until it restarts
                poll_flag::consume_preempt();
            }
            6 => {
                // the interpreter goes away and another one takes its place
                poll_flag::unregister(word.ptr());
                preempt::codegen_dropped();
                let seen = word.get();
                let next = Word::new();
                let keep = rng.chance(1, 2);
                if keep {
                    std::thread::sleep(Duration::from_millis(12));
                    veq!(word.get(), seen, "a timer wrote into the word of a dropped interpreter");
                }
                word = next;
                if !keep {
                    std::thread::sleep(Duration::from_millis(rng.below(12)));
                }
                poll_flag::register(word.ptr());
                preempt::register_flag(word.ptr());
                t.add("timer_detached", 1);
            }
            _ => {}
        }
    }
    // final detach: nothing may be written afterwards
    poll_flag::unregister(word.ptr());
    preempt::codegen_dropped();
    let seen = word.get();
    std::thread::sleep(Duration::from_millis(12));
    veq!(word.get(), seen, "a timer wrote into the word of a dropped interpreter");
    vcheck!(word.guards(), "memory next to the poll word was written");
    t.sig = seed;
    Ok(t)
}

/// A forked child with two threads of its own gets ticks of its own.
fn forked(seed: u64) -> Res {
    let mut rng = vh::Rng::new(seed, 4);
    let mut t = Tally::default();
    let word = Word::new();
    poll_flag::register(word.ptr());
    preempt::register_flag(word.ptr());
    let running = rng.chance(3, 4);
    if running {
        preempt::on_thread_count(2);
        vcheck!(await_tick(&word, 100)?, "two threads are alive but no tick came");
        if rng.chance(1, 2) {
            preempt::on_thread_count(1);
        }
    }
    let before = st::take_pending_signals();
    let _ = before;
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        poll_flag::consume_preempt();
        preempt::on_thread_count(1);
        preempt::on_thread_count(2);
        let mut ok = false;
        for _ in 0..100 {
            if poll_flag::consume_preempt() {
                ok = true;
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        unsafe { libc::_exit(if ok { 0 } else { 7 }) };
    }
    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, 0) };
        if r == pid {
            break;
        }
    }
    poll_flag::unregister(word.ptr());
    preempt::codegen_dropped();
    if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 7 {
        vbail!("a forked child with two threads never got a tick (timer {} in the parent at the fork)", if running { "running" } else { "not running" });
    }
    if !(libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0) {
        vbail!("a forked child died: status {status:#x}");
    }
    t.add("forked_children", 1);
    t.sig = seed;
    Ok(t)
}

/// Interpreters come and go on several threads while signals keep arriving.
fn churn(seed: u64, threads: usize) -> Res {
    let mut t = Tally::default();
    st::take_pending_signals();
    let lock = Arc::new(Mutex::new(()));
    let stop = Arc::new(AtomicBool::new(false));
    let gate = Arc::new(AtomicU32::new(0));
    // freed only after every thread is over: a handler racing an unregistration may still write
    let kept: Arc<Mutex<Vec<Arc<Word>>>> = Arc::default();
    let mut hs = vec![];
    for k in 0..threads {
        let (lock, gate, kept) = (lock.clone(), gate.clone(), kept.clone());
        hs.push(std::thread::spawn(move || -> Res {
            let mut r = vh::Rng::new(seed, 10 + k as u64);
            let mut t = Tally::default();
            // every word used by this thread stays allocated, so a stray write shows
            let mut retired: Vec<(Arc<Word>, u32)> = vec![];
            for _ in 0..40 {
                let w = Arc::new(Word::new());
                kept.lock().unwrap().push(w.clone());
                poll_flag::register(w.ptr());
                for _ in 0..r.us(20) {
                    let gc = r.chance(1, 2);
                    if gc {
                        poll_flag::set_gc();
                    } else {
                        poll_flag::clear_gc();
                    }
                    vcheck!(poll_flag::gc_requested() == gc, "another thread's requests disturbed this interpreter's collection request");
                    if r.chance(1, 2) {
                        poll_flag::set_preempt();
                        vcheck!(poll_flag::consume_preempt(), "a tick of this interpreter was lost");
                    }
                    vcheck!(!poll_flag::consume_preempt(), "a tick appeared from another interpreter");
                    if r.chance(1, 4) {
                        st::signal_handler(libc::SIGUSR1);
                    }
                    if r.chance(1, 8) {
                        poll_flag::adopt_signal_registry();
                        // nobody else may redirect the handler while this is checked
                    }
                    t.add("churn_steps", 1);
                }
                {
                    // the handler must not touch it once unregistration returned; writers started
                    // before that are over once every thread passed through the lock
                    poll_flag::unregister(w.ptr());
                    let _g = lock.lock().unwrap();
                    std::thread::yield_now();
                }
                let v = w.get();
                retired.push((w, v));
                t.add("churned_interpreters", 1);
            }
            let _ = gate.fetch_add(1, SeqCst);
            let mut late = 0u64;
            for (w, v) in &retired {
                vcheck!(w.guards(), "memory next to a poll word was written");
                if w.get() != *v {
                    late += 1;
                }
            }
            // a handler that had picked the word up just before may still finish; more than
            // one per other thread and retirement would be a stale registration
            if late as usize > retired.len() / 2 {
                vbail!("{late} of {} unregistered words were written later", retired.len());
            }
            t.add("late_handler_writes", late);
            Ok(t)
        }));
    }
    let mut out = Ok(());
    for h in hs {
        match h.join().unwrap() {
            Ok(x) => {
                for (k, n) in x.counts {
                    t.add(k, n);
                }
            }
            Err(e) => out = Err(e),
        }
    }
    stop.store(true, SeqCst);
    st::take_pending_signals();
    out?;
    // afterwards nobody is registered: a signal is recorded and touches no word
    st::signal_handler(libc::SIGUSR2);
    veq!(st::take_pending_signals(), 1u32 << (libc::SIGUSR2 - 1), "a signal with no interpreter registered is still recorded");
    t.sig = seed;
    Ok(t)
}

/// The tables describing signals agree with each other and with the OS.
fn tables(case: &mut Case) -> Verdict {
    let names: &[(i32, &str)] = &[
        (libc::SIGHUP, "SIGHUP"), (libc::SIGINT, "Interrupt"), (libc::SIGQUIT, "SIGQUIT"), (libc::SIGALRM, "SIGALRM"),
        (libc::SIGTERM, "SIGTERM"), (libc::SIGUSR1, "SIGUSR1"), (libc::SIGUSR2, "SIGUSR2"), (libc::SIGPIPE, "SIGPIPE"),
    ];
    for s in 0..=65 {
        let fault = [libc::SIGSEGV, libc::SIGBUS, libc::SIGFPE, libc::SIGILL].contains(&s);
        if st::is_default_installed(s) {
            vcheck!(st::is_trappable(s), "signal {s} is installed by default but may not be trapped");
            vcheck!(st::signo_to_error(s).is_some(), "signal {s} is installed by default but becomes no error");
        }
        vcheck!(!(fault && (st::is_trappable(s) || st::is_default_installed(s))), "a fault signal {s} is caught");
        vcheck!(!(st::is_uncatchable(s) && st::is_trappable(s)), "signal {s} is both uncatchable and trappable");
        veq!(st::is_uncatchable(s), s == libc::SIGKILL || s == libc::SIGSTOP, "uncatchable({s})");
        if let Some(MonorubyErr(class, msg)) = st::signo_to_error(s) {
            let Some((_, want)) = names.iter().find(|e| e.0 == s) else { vbail!("signal {s} becomes {class} {msg}") };
            veq!(msg.as_str(), *want, "message for signal {s}");
            veq!(class, if s == libc::SIGINT { "Interrupt" } else { "SignalException" }, "class for signal {s}");
        }
        case.count("table_entries");
    }
    Ok(())
}

fn main() {
    install();
    let tsan = cfg!(sanitize = "thread");
    vh::main_loop("c21", |case| {
        let seed = case.rng.next();
        let k = case.rng.weighted(if tsan { &[20, 6, 1, 0, 4, 1] } else { &[30, 6, 2, 1, 4, 1] });
        case.nontrivial();
        match k {
            0 => {
                case.op(|| format!("model({seed})"));
                on_thread(move || model(seed))?.into(case);
                case.count("model_histories");
            }
            1 => {
                let senders = 1 + case.rng.us(4);
                let ms = 10 + case.rng.below(if case.thorough { 200 } else { 60 });
                case.op(|| format!("storm({seed}, {ms} ms, {senders} senders)"));
                on_thread(move || storm(seed, ms as f64 / 1000.0, senders))?.into(case);
                case.count("storms");
            }
            2 => {
                let rounds = 2 + case.rng.us(6);
                case.op(|| format!("12 timers({seed}, {rounds} rounds)"));
                let hs: Vec<_> = (0..12u64).map(|i| std::thread::spawn(move || timer(seed.wrapping_add(i), rounds))).collect();
                let rs: Vec<Res> = hs.into_iter().map(|h| h.join().unwrap()).collect();
                for r in rs {
                    r?.into(case);
                    case.count("timers");
                }
            }
            3 => {
                case.op(|| format!("forked({seed})"));
                on_thread(move || forked(seed))?.into(case);
            }
            4 => {
                let threads = 2 + case.rng.us(3);
                case.op(|| format!("churn({seed}, {threads} threads)"));
                on_thread(move || churn(seed, threads))?.into(case);
            }
            _ => {
                case.sig(0);
                tables(case)?;
            }
        }
        Ok(())
    });
}
