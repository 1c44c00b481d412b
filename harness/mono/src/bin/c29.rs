//! C29: whole processes under the hang watchdog, judged by the clock.
#![allow(dead_code, clippy::all)]
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use vh::{vbail, vcheck, Case, Verdict};

#[path = "/repo/monoruby/src/watchdog.rs"]
mod watchdog;

const NAME: &str = "MONORUBY_HANG_WATCHDOG_SEC";
const SEC: u64 = 1_000_000_000;

fn now() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * SEC + t.tv_nsec as u64
}

/// What a child does, one step after another; times in milliseconds.
#[derive(Clone, Debug)]
enum Step {
    /// report progress `n` times, `gap` apart
    Polls(u64, u64),
    /// run for so long without reporting
    Spin(u64),
    /// sleep for so long without reporting
    Sleep(u64),
    /// wait for input that never comes, or comes after so long
    Read(u64),
}
#[derive(Clone, Debug)]
struct Plan {
    setting: Option<String>,
    /// seconds, 0 when disabled
    budget: u64,
    threads: u64,
    twice: bool,
    early_poll: bool,
    steps: Vec<Step>,
    /// the last step must be cut short
    dies: bool,
}
impl Plan {
    fn words(&self) -> String {
        let mut s = format!("{} {} {}", self.threads, self.twice as u8, self.early_poll as u8);
        for t in &self.steps {
            s += &match t {
                Step::Polls(n, g) => format!(" p {n} {g}"),
                Step::Spin(t) => format!(" s {t} 0"),
                Step::Sleep(t) => format!(" z {t} 0"),
                Step::Read(t) => format!(" r {t} 0"),
            };
        }
        s
    }
}

/// One record: what, and when.
fn tell(k: u8) {
    let mut b = [k; 9];
    b[1..].copy_from_slice(&now().to_le_bytes());
    let mut at = 0;
    while at < 9 {
        let n = unsafe { libc::write(1, b[at..].as_ptr() as *const _, 9 - at) };
        if n > 0 {
            at += n as usize;
        } else if n < 0 && std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
            std::process::exit(3);
        }
    }
}
fn until(t: u64, beat: bool) {
    let mut next = now() + SEC / 25;
    loop {
        let n = now();
        if n >= t {
            break;
        }
        if beat && n >= next {
            tell(b'b');
            next = n + SEC / 25;
        }
        let left = (t - n).min(if beat { SEC / 100 } else { t });
        let ts = libc::timespec { tv_sec: (left / SEC) as _, tv_nsec: (left % SEC) as _ };
        unsafe { libc::nanosleep(&ts, std::ptr::null_mut()) };
    }
}
fn child(words: &str) -> ! {
    let w: Vec<&str> = words.split(' ').collect();
    for _ in 0..w[0].parse::<u64>().unwrap() {
        std::thread::spawn(|| loop {
            until(now() + SEC / 3, false);
        });
    }
    if w[2] == "1" {
        watchdog::poll();
    }
    tell(b'i');
    watchdog::init();
    tell(b'I');
    if w[1] == "1" {
        watchdog::init();
    }
    tell(if watchdog::armed() { b'A' } else { b'D' });
    for c in w[3..].chunks(3) {
        let (a, g): (u64, u64) = (c[1].parse().unwrap(), c[2].parse().unwrap());
        match c[0] {
            "p" => {
                for _ in 0..a {
                    tell(b'p');
                    watchdog::poll();
                    tell(b'P');
                    until(now() + g * SEC / 1000, true);
                }
            }
            "s" => until(now() + a * SEC / 1000, true),
            "z" => {
                tell(b'z');
                until(now() + a * SEC / 1000, false);
                tell(b'Z');
            }
            _ => {
                // a pipe with nobody writing until the time has passed
                let mut fds = [0; 2];
                unsafe { libc::pipe(fds.as_mut_ptr()) };
                let end = now() + a * SEC / 1000;
                let fd = fds[1];
                std::thread::spawn(move || {
                    until(end, false);
                    unsafe { libc::write(fd, b"x".as_ptr() as *const _, 1) };
                });
                tell(b'z');
                let mut b = [0u8];
                loop {
                    let n = unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut _, 1) };
                    if n == 1 || std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
                        break;
                    }
                }
                tell(b'Z');
            }
        }
    }
    tell(b'e');
    // the end of the records first, then the process
    unsafe { libc::_exit(7) }
}

struct Seen {
    status: std::process::ExitStatus,
    at: u64,
    log: Vec<(u8, u64)>,
    err: String,
}
fn observe(p: &Plan) -> std::io::Result<Seen> {
    let mut c = std::process::Command::new(std::env::current_exe()?);
    c.env("C29_CHILD", p.words()).env_remove(NAME);
    if let Some(s) = &p.setting {
        c.env(NAME, s);
    }
    let mut c = c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn()?;
    let mut out = vec![];
    let mut err = String::new();
    c.stdout.take().unwrap().read_to_end(&mut out)?;
    let status = c.wait()?;
    let at = now();
    c.stderr.take().unwrap().read_to_string(&mut err)?;
    let log = out.chunks_exact(9).map(|r| (r[0], u64::from_le_bytes(r[1..].try_into().unwrap()))).collect();
    Ok(Seen { status, at, log, err })
}

fn plan(case: &mut Case) -> Plan {
    let r = &mut case.rng;
    let enabled = r.chance(3, 4);
    let (setting, budget) = if enabled {
        let b = [1, 1, 2, 2, 2, 3, 3600][r.us(7)];
        let s = match r.us(8) {
            0 => format!(" {b} "),
            1 => format!("{b}\n"),
            2 => format!("0{b}"),
            3 if b == 3600 => "2147483647".into(),
            _ => b.to_string(),
        };
        (Some(s), b)
    } else {
        let s = *r.pick(&[None, Some(""), Some("0"), Some("-1"), Some("-2147483648"), Some("abc"), Some("1s"), Some("1.5"), Some("0x2"), Some("99999999999"), Some("--2"), Some("2 3"), Some("１"), Some(" "), Some("00"), Some("1,"), Some("s1")]);
        (s.map(|s| s.to_string()), 0)
    };
    let mut steps = vec![];
    let mut total = 0;
    let mut dies = false;
    let ms = budget * 1000;
    if budget == 0 || budget == 3600 {
        // nothing may happen, however long it takes
        let t = 2500 + r.below(2000);
        steps.push(match r.us(3) {
            0 => Step::Sleep(t),
            1 => Step::Spin(t),
            _ => Step::Read(t),
        });
        if r.chance(1, 3) {
            steps.insert(0, Step::Polls(1 + r.below(3), 50));
        }
    } else {
        let progress = r.chance(2, 3);
        if progress {
            let long = 1500 + r.below(3000);
            while total < long {
                // short of the budget by a margin for a busy machine
                let quiet = ms * (1 + r.below(70)) / 100;
                let s = match r.us(5) {
                    0 => Step::Spin(quiet),
                    1 => Step::Sleep(quiet),
                    2 => Step::Read(quiet),
                    _ => {
                        let g = 5 + r.below(ms * 6 / 10);
                        let n = 1 + r.below(1 + 600 / g);
                        total += n * g - g;
                        steps.push(Step::Polls(n, g));
                        total += g;
                        continue;
                    }
                };
                steps.push(Step::Polls(1, 0));
                steps.push(s);
                total += quiet;
            }
            steps.push(Step::Polls(1, 0));
        }
        dies = !progress || r.chance(1, 2);
        if dies {
            let t = ms + 4000;
            steps.push(match r.us(4) {
                0 => Step::Sleep(t),
                1 => Step::Read(t),
                _ => Step::Spin(t),
            });
        }
    }
    Plan { setting, budget, threads: if r.chance(1, 4) { 1 + r.below(3) } else { 0 }, twice: r.chance(1, 3), early_poll: r.chance(1, 4), steps, dies }
}

fn judge(case: &mut Case, p: &Plan, s: &Seen, busy: bool) -> Verdict {
    let ctx = format!("setting {:?}, steps {:?}, {} threads: {:?}", p.setting, p.steps, p.threads, s.status);
    let has = |k: u8| s.log.iter().any(|r| r.0 == k);
    if !has(b'I') {
        if s.status.code() == Some(3) {
            return Ok(());
        }
        vbail!("the process ended while starting the watchdog; {ctx} {}", s.err);
    }
    let armed = has(b'A');
    if armed || has(b'D') {
        vcheck!(armed == (p.budget > 0), "armed is reported as {armed}; {ctx}");
    }
    // the last sign of progress, and the latest time it can have been recorded
    let t_init = s.log.iter().find(|r| r.0 == b'i').unwrap().1;
    let from = s.log.iter().rev().find(|r| r.0 == b'p').map_or(t_init, |r| r.1);
    let upto = s.log.iter().rev().find(|r| r.0 == b'P' || r.0 == b'I').map_or(from, |r| r.1);
    let last = s.log.last().unwrap().1;
    // was the machine too busy to say?
    let mut gap = 0;
    let mut prev = None;
    let mut quiet_from = None;
    for (k, t) in &s.log {
        if let Some(q) = prev {
            if quiet_from.is_none() {
                gap = gap.max(t - q);
            }
        }
        quiet_from = if *k == b'z' { Some(*t) } else { None };
        prev = Some(*t);
    }
    if s.status.code() == Some(134) || s.err.contains("hang watchdog fired") {
        vcheck!(p.budget > 0, "fired although disabled; {ctx}");
        vcheck!(s.status.code() == Some(134), "fired without the documented status; {ctx}");
        vcheck!(s.err.contains("hang watchdog fired"), "fired without a message; {ctx} {:?}", s.err);
        let waited = s.at - from;
        if waited < p.budget * SEC {
            vbail!("fired at most {} ms after the last report of progress with {} s allowed; {ctx}", waited / 1_000_000, p.budget);
        }
        if !p.dies {
            // only a process that was itself held up can be here
            case.count("inconclusive");
            return Ok(());
        }
        case.count("fired");
        case.max("max_fired_after_ms", waited / 1_000_000);
        return Ok(());
    }
    vcheck!(s.status.signal().is_none(), "ended by a signal; {ctx}");
    vcheck!(has(b'e') && s.status.code() == Some(7), "ended in the middle; {ctx} {:?}", s.err);
    if p.dies {
        let over = last.saturating_sub(upto);
        if busy || gap > SEC / 2 {
            case.count("inconclusive");
            return Ok(());
        }
        vbail!("still running {} ms after the last report of progress with {} s allowed; {ctx}", over / 1_000_000, p.budget);
    }
    case.count(if p.budget == 0 { "left_alone" } else if p.budget > 100 { "far_from_due" } else { "kept_alive" });
    case.count_n("polls", s.log.iter().filter(|r| r.0 == b'P').count() as u64);
    if p.budget == 0 {
        vcheck!(!s.err.contains("watchdog"), "a disabled watchdog spoke up; {ctx} {:?}", s.err);
    }
    Ok(())
}

fn late(p: &Plan, s: &Seen) -> Option<u64> {
    // a process that went on this long after the last report was not stopped in time
    let from = s.log.iter().rev().find(|r| r.0 == b'P' || r.0 == b'I')?.1;
    let over = s.at.saturating_sub(from);
    (p.dies && over > p.budget * SEC + SEC * 2).then_some(over)
}

fn main() {
    if let Ok(w) = std::env::var("C29_CHILD") {
        child(&w);
    }
    let _ = std::io::stdout().flush();
    vh::main_loop("c29", |case| {
        let plans: Vec<Plan> = (0..64).map(|_| plan(case)).collect();
        for p in &plans {
            case.sig_bytes(p.words().as_bytes());
        }
        let over = std::sync::atomic::AtomicBool::new(false);
        let (seen, held_up): (Vec<_>, u64) = std::thread::scope(|sc| {
            // how long this machine keeps a sleeping thread waiting
            let over = &over;
            let pace = sc.spawn(move || {
                let mut worst = 0;
                while !over.load(std::sync::atomic::Ordering::Relaxed) {
                    let t = now();
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    worst = worst.max(now() - t);
                }
                worst
            });
            let hs: Vec<_> = plans
                .iter()
                .map(|p| {
                    std::thread::sleep(std::time::Duration::from_millis(5));
                    sc.spawn(move || observe(p))
                })
                .collect();
            let seen = hs.into_iter().map(|h| h.join().unwrap()).collect();
            over.store(true, std::sync::atomic::Ordering::Relaxed);
            (seen, pace.join().unwrap())
        });
        let busy = held_up > SEC / 2;
        for (p, s) in plans.iter().zip(seen) {
            let s = s.unwrap_or_else(|e| {
                eprintln!("cannot observe a process: {e}");
                std::process::exit(3)
            });
            judge(case, p, &s, busy)?;
            if let Some(over) = late(p, &s) {
                if busy || s.log.windows(2).any(|w| w[0].0 != b'z' && w[1].1 - w[0].1 > SEC / 2) {
                    case.count("inconclusive");
                } else {
                    vbail!("still running {} ms after the last report of progress with {} s allowed; setting {:?}, steps {:?}", over / 1_000_000, p.budget, p.setting, p.steps);
                }
            }
            case.count("processes");
            case.count(match p.budget {
                0 => "disabled",
                1 => "one_second",
                3600 => "far",
                _ => "seconds",
            });
        }
        case.nontrivial();
        Ok(())
    });
}
