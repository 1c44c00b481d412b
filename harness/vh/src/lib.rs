//! Shared driver of the monitoring harness: seeded case loop, coverage counters,
//! verdicts, element ledger, allocation ledger and bounded-progress watchdog.
pub mod alloc;
pub mod ledger;
pub mod rng;

pub use rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

/// A refutation observed by an oracle.
#[derive(Debug, Clone)]
pub struct Violation(pub String);
pub type Verdict = Result<(), Violation>;

#[macro_export]
macro_rules! vbail {
    ($($t:tt)*) => { return Err($crate::Violation(format!($($t)*))) };
}
#[macro_export]
macro_rules! vcheck {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Violation(format!($($t)*))); } };
}
#[macro_export]
macro_rules! veq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Violation(format!("{}: observed {:?}, expected {:?}", format!($($t)*), a, b)));
        }
    }};
}

/// State of one case, handed to the case function.
pub struct Case {
    pub seed: u64,
    pub idx: u64,
    pub rng: Rng,
    pub thorough: bool,
    /// replaying: keep the operation log
    pub logging: bool,
    pub log: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
    sig: u64,
    nontrivial: bool,
    pub sample: Option<String>,
    pub slow: bool,
    pub dig: u64,
}

impl Case {
    /// Feed the digest of observed behaviour (compared between builds).
    pub fn digest(&mut self, v: u64) {
        self.dig = (self.dig.rotate_left(7) ^ v).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        if *e < n {
            *e = n;
        }
    }
    /// Feed the case's distinctness signature.
    pub fn sig(&mut self, v: u64) {
        self.sig = (self.sig.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    pub fn sig_bytes(&mut self, b: &[u8]) {
        for c in b {
            self.sig(*c as u64);
        }
        self.sig(b.len() as u64 ^ 0xabcd);
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Log an operation (only formatted when replaying) and report progress.
    #[inline]
    pub fn op(&mut self, f: impl FnOnce() -> String) {
        step();
        if self.logging {
            let s = f();
            if self.log.len() < 100_000 {
                self.log.push(s);
            }
        }
    }
    /// Like `op` but allowed without moving the progress clock.
    #[inline]
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.logging && self.log.len() < 100_000 {
            let s = f();
            self.log.push(s);
        }
    }
    pub fn under_miri(&self) -> bool {
        cfg!(miri)
    }
}

static STEPS: AtomicU64 = AtomicU64::new(0);
static CUR_CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static QUIET: AtomicBool = AtomicBool::new(false);

#[inline]
pub fn step() {
    STEPS.fetch_add(1, Ordering::Relaxed);
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static EXPECT: Cell<u32> = const { Cell::new(0) };
}

/// Run `f`, reporting a panic as `Err((location, message))`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    EXPECT.with(|e| e.set(e.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    EXPECT.with(|e| e.set(e.get() - 1));
    r.map_err(|p| {
        let rec = LAST_PANIC.with(|l| l.borrow_mut().take());
        drop(p);
        rec.unwrap_or(("?".into(), "?".into()))
    })
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<payload>".to_string()
        };
        if msg.contains("cannot unwind") {
            // A panic met a function it may not leave: the process is about to
            // abort, so say what the first panic was.
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or((loc, msg));
            eprintln!("panic at {loc}: {msg}");
            if is_harness_loc(&loc) {
                std::process::exit(3);
            }
            return;
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

/// Is this panic location inside the harness itself (not the code under test)?
pub fn is_harness_loc(loc: &str) -> bool {
    // Harness files are compiled with paths relative to their package or under
    // /verif; /repo files and std are absolute paths elsewhere.
    loc.starts_with("src/") || loc.contains("/verif/") || loc.contains("harness/") || loc == "?"
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args {
    pub seed: u64,
    pub secs: f64,
    pub min_cases: u64,
    pub max_cases: u64,
    pub shard: u64,
    pub shards: u64,
    pub case: Option<u64>,
    pub out: Option<String>,
    pub progress: Option<String>,
    pub thorough: bool,
    pub extra: BTreeMap<String, String>,
}

pub fn parse_args() -> Args {
    let mut a = Args {
        seed: 1,
        secs: 5.0,
        min_cases: 0,
        max_cases: u64::MAX,
        shard: 0,
        shards: 1,
        case: None,
        out: None,
        progress: None,
        thorough: false,
        extra: BTreeMap::new(),
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        if k == "--thorough" {
            a.thorough = true;
            continue;
        }
        let v = it.next().unwrap_or_else(|| {
            eprintln!("missing value for {k}");
            std::process::exit(3)
        });
        match k.as_str() {
            "--seed" => a.seed = v.parse().unwrap(),
            "--secs" => a.secs = v.parse().unwrap(),
            "--min-cases" => a.min_cases = v.parse().unwrap(),
            "--max-cases" => a.max_cases = v.parse().unwrap(),
            "--shard" => a.shard = v.parse().unwrap(),
            "--shards" => a.shards = v.parse().unwrap(),
            "--case" => a.case = Some(v.parse().unwrap()),
            "--out" => a.out = Some(v),
            "--progress" => a.progress = Some(v),
            _ => {
                a.extra.insert(k.trim_start_matches('-').to_string(), v);
            }
        }
    }
    a
}

struct Progress(Option<std::fs::File>);
impl Progress {
    fn set(&self, idx: u64) {
        CUR_CASE.store(idx, Ordering::Relaxed);
        #[cfg(not(miri))]
        if let Some(f) = &self.0 {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{idx:020}").as_bytes(), 0);
        }
    }
}

pub struct Outcome {
    pub evaluations: u64,
    pub distinct: u64,
    pub violation: Option<(u64, String, Vec<String>)>,
    pub harness_error: Option<String>,
}

/// Cases covered by one entry of the digest list.
const DIGEST_EVERY: u64 = 16;

/// Drive cases until the time/case budget is used or an oracle refutes.
/// Exit codes: 0 held, 1 violated, 3 harness error, 4 stuck operation.
pub fn main_loop(name: &'static str, mut f: impl FnMut(&mut Case) -> Verdict) {
    let args = parse_args();
    install_hook();
    let t0 = Instant::now();
    #[cfg(not(miri))]
    spawn_watchdog(name, &args, t0);
    let progress = Progress(args.progress.as_ref().and_then(|p| {
        std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(p).ok()
    }));
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let (mut rolling, mut digests) = (0u64, vec![]);
    let mut evals = 0u64;
    let mut violation: Option<(u64, String, Vec<String>)> = None;
    let mut herr: Option<String> = None;
    let mut idx = args.shard;
    if let Some(c) = args.case {
        idx = c;
    }
    loop {
        let done_by_time = t0.elapsed().as_secs_f64() >= args.secs && evals >= args.min_cases;
        if (done_by_time || evals >= args.max_cases) && !(args.case.is_some() && evals == 0) {
            break;
        }
        progress.set(idx);
        step();
        let (r, mut case) = run_one(name, &args, idx, args.case.is_some(), &mut f);
        evals += 1;
        if case.dig != 0 {
            rolling = rolling.rotate_left(9) ^ case.dig;
            if evals % DIGEST_EVERY == 0 && digests.len() < 4096 {
                digests.push(rolling);
            }
        }
        for (k, v) in std::mem::take(&mut case.counters) {
            let e = counters.entry(k).or_insert(0);
            if k.starts_with("max_") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        if case.nontrivial && distinct.len() < 5_000_000 {
            distinct.insert(case.sig);
        }
        if samples.len() < 3 {
            if let Some(s) = case.sample.take() {
                samples.push(s);
            }
        }
        match r {
            Ok(()) => {}
            Err(CaseEnd::Harness(m)) => {
                herr = Some(format!("case {idx}: {m}"));
                break;
            }
            Err(CaseEnd::Violation(m)) => {
                // Re-execute the very same case with its operation log.
                let log = if args.case.is_some() {
                    case.log
                } else {
                    let (r2, c2) = run_one(name, &args, idx, true, &mut f);
                    match r2 {
                        Err(CaseEnd::Violation(m2)) if m2 != m => {
                            let mut l = c2.log;
                            l.push(format!("(replay refutes with: {m2})"));
                            l
                        }
                        Ok(()) => {
                            let mut l = c2.log;
                            l.push("(replay did not refute: schedule/state dependent)".into());
                            l
                        }
                        _ => c2.log,
                    }
                };
                violation = Some((idx, m, log));
                break;
            }
        }
        if args.case.is_some() {
            break;
        }
        idx += args.shards;
    }
    QUIET.store(true, Ordering::SeqCst);
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"name\":{},\"seed\":{},\"shard\":{},\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.3},",
        json_str(name), args.seed, args.shard, evals, distinct.len(), t0.elapsed().as_secs_f64()
    );
    o.push_str("\"counters\":{");
    for (i, (k, v)) in counters.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
    }
    o.push_str("},\"samples\":[");
    for (i, s) in samples.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, json_str(s));
    }
    o.push(']');
    if !digests.is_empty() {
        let _ = write!(o, ",\"digests\":{:?}", digests.iter().map(|d| format!("{d:x}")).collect::<Vec<_>>());
    }
    if args.case.is_some() && rolling != 0 {
        let _ = write!(o, ",\"digest\":\"{rolling:x}\"");
    }
    if let Some((i, m, log)) = &violation {
        let _ = write!(o, ",\"violation\":{{\"case\":{},\"message\":{},\"log\":[", i, json_str(m));
        let skip = log.len().saturating_sub(400);
        for (j, l) in log.iter().skip(skip).enumerate() {
            let _ = write!(o, "{}{}", if j > 0 { "," } else { "" }, json_str(l));
        }
        o.push_str("]}");
    }
    if let Some(m) = &herr {
        let _ = write!(o, ",\"harness_error\":{}", json_str(m));
    }
    o.push('}');
    emit(&args, &o);
    if let Some((i, m, _)) = &violation {
        eprintln!("[{name}] case {i}: VIOLATED: {m}");
        std::process::exit(1);
    }
    if let Some(m) = herr {
        eprintln!("[{name}] harness error: {m}");
        std::process::exit(3);
    }
}

fn emit(args: &Args, o: &str) {
    match &args.out {
        Some(p) if !cfg!(miri) => {
            let _ = std::fs::write(p, o);
        }
        _ => println!("RESULT {o}"),
    }
}

enum CaseEnd {
    Violation(String),
    Harness(String),
}

fn run_one(
    name: &str,
    args: &Args,
    idx: u64,
    logging: bool,
    f: &mut impl FnMut(&mut Case) -> Verdict,
) -> (Result<(), CaseEnd>, Case) {
    let mut tag = 0u64;
    for b in name.bytes() {
        tag = tag.wrapping_mul(131).wrapping_add(b as u64);
    }
    let mut case = Case {
        seed: args.seed,
        idx,
        rng: Rng::new(args.seed ^ tag.rotate_left(17), idx),
        thorough: args.thorough,
        logging,
        log: vec![],
        counters: BTreeMap::new(),
        sig: 0,
        nontrivial: false,
        sample: None,
        slow: cfg!(miri),
        dig: 0,
    };
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
    let r = match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(v)) => Err(CaseEnd::Violation(v.0)),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|l| l.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            let m = format!("unexpected panic at {loc}: {msg}");
            if is_harness_loc(&loc) {
                Err(CaseEnd::Harness(m))
            } else {
                Err(CaseEnd::Violation(m))
            }
        }
    };
    (r, case)
}

/// CPU seconds a single operation may burn before it counts as stuck.
const STUCK_CPU_S: f64 = 20.0;

#[cfg(not(miri))]
fn spawn_watchdog(name: &'static str, args: &Args, _t0: Instant) {
    let mut clk: libc::clockid_t = 0;
    unsafe {
        if libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk) != 0 {
            return;
        }
    }
    let out = args.out.clone();
    let (seed, shard) = (args.seed, args.shard);
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(move || {
            let cpu = || unsafe {
                let mut ts: libc::timespec = std::mem::zeroed();
                libc::clock_gettime(clk, &mut ts);
                ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
            };
            let (mut last, mut since) = (STEPS.load(Ordering::Relaxed), cpu());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(250));
                if QUIET.load(Ordering::SeqCst) {
                    return;
                }
                let s = STEPS.load(Ordering::Relaxed);
                let c = cpu();
                if s != last {
                    last = s;
                    since = c;
                } else if c - since > STUCK_CPU_S {
                    let case = CUR_CASE.load(Ordering::Relaxed);
                    let o = format!(
                        "{{\"name\":{},\"seed\":{},\"shard\":{},\"stuck\":{{\"case\":{},\"step\":{},\"cpu_s\":{:.1}}}}}",
                        json_str(name), seed, shard, case, s, c - since
                    );
                    if let Some(p) = &out {
                        let _ = std::fs::write(p, &o);
                    } else {
                        println!("RESULT {o}");
                    }
                    unsafe { libc::_exit(4) };
                }
            }
        })
        .unwrap();
}
