//! C20: buffered I/O over real descriptors and over scripted ones.
#![allow(dead_code, unused_imports, clippy::all)]
use vh::{vbail, vcheck, veq, Case, Verdict};

pub mod codegen {
    pub mod signal_table {
        use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
        /// The interpreter's pending-signal word, with a script: the n-th look finds a signal.
        pub struct Pending {
            pub set: AtomicBool,
            pub countdown: AtomicI64,
            pub looks: AtomicU64,
        }
        impl Pending {
            pub fn load(&self, _: Ordering) -> u32 {
                self.looks.fetch_add(1, Ordering::Relaxed);
                if self.countdown.load(Ordering::Relaxed) > 0 && self.countdown.fetch_sub(1, Ordering::Relaxed) == 1 {
                    self.set.store(true, Ordering::Relaxed);
                }
                self.set.load(Ordering::Relaxed) as u32
            }
            pub fn swap(&self, v: u32, _: Ordering) -> u32 {
                self.set.swap(v != 0, Ordering::Relaxed) as u32
            }
            pub fn fetch_or(&self, v: u32, _: Ordering) -> u32 {
                self.set.fetch_or(v != 0, Ordering::Relaxed) as u32
            }
            pub fn store(&self, v: u32, _: Ordering) {
                self.set.store(v != 0, Ordering::Relaxed)
            }
        }
        pub static PENDING_SIGNALS: Pending = Pending { set: AtomicBool::new(false), countdown: AtomicI64::new(0), looks: AtomicU64::new(0) };
    }
}
pub mod alloc {
    pub struct Allocator<T>(pub std::marker::PhantomData<T>, pub Vec<super::Value>);
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Value(pub u64);
impl Value {
    pub fn mark(&self, a: &mut alloc::Allocator<RValue>) {
        a.1.push(*self);
    }
}
pub struct RValue;
#[derive(Default)]
pub struct Store;
#[derive(Default)]
pub struct Globals {
    pub store: Store,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum EKind {
    Signal,
    WouldBlock,
    Io,
    Runtime,
    Argument,
    Errno(Option<i32>),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MonorubyErr(pub EKind, pub String);
impl MonorubyErr {
    pub fn signal_interrupt() -> Self {
        MonorubyErr(EKind::Signal, String::new())
    }
    pub fn would_block_interrupt() -> Self {
        MonorubyErr(EKind::WouldBlock, String::new())
    }
    pub fn is_signal_interrupt(&self) -> bool {
        self.0 == EKind::Signal
    }
    pub fn is_would_block_interrupt(&self) -> bool {
        self.0 == EKind::WouldBlock
    }
    pub fn errno_plain(_: &Store, e: &std::io::Error) -> Self {
        MonorubyErr(EKind::Errno(e.raw_os_error()), e.to_string())
    }
    pub fn from_io_err(_: &Store, e: &std::io::Error, _: String) -> Self {
        MonorubyErr(EKind::Errno(e.raw_os_error()), e.to_string())
    }
    pub fn errno_with_msg(_: &Store, e: &std::io::Error, _: impl ToString) -> Self {
        MonorubyErr(EKind::Errno(e.raw_os_error()), e.to_string())
    }
    pub fn ioerr(m: impl ToString) -> Self {
        MonorubyErr(EKind::Io, m.to_string())
    }
    pub fn runtimeerr(m: impl ToString) -> Self {
        MonorubyErr(EKind::Runtime, m.to_string())
    }
    pub fn argumenterr(m: impl ToString) -> Self {
        MonorubyErr(EKind::Argument, m.to_string())
    }
}
pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub mod value {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Encoding {
        Utf8,
        Ascii8,
    }
    pub use super::rvalue;
}
pub mod scheduler {}

#[path = "/repo/monoruby/src/value/rvalue"]
pub mod rvalue {
    pub use super::value::Encoding;
    pub use super::{alloc, Globals, MonorubyErr, RValue, Result, Store, Value};
    pub mod io;
    pub fn stdin() -> io::IoInner {
        io::IoInner::stdin()
    }
    pub fn file(f: std::fs::File, r: bool, w: bool) -> io::IoInner {
        io::IoInner::file(f, "scratch".into(), None, r, w)
    }
    pub fn socket(f: std::fs::File) -> io::IoInner {
        io::IoInner::socket(f, "socket".into())
    }
}
#[path = "/repo/monoruby/src/value/rvalue/io/buf.rs"]
mod rawbuf;

use codegen::signal_table::PENDING_SIGNALS;
use rvalue::io::{IoInner, NonblockGuard, NonblockRead, NonblockWrite};
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::atomic::Ordering::Relaxed;
use vh::Rng;

fn pending() -> bool {
    PENDING_SIGNALS.set.load(Relaxed)
}
fn clear_signal() {
    PENDING_SIGNALS.set.store(false, Relaxed);
    PENDING_SIGNALS.countdown.store(0, Relaxed);
}
/// Arrange for a signal to be found at one of the next looks.
fn maybe_signal(rng: &mut Rng) {
    if rng.chance(1, 4) {
        let n = if rng.chance(1, 2) { 1 + rng.below(4) } else { 1 + rng.below(40) };
        PENDING_SIGNALS.countdown.store(n as i64, Relaxed);
    }
}

const ALPHABET: &[&str] = &["a", "b", "c", "\n", "\n", "\n\n", "\n\n\n", "é", "日", "𝄞", "--", "-", "xyz", "\r\n", "\0"];

fn text(rng: &mut Rng, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len + 4);
    let lines = rng.chance(2, 3);
    while v.len() < len {
        let s = if lines { *rng.pick(ALPHABET) } else { *rng.pick(&ALPHABET[6..]) };
        v.extend_from_slice(s.as_bytes());
        if !lines && rng.chance(1, 20) {
            let n = rng.us(300);
            v.extend(std::iter::repeat_n(b'q', n));
        }
    }
    v
}
fn size(rng: &mut Rng) -> usize {
    match rng.us(12) {
        0..=4 => 1 + rng.us(8),
        5..=7 => 1 + rng.us(200),
        8 => 8190 + rng.us(5),
        9 => 1 + rng.us(9000),
        10 => 8192 * (1 + rng.us(2)) - 2 + rng.us(5),
        _ => 1 + rng.us(3),
    }
}
fn show(b: &[u8]) -> String {
    if b.len() <= 60 {
        format!("{:?}", String::from_utf8_lossy(b))
    } else {
        format!("{} bytes {:?}..{:?}", b.len(), String::from_utf8_lossy(&b[..24]), String::from_utf8_lossy(&b[b.len() - 24..]))
    }
}
fn same(got: &[u8], want: &[u8]) -> bool {
    got == want
}

// ------------------------------------------------------------------ model of a byte source

/// Everything a reader may still be given: bytes pushed back, then the stream.
struct Src {
    ungot: Vec<u8>,
    data: Vec<u8>,
    pos: usize,
    eof: bool,
    clean: bool, // the stream ahead is well-formed text
}
enum Exp {
    More,
    /// (bytes returned or end of file, bytes consumed)
    Done(Option<Vec<u8>>, usize),
}
impl Src {
    fn ahead(&self) -> Vec<u8> {
        let mut v = self.ungot.clone();
        if self.pos < self.data.len() {
            v.extend_from_slice(&self.data[self.pos..]);
        }
        v
    }
    fn left(&self) -> usize {
        self.ungot.len() + self.data.len().saturating_sub(self.pos)
    }
    fn take(&mut self, n: usize) {
        let u = n.min(self.ungot.len());
        self.ungot.drain(..u);
        self.pos += n - u;
    }
    fn read(&self, n: Option<usize>) -> Exp {
        let a = self.ahead();
        match n {
            Some(n) if a.len() >= n => Exp::Done(Some(a[..n].to_vec()), n),
            _ if self.eof => Exp::Done(Some(a.clone()), a.len()),
            _ => Exp::More,
        }
    }
    /// Length of `a`'s first `cut` bytes extended to the end of the character the cut splits.
    fn finish_char(&self, a: &[u8], from: usize, cut: usize) -> Option<usize> {
        let mut lead = cut;
        while lead > from && a[lead - 1] & 0xc0 == 0x80 {
            lead -= 1;
        }
        if lead == from {
            return Some(cut); // begins inside a character: nothing to finish
        }
        let need = match a[lead - 1] {
            0xc0..=0xdf => 2,
            0xe0..=0xef => 3,
            0xf0..=0xf7 => 4,
            _ => 1,
        };
        let end = (lead - 1 + need).max(cut);
        if end <= a.len() {
            Some(end)
        } else if self.eof {
            Some(a.len())
        } else {
            None
        }
    }
    fn getline(&self, sep: Option<&[u8]>, limit: Option<usize>, utf8: bool) -> Exp {
        if limit == Some(0) {
            return Exp::Done(Some(vec![]), 0);
        }
        let a = self.ahead();
        let fin = |from: usize, cut: usize| if utf8 { self.finish_char(&a, from, cut) } else { Some(cut) };
        let cap = limit.unwrap_or(usize::MAX);
        match sep {
            None => {
                if a.len() >= cap {
                    return match fin(0, cap) {
                        Some(e) => Exp::Done(Some(a[..e].to_vec()), e),
                        None => Exp::More,
                    };
                }
                if !self.eof {
                    return Exp::More;
                }
                Exp::Done(if a.is_empty() { None } else { Some(a.clone()) }, a.len())
            }
            Some([]) => {
                let skip = a.iter().take_while(|b| **b == b'\n').count();
                if skip == a.len() {
                    return if self.eof { Exp::Done(None, skip) } else { Exp::More };
                }
                let mut end = skip + 1;
                loop {
                    if end - skip >= 2 && a[end - 2..end] == *b"\n\n" {
                        let mut more = end;
                        while more < a.len() && a[more] == b'\n' {
                            more += 1;
                        }
                        if more == a.len() && !self.eof {
                            return Exp::More;
                        }
                        return Exp::Done(Some(a[skip..end].to_vec()), more);
                    }
                    if end - skip >= cap {
                        return match fin(skip, end) {
                            Some(e) => Exp::Done(Some(a[skip..e].to_vec()), e),
                            None => Exp::More,
                        };
                    }
                    if end == a.len() {
                        return if self.eof { Exp::Done(Some(a[skip..].to_vec()), end) } else { Exp::More };
                    }
                    end += 1;
                }
            }
            Some(s) => {
                let hit = (s.len()..=a.len()).find(|e| &a[e - s.len()..*e] == s);
                match hit {
                    Some(e) if e <= cap => Exp::Done(Some(a[..e].to_vec()), e),
                    _ if a.len() >= cap => match fin(0, cap) {
                        Some(e) => Exp::Done(Some(a[..e].to_vec()), e),
                        None => Exp::More,
                    },
                    _ if self.eof => Exp::Done(if a.is_empty() { None } else { Some(a.clone()) }, a.len()),
                    _ => Exp::More,
                }
            }
        }
    }
}

#[derive(Debug, Clone)]
enum ROp {
    Read(Option<usize>),
    ReadBuffered(Option<usize>),
    Partial(usize),
    Nonblock(usize),
    Sys(usize),
    Line(Option<Vec<u8>>, Option<usize>, bool),
    Gets,
}
fn rop(rng: &mut Rng, src: &Src) -> ROp {
    match rng.us(16) {
        0..=2 => ROp::Read(Some(if rng.chance(1, 20) { 0 } else { size(rng) })),
        3 => ROp::Read(None),
        4 | 5 => ROp::ReadBuffered(Some(if rng.chance(1, 2) { 1 } else { size(rng) })),
        6 | 7 => ROp::Partial(size(rng)),
        8 => ROp::Nonblock(size(rng)),
        9 => ROp::Sys(size(rng)),
        10 | 11 => ROp::Gets,
        _ => {
            let sep = match rng.us(8) {
                0 => None,
                1 | 2 => Some(vec![]),
                3 => Some(b"--".to_vec()),
                4 => Some(b"xyz".to_vec()),
                5 => Some("日".as_bytes().to_vec()),
                _ => Some(b"\n".to_vec()),
            };
            let limit = match rng.us(5) {
                0 | 1 => None,
                2 => Some(rng.us(6)),
                3 => Some(1 + rng.us(60)),
                _ => Some(size(rng)),
            };
            ROp::Line(sep, limit, src.clean && rng.chance(1, 2))
        }
    }
}
enum Out {
    Ok,
    Blocked,
    Interrupted,
}

/// One attempt of one read operation, judged against the model.
fn attempt(case: &mut Case, io: &mut IoInner, src: &mut Src, op: &ROp) -> std::result::Result<Out, vh::Violation> {
    let was_pending = pending();
    let r: std::result::Result<Result<Option<Vec<u8>>>, (String, String)> = vh::catch(|| match op {
        ROp::Read(n) => io.read(*n).map(Some),
        ROp::ReadBuffered(n) => io.read_buffered(*n).map(Some),
        ROp::Partial(n) => io.readpartial(*n).map(Some),
        ROp::Sys(n) => io.sysread(*n).map(Some),
        ROp::Nonblock(n) => match io.read_nonblock(*n, &Store)? {
            NonblockRead::Data(d) => Ok(Some(d)),
            NonblockRead::Eof => Ok(None),
            NonblockRead::WouldBlock => Err(MonorubyErr::would_block_interrupt()),
        },
        ROp::Line(sep, limit, utf8) => io.getline(sep.as_deref(), *limit, *utf8),
        ROp::Gets => io.read_line_bytes(),
    });
    vh::step();
    let r = match r {
        Ok(r) => r,
        Err((loc, m)) => vbail!("{op:?} panicked at {loc}: {m}"),
    };
    let exp = match op {
        ROp::Read(n) | ROp::ReadBuffered(n) => Some(src.read(*n)),
        ROp::Line(sep, limit, utf8) => Some(src.getline(sep.as_deref(), *limit, *utf8)),
        ROp::Gets => Some(src.getline(Some(b"\n"), None, false)),
        _ => None,
    };
    match r {
        Err(e) if e.is_signal_interrupt() => {
            vcheck!(pending(), "{op:?} reported a signal although none is pending");
            case.count("reads_interrupted");
            let _ = was_pending;
            Ok(Out::Interrupted)
        }
        Err(e) if e.is_would_block_interrupt() => {
            case.count("reads_blocked");
            match exp {
                Some(Exp::Done(w, _)) => {
                    vbail!("{op:?} wants to wait although {} were there to return", w.map_or("nothing".into(), |w| show(&w)))
                }
                None if src.left() > 0 => vbail!("{op:?} would block although {} undelivered bytes are there: {}", src.left(), show(&src.ahead())),
                None if src.eof => vbail!("{op:?} would block at the end of the stream"),
                _ => {}
            }
            if src.left() > 0 {
                case.count("reads_blocked_midway");
            }
            Ok(Out::Blocked)
        }
        Err(e) => vbail!("{op:?} failed with {e:?} on a healthy stream"),
        Ok(got) => {
            match exp {
                Some(Exp::More) => vbail!(
                    "{op:?} returned {} before the stream held enough (it held {})",
                    got.map_or("end of file".into(), |g| show(&g)),
                    show(&src.ahead())
                ),
                Some(Exp::Done(want, used)) => {
                    match (&got, &want) {
                        (Some(g), Some(w)) if same(g, w) => case.count_n("bytes_read", g.len() as u64),
                        (None, None) => case.count("ends_of_file"),
                        _ => vbail!(
                            "{op:?} returned {}, the stream had {}",
                            got.as_ref().map_or("end of file".into(), |g| show(g)),
                            want.as_ref().map_or("end of file".into(), |g| show(g))
                        ),
                    }
                    src.take(used);
                }
                None => {
                    let n = match op {
                        ROp::Partial(n) | ROp::Nonblock(n) | ROp::Sys(n) => *n,
                        _ => unreachable!(),
                    };
                    let g = got.unwrap_or_default();
                    vcheck!(g.len() <= n, "{op:?} returned {} bytes", g.len());
                    let a = src.ahead();
                    if g.is_empty() {
                        vcheck!(a.is_empty() && src.eof, "{op:?} reported the end with {} bytes undelivered: {}", a.len(), show(&a));
                    } else {
                        vcheck!(a.starts_with(&g), "{op:?} returned {}, next in the stream was {}", show(&g), show(&a));
                    }
                    case.count_n("bytes_read", g.len() as u64);
                    src.take(g.len());
                }
            }
            Ok(Out::Ok)
        }
    }
}

fn pipe() -> (std::fs::File, std::fs::File) {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "pipe");
    unsafe { (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) }
}
fn fd_open(fd: i32) -> bool {
    unsafe { libc::fcntl(fd, libc::F_GETFD) != -1 }
}
fn avail(fd: i32) -> usize {
    let mut n: libc::c_int = 0;
    unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) };
    n as usize
}
fn nonblocking(fd: i32, on: bool) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, if on { f | libc::O_NONBLOCK } else { f & !libc::O_NONBLOCK });
    }
}
fn flags(fd: i32) -> i32 {
    unsafe { libc::fcntl(fd, libc::F_GETFL) }
}

/// Reading from a pipe that the harness fills as it pleases.
fn pipe_reads(case: &mut Case, via_stdin: bool) -> Verdict {
    use std::io::Write;
    let (rd, mut wr) = pipe();
    let n = match case.rng.us(4) {
        0 => 200,
        1 => 3000,
        2 => 12000,
        _ => 30000,
    };
    let stream = text(&mut case.rng, n);
    let mut fed = 0;
    let rfd;
    let mut io = if via_stdin {
        // standard input becomes this pipe; the buffer in front of it is shared by the whole process
        unsafe { libc::dup2(rd.as_raw_fd(), 0) };
        drop(rd);
        rfd = 0;
        let mut io = rvalue::stdin();
        while io.has_buffered_data() {
            let _ = io.readpartial(1 << 20); // left by a case that ended early
        }
        io
    } else {
        use std::os::fd::IntoRawFd;
        rfd = rd.into_raw_fd();
        IoInner::from_raw_fd_autoclose(rfd, "fd".into(), false, true, false, true)
    };
    nonblocking(rfd, true);
    let mut src = Src { ungot: vec![], data: vec![], pos: 0, eof: false, clean: true };
    let mut delivered_tail: Vec<u8> = vec![];
    let ops = 3 + case.rng.us(60);
    let mut wr = Some(wr);
    let feed = |case: &mut Case, src: &mut Src, wr: &mut Option<std::fs::File>, fed: &mut usize| {
        if let Some(w) = wr.as_mut() {
            if *fed < stream.len() {
                let room = 60000usize.saturating_sub(avail(rfd));
                let k = size(&mut case.rng).min(stream.len() - *fed).min(room);
                w.write_all(&stream[*fed..*fed + k]).unwrap();
                src.data.extend_from_slice(&stream[*fed..*fed + k]);
                *fed += k;
                case.note(|| format!("the peer sends {k} bytes ({fed} so far)"));
            } else {
                *wr = None;
                src.eof = true;
                case.note(|| "the peer closes".into());
            }
        }
    };
    for _ in 0..ops {
        if case.rng.chance(1, 2) {
            feed(case, &mut src, &mut wr, &mut fed);
        }
        if case.rng.chance(1, 12) {
            // push back: mostly what was just read, sometimes something else
            let b = if !delivered_tail.is_empty() && case.rng.chance(3, 4) {
                let k = 1 + case.rng.us(delivered_tail.len().min(5));
                delivered_tail[delivered_tail.len() - k..].to_vec()
            } else {
                src.clean = false;
                b"zz\nw"[..1 + case.rng.us(4)].to_vec()
            };
            case.op(|| format!("unget {}", show(&b)));
            match vh::catch(|| io.unget(&b)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => vbail!("unget on a readable stream failed: {e:?}"),
                Err((l, m)) => vbail!("unget panicked at {l}: {m}"),
            }
            src.ungot.splice(0..0, b.iter().copied());
            delivered_tail.clear();
            src.clean = false;
            case.count("ungets");
        }
        let op = rop(&mut case.rng, &src);
        if matches!(op, ROp::Sys(_)) && io.has_buffered_data() {
            continue; // CRuby refuses to mix these; nothing is promised
        }
        if via_stdin && matches!(op, ROp::Sys(_) | ROp::Nonblock(_)) {
            continue;
        }
        case.op(|| format!("{op:?}"));
        let paragraph = matches!(&op, ROp::Line(Some(s), ..) if s.is_empty());
        let before = src.ahead();
        let mut tries = 0;
        loop {
            tries += 1;
            maybe_signal(&mut case.rng);
            let fl = flags(rfd);
            let out = attempt(case, &mut io, &mut src, &op)?;
            veq!(flags(rfd), fl, "descriptor flags after a read");
            match out {
                Out::Ok => {
                    let used = before.len() + 0 - src.left().min(before.len());
                    let _ = used;
                    break;
                }
                Out::Interrupted => {
                    case.note(|| "interrupted by a signal".into());
                    clear_signal();
                    if !paragraph && case.rng.chance(1, 6) {
                        case.count("reads_abandoned");
                        break;
                    }
                }
                Out::Blocked => {
                    case.note(|| "would block".into());
                    clear_signal();
                    if !paragraph && case.rng.chance(1, 4) {
                        case.count("reads_abandoned");
                        break;
                    }
                    feed(case, &mut src, &mut wr, &mut fed);
                }
            }
            if tries > 5000 {
                vbail!("{op:?} still not finished after 5000 attempts");
            }
        }
        clear_signal();
        if io.has_buffered_data() {
            vcheck!(src.left() > 0, "bytes reported as buffered although everything was delivered");
        }
        // remember what was delivered last, when it came straight from the stream
        let now = src.left();
        delivered_tail = if before.len() > now && before.ends_with(&src.ahead()) { before[..before.len() - now].to_vec() } else { vec![] };
        case.sig(before.len() as u64 * 31 + now as u64);
    }
    // the rest, to the last byte
    while wr.is_some() {
        feed(case, &mut src, &mut wr, &mut fed);
        if avail(rfd) > 40000 {
            match attempt(case, &mut io, &mut src, &ROp::Partial(50000))? {
                Out::Ok | Out::Blocked => {}
                Out::Interrupted => vbail!("interrupted without a signal"),
            }
        }
    }
    case.op(|| "Read(None) to the end".into());
    match attempt(case, &mut io, &mut src, &ROp::Read(None))? {
        Out::Ok => {}
        _ => vbail!("the final read did not finish although the peer has closed"),
    }
    veq!(src.left(), 0, "bytes never delivered");
    case.count(if via_stdin { "stdin_streams" } else { "pipe_streams" });
    if via_stdin {
        return Ok(());
    }
    let how = case.rng.us(2);
    if how == 0 {
        match io.close(&Store) {
            Ok(None) => {}
            x => vbail!("close gave {x:?}"),
        }
        vcheck!(!fd_open(rfd), "descriptor still open after close");
        for e in [io.read(Some(1)).err(), io.read_line_bytes().err(), io.readpartial(1).err(), io.unget(b"x").err()] {
            vcheck!(e.is_some(), "an operation succeeded on a closed stream");
        }
    }
    drop(io);
    vcheck!(!fd_open(rfd), "descriptor still open after the stream is gone");
    vcheck!(!rvalue::io::fd_is_owned(rfd), "closed descriptor still registered as owned");
    Ok(())
}

/// Writing to a pipe the harness empties as it pleases.
fn pipe_writes(case: &mut Case) -> Verdict {
    use std::io::Read;
    use std::os::fd::IntoRawFd;
    let sock = case.rng.chance(1, 4);
    let (mut rd, wr) = if sock {
        let (a, b) = std::os::unix::net::UnixStream::pair().unwrap();
        unsafe { (std::fs::File::from_raw_fd(a.into_raw_fd()), std::fs::File::from_raw_fd(b.into_raw_fd())) }
    } else {
        pipe()
    };
    if !sock && case.rng.chance(1, 2) {
        unsafe { libc::fcntl(wr.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) };
    }
    let wfd = wr.as_raw_fd();
    let mut io = if sock {
        rvalue::socket(wr)
    } else if case.rng.chance(1, 2) {
        rvalue::file(wr, false, true)
    } else {
        let fd = wr.into_raw_fd();
        IoInner::from_raw_fd_autoclose(fd, "fd".into(), false, false, true, true)
    };
    nonblocking(rd.as_raw_fd(), true);
    let always_nb = case.rng.chance(1, 2);
    if always_nb {
        nonblocking(wfd, true);
    }
    let mut accepted: Vec<u8> = vec![];
    let mut arrived: Vec<u8> = vec![];
    let mut soak = |case: &mut Case, rd: &mut std::fs::File, arrived: &mut Vec<u8>, all: bool| {
        let mut b = vec![0u8; if all { 1 << 17 } else { size(&mut case.rng) }];
        loop {
            match rd.read(&mut b) {
                Ok(0) => break,
                Ok(n) => arrived.extend_from_slice(&b[..n]),
                Err(_) => break,
            }
            if !all {
                break;
            }
        }
    };
    let mut sync = sock;
    veq!(io.sync(), sync, "initial sync");
    let ops = 2 + case.rng.us(40);
    for _ in 0..ops {
        if case.rng.chance(1, 3) {
            soak(case, &mut rd, &mut arrived, false);
        }
        match case.rng.us(12) {
            0 | 1 => {
                // flush, resumed until it is through
                case.op(|| "flush".into());
                let mut through = false;
                for _ in 0..5000 {
                    maybe_signal(&mut case.rng);
                    let guard = NonblockGuard::set(wfd);
                    let r = io.flush(&Store);
                    drop(guard);
                    vh::step();
                    match r {
                        Ok(()) => through = true,
                        Err(e) if e.is_signal_interrupt() => {
                            vcheck!(pending(), "flush reported a signal although none is pending");
                            case.count("writes_interrupted");
                        }
                        Err(e) if e.is_would_block_interrupt() => {
                            case.count("writes_blocked");
                            soak(case, &mut rd, &mut arrived, false);
                        }
                        Err(e) => vbail!("flush failed with {e:?}"),
                    }
                    clear_signal();
                    if through || case.rng.chance(1, 8) {
                        break;
                    }
                }
                if through {
                    soak(case, &mut rd, &mut arrived, true);
                    veq!(arrived.len(), accepted.len(), "bytes handed over by the end of a flush");
                    case.count("flushes");
                }
            }
            2 => {
                sync = case.rng.chance(1, 2);
                case.op(|| format!("sync = {sync}"));
                io.set_sync(sync);
                veq!(io.sync(), sync, "sync after setting it");
            }
            3 => {
                let n = size(&mut case.rng);
                let data = text(&mut case.rng, n);
                case.op(|| format!("write_nonblock of {} bytes", data.len()));
                let nb = flags(wfd);
                match io.write_nonblock(&data, &Store) {
                    Ok(NonblockWrite::Written(k)) => {
                        vcheck!(k <= data.len(), "{k} bytes written of {}", data.len());
                        accepted.extend_from_slice(&data[..k]);
                        soak(case, &mut rd, &mut arrived, true);
                        veq!(arrived.len(), accepted.len(), "bytes handed over by a direct write");
                        case.count("direct_writes");
                    }
                    Ok(NonblockWrite::WouldBlock) => case.count("writes_blocked"),
                    Err(e) => vbail!("write_nonblock failed with {e:?}"),
                }
                if !always_nb && nb & libc::O_NONBLOCK == 0 {
                    nonblocking(wfd, false);
                }
            }
            _ => {
                let n = size(&mut case.rng);
                let data = text(&mut case.rng, n);
                case.op(|| format!("write of {} bytes", data.len()));
                let mut progress = 0;
                for _ in 0..5000 {
                    maybe_signal(&mut case.rng);
                    let guard = NonblockGuard::set(wfd);
                    let p0 = progress;
                    let r = vh::catch(|| io.write(&data, &mut progress, &Store));
                    drop(guard);
                    vh::step();
                    veq!(flags(wfd) & libc::O_NONBLOCK != 0, always_nb, "descriptor mode after a write");
                    vcheck!(progress >= p0 && progress <= data.len(), "progress went from {p0} to {progress} of {}", data.len());
                    let r = match r {
                        Ok(r) => r,
                        Err((l, m)) => vbail!("write panicked at {l}: {m}"),
                    };
                    match r {
                        Ok(()) => {
                            veq!(progress, data.len(), "bytes accepted by a completed write");
                            if sync {
                                soak(case, &mut rd, &mut arrived, true);
                                veq!(arrived.len(), accepted.len() + progress, "bytes handed over by a synchronous write");
                                case.count("synchronous_writes");
                            }
                            case.count("writes");
                            clear_signal();
                            break;
                        }
                        Err(e) if e.is_signal_interrupt() => {
                            vcheck!(pending(), "write reported a signal although none is pending");
                            case.count("writes_interrupted");
                            case.note(|| format!("interrupted after {progress}"));
                        }
                        Err(e) if e.is_would_block_interrupt() => {
                            case.count("writes_blocked");
                            case.note(|| format!("would block after {progress}"));
                            soak(case, &mut rd, &mut arrived, false);
                        }
                        Err(e) => vbail!("write failed with {e:?}"),
                    }
                    clear_signal();
                    if case.rng.chance(1, 12) {
                        case.count("writes_abandoned");
                        break;
                    }
                }
                accepted.extend_from_slice(&data[..progress]);
            }
        }
        vcheck!(accepted.starts_with(&arrived), "{}", mismatch(&arrived, &accepted));
        case.sig(accepted.len() as u64);
    }
    clear_signal();
    // end: closed, or simply dropped
    let end = case.rng.us(3);
    if end != 0 {
        case.op(|| "close".into());
        loop {
            let guard = NonblockGuard::set(wfd);
            let r = io.close(&Store);
            if r.is_ok() {
                std::mem::forget(guard);
            } else {
                drop(guard);
            }
            vh::step();
            match r {
                Ok(None) => break,
                Ok(x) => vbail!("close gave {x:?}"),
                Err(e) if e.is_would_block_interrupt() => soak(case, &mut rd, &mut arrived, false),
                Err(e) => vbail!("close failed with {e:?}"),
            }
        }
        vcheck!(!fd_open(wfd), "descriptor still open after close");
        vcheck!(io.write(b"x", &mut 0, &Store).is_err(), "a write succeeded on a closed stream");
        drop(io);
    } else {
        case.op(|| "dropped without close".into());
        soak(case, &mut rd, &mut arrived, true);
        // room for everything that may still be held back
        unsafe { libc::fcntl(wfd, libc::F_SETPIPE_SZ, 1 << 16) };
        drop(io);
        case.count("dropped_unclosed");
    }
    vcheck!(!fd_open(wfd), "descriptor still open after the stream is gone");
    soak(case, &mut rd, &mut arrived, true);
    vcheck!(arrived == accepted, "{}", mismatch(&arrived, &accepted));
    case.count_n("bytes_written", accepted.len() as u64);
    case.count(if sock { "socket_streams" } else { "pipe_sinks" });
    Ok(())
}
fn mismatch(arrived: &[u8], accepted: &[u8]) -> String {
    let p = arrived.iter().zip(accepted).position(|(a, b)| a != b).unwrap_or(arrived.len().min(accepted.len()));
    let w = |v: &[u8]| show(&v[p.min(v.len())..(p + 30).min(v.len())]);
    format!("{} bytes arrived of {} accepted; they part at {p}: arrived {} accepted {}", arrived.len(), accepted.len(), w(arrived), w(accepted))
}

/// One descriptor both read and written, with seeks.
fn file_case(case: &mut Case) -> Verdict {
    use std::io::Write;
    use std::os::unix::fs::FileExt;
    let fd = unsafe { libc::memfd_create(c"c20".as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd");
    let f = unsafe { std::fs::File::from_raw_fd(fd) };
    let view = f.try_clone().unwrap();
    let n = *case.rng.pick(&[0usize, 10, 300, 9000, 20000]);
    let init = if n == 0 { vec![] } else { text(&mut case.rng, n) };
    f.write_all_at(&init, 0).unwrap();
    let append = case.rng.chance(1, 5);
    if append {
        unsafe { libc::fcntl(fd, libc::F_SETFL, libc::O_APPEND) };
    }
    let mut io = if case.rng.chance(1, 2) { rvalue::file(f, true, true) } else {
        use std::os::fd::IntoRawFd;
        IoInner::from_raw_fd_autoclose(f.into_raw_fd(), "fd".into(), false, true, true, true)
    };
    let mut src = Src { ungot: vec![], data: init, pos: 0, eof: true, clean: true };
    let mut dirty = false;
    let ops = 3 + case.rng.us(50);
    for _ in 0..ops {
        match case.rng.us(10) {
            0..=3 => {
                let op = rop(&mut case.rng, &src);
                case.op(|| format!("{op:?} at {}", src.pos));
                let paragraph = matches!(&op, ROp::Line(Some(s), ..) if s.is_empty());
                if matches!(op, ROp::Sys(_)) && src.left() == 0 {
                    continue;
                }
                let fl = flags(fd);
                for t in 0.. {
                    if t < 200 {
                        maybe_signal(&mut case.rng);
                    }
                    match attempt(case, &mut io, &mut src, &op)? {
                        Out::Ok => break,
                        Out::Blocked => vbail!("a read of a regular file would block"),
                        Out::Interrupted => {
                            clear_signal();
                            if !paragraph && case.rng.chance(1, 4) {
                                case.count("reads_abandoned");
                                break;
                            }
                        }
                    }
                }
                clear_signal();
                if matches!(op, ROp::Nonblock(_)) {
                    unsafe { libc::fcntl(fd, libc::F_SETFL, fl) };
                }
                dirty = false;
            }
            4 | 5 => {
                if !src.ungot.is_empty() {
                    continue;
                }
                let n = size(&mut case.rng).min(9000);
                let data = text(&mut case.rng, n);
                case.op(|| format!("write of {} bytes at {}", data.len(), src.pos));
                let mut progress = 0;
                for t in 0.. {
                    if t < 200 {
                        maybe_signal(&mut case.rng);
                    }
                    let r = vh::catch(|| io.write(&data, &mut progress, &Store));
                    vh::step();
                    match r {
                        Ok(Ok(())) => break,
                        Ok(Err(e)) if e.is_signal_interrupt() => case.count("writes_interrupted"),
                        Ok(Err(e)) => vbail!("write failed with {e:?}"),
                        Err((l, m)) => vbail!("write panicked at {l}: {m}"),
                    }
                    clear_signal();
                    if case.rng.chance(1, 8) {
                        case.count("writes_abandoned");
                        break;
                    }
                }
                clear_signal();
                let data = &data[..progress];
                if append && !data.is_empty() {
                    src.pos = src.data.len();
                }
                if !data.is_empty() {
                    let end = src.pos + data.len();
                    if src.data.len() < end {
                        src.data.resize(end, 0);
                    }
                    let p = src.pos;
                    src.data[p..end].copy_from_slice(data);
                    src.pos = end;
                    src.clean = false;
                    dirty = true;
                }
                case.count("file_writes");
            }
            6 | 7 => {
                let here = src.pos as i64 - src.ungot.len() as i64;
                let (off, whence) = match case.rng.us(5) {
                    0 => (case.rng.below(src.data.len() as u64 + 50) as i64, 0),
                    1 => (case.rng.below(src.data.len() as u64 + 50) as i64 - here, 1),
                    2 => (case.rng.below(200) as i64 - 100, 1),
                    3 => (-(case.rng.below(src.data.len() as u64 + 3) as i64), 2),
                    _ => (case.rng.below(40) as i64 - 20, case.rng.us(3) as i32),
                };
                if whence == 1 && (off == 0 || (here < 0 && !src.ungot.is_empty())) {
                    continue; // asks for the position; judged separately below
                }
                let target = match whence {
                    0 => off,
                    1 => here + off,
                    _ => src.data.len() as i64 + off,
                };
                case.op(|| format!("seek({off}, {whence}) from {here} of {}", src.data.len()));
                let r = vh::catch(|| io.seek(off, whence));
                vh::step();
                match r {
                    Err((l, m)) => vbail!("seek panicked at {l}: {m}"),
                    Ok(Ok(p)) => {
                        veq!(p as i64, target, "position after seek({off}, {whence})");
                        src.pos = target as usize;
                        src.ungot.clear();
                        src.clean = false;
                        dirty = false;
                        case.count("seeks");
                    }
                    Ok(Err(e)) => {
                        vcheck!(target < 0, "seek({off}, {whence}) to {target} failed: {e}");
                        case.count("refused_seeks");
                    }
                }
            }
            8 => {
                if case.rng.chance(1, 2) {
                    let b = b"u\nv"[..1 + case.rng.us(3)].to_vec();
                    // a pending write goes out at the position it was made for
                    case.op(|| format!("unget {}", show(&b)));
                    match io.unget(&b) {
                        Ok(()) => {}
                        Err(e) => vbail!("unget failed: {e:?}"),
                    }
                    src.ungot.splice(0..0, b);
                    src.clean = false;
                    case.count("ungets");
                } else {
                    case.op(|| "position".into());
                    let pb = io.pushback_len();
                    match io.seek(0, 1) {
                        Ok(p) => veq!(p as i64 - pb as i64, src.pos as i64 - src.ungot.len() as i64, "position"),
                        Err(e) => vbail!("asking for the position failed: {e}"),
                    }
                    dirty = false;
                }
            }
            _ => {
                case.op(|| "flush and compare the whole file".into());
                if case.rng.chance(1, 4) {
                    let s = case.rng.chance(1, 2);
                    io.set_sync(s);
                }
                match io.flush(&Store) {
                    Ok(()) => {}
                    Err(e) => vbail!("flush failed with {e:?}"),
                }
                let mut now = vec![0u8; view.metadata().unwrap().len() as usize];
                view.read_exact_at(&mut now, 0).unwrap();
                vcheck!(now == src.data, "file after a flush: {}", mismatch(&now, &src.data));
                dirty = false;
            }
        }
        case.sig(src.pos as u64 * 7 + src.data.len() as u64);
    }
    let _ = dirty;
    clear_signal();
    if case.rng.chance(1, 2) {
        match io.close(&Store) {
            Ok(_) => {}
            Err(e) => vbail!("close failed with {e:?}"),
        }
    } else {
        case.op(|| "dropped without close".into());
        case.count("dropped_unclosed");
    }
    drop(io);
    vcheck!(!fd_open(fd), "descriptor still open after the stream is gone");
    let mut now = vec![0u8; view.metadata().unwrap().len() as usize];
    view.read_exact_at(&mut now, 0).unwrap();
    vcheck!(now == src.data, "file at the end: {}", mismatch(&now, &src.data));
    case.count("files");
    Ok(())
}

/// A child process behind two pipes.
fn popen_case(case: &mut Case) -> Verdict {
    let child = std::process::Command::new("cat").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().expect("cat");
    let mut io = IoInner::popen(child);
    let sync = case.rng.chance(1, 2);
    io.set_sync(sync);
    let mut sent = vec![];
    for _ in 0..1 + case.rng.us(6) {
        let n = size(&mut case.rng).min(9000);
        let d = text(&mut case.rng, n);
        let mut p = 0;
        case.op(|| format!("write of {} bytes to the child", d.len()));
        match io.write(&d, &mut p, &Store) {
            Ok(()) => sent.extend_from_slice(&d),
            Err(e) => vbail!("write to the child failed: {e:?}"),
        }
    }
    case.op(|| "close the write side".into());
    let r = vh::catch(|| close_write(&mut io));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => vbail!("closing the write side failed: {e:?}"),
        Err((l, m)) => vbail!("closing the write side panicked at {l}: {m}"),
    }
    let mut src = Src { ungot: vec![], data: sent, pos: 0, eof: true, clean: true };
    for _ in 0..1 + case.rng.us(10) {
        let mut op = rop(&mut case.rng, &src);
        if matches!(op, ROp::Sys(_)) {
            op = ROp::Gets;
        }
        if matches!(op, ROp::Nonblock(_)) {
            op = ROp::Partial(100);
        }
        case.op(|| format!("{op:?}"));
        for _ in 0..200 {
            maybe_signal(&mut case.rng);
            let o = attempt(case, &mut io, &mut src, &op)?;
            clear_signal();
            match o {
                Out::Ok => break,
                Out::Interrupted => {}
                Out::Blocked => vbail!("a blocking read would block"),
            }
        }
    }
    case.op(|| "Read(None) to the end".into());
    match attempt(case, &mut io, &mut src, &ROp::Read(None))? {
        Out::Ok => {}
        _ => vbail!("final read interrupted"),
    }
    veq!(src.left(), 0, "bytes of the child never delivered");
    match io.close(&Store) {
        Ok(Some((0, _))) => {}
        x => vbail!("closing the child gave {x:?}"),
    }
    case.count("children");
    case.sig(src.pos as u64);
    Ok(())
}
trait MaybeResult {
    fn into_result(self) -> Result<()>;
}
impl MaybeResult for () {
    fn into_result(self) -> Result<()> {
        Ok(())
    }
}
impl MaybeResult for Result<()> {
    fn into_result(self) -> Result<()> {
        self
    }
}
fn close_write(io: &mut IoInner) -> Result<()> {
    io.popen_close_write(&Store).into_result()
}

// ------------------------------------------------------------------ real interruptions

extern "C" fn on_usr1(_: i32) {
    if REAL_PENDING.load(Relaxed) {
        PENDING_SIGNALS.set.store(true, Relaxed);
    }
}
static REAL_PENDING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static EINTRS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Blocking reads and writes with a second thread on the other end and real signals arriving.
fn threaded_case(case: &mut Case) -> Verdict {
    use std::io::{Read, Write};
    use std::os::fd::IntoRawFd;
    let (mut rd, mut wr) = pipe();
    let reading = case.rng.chance(1, 2);
    let n = 500 + case.rng.us(20000);
    let data = text(&mut case.rng, n);
    REAL_PENDING.store(case.rng.chance(2, 3), Relaxed);
    let me = unsafe { libc::pthread_self() } as usize;
    let seed = case.rng.next();
    let d2 = data.clone();
    unsafe { libc::fcntl(wr.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) };
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let stop2 = stop.clone();
    // block the signal in the helper threads: only this thread is to be interrupted
    let helper = move |mut f: std::fs::File, feeding: bool| {
        let mut rng = Rng::new(seed, 3);
        let mut got = vec![];
        let mut at = 0;
        let mut b = vec![0u8; 5000];
        loop {
            if rng.chance(1, 2) && !stop2.load(Relaxed) {
                unsafe { libc::pthread_kill(me as libc::pthread_t, libc::SIGUSR1) };
            }
            if rng.chance(1, 3) {
                std::thread::sleep(std::time::Duration::from_micros(20 + rng.below(80)));
            }
            if feeding {
                if at == d2.len() {
                    break;
                }
                let k = (1 + rng.us(3000)).min(d2.len() - at);
                f.write_all(&d2[at..at + k]).unwrap();
                at += k;
            } else {
                let k = 1 + rng.us(3000);
                match f.read(&mut b[..k]).unwrap() {
                    0 => break,
                    n => got.extend_from_slice(&b[..n]),
                }
            }
        }
        got
    };
    if reading {
        let rfd = rd.into_raw_fd();
        let mut io = IoInner::from_raw_fd_autoclose(rfd, "fd".into(), false, true, false, true);
        let t = std::thread::spawn(move || helper(wr, true));
        // the model knows the whole stream; whatever is returned must be its next bytes
        let mut src = Src { ungot: vec![], data: data.clone(), pos: 0, eof: true, clean: true };
        let mut res: Verdict = Ok(());
        while src.left() > 0 && res.is_ok() {
            let mut op = rop(&mut case.rng, &src);
            if matches!(op, ROp::Nonblock(_) | ROp::Sys(_)) {
                op = ROp::Partial(64);
            }
            case.op(|| format!("{op:?}"));
            loop {
                match attempt(case, &mut io, &mut src, &op) {
                    Ok(Out::Ok) => break,
                    Ok(Out::Interrupted) => {
                        case.count("real_interruptions");
                        clear_signal();
                    }
                    Ok(Out::Blocked) => {
                        res = Err(vh::Violation("a blocking read would block".into()));
                        break;
                    }
                    Err(e) => {
                        res = Err(e);
                        break;
                    }
                }
            }
        }
        stop.store(true, Relaxed);
        drop(io);
        // a violation may leave the helper with nobody reading: its write fails then
        let j = t.join();
        res?;
        vcheck!(j.is_ok(), "the reader was gone before everything was read");
    } else {
        let wfd = wr.into_raw_fd();
        let mut io = IoInner::from_raw_fd_autoclose(wfd, "fd".into(), false, false, true, true);
        let t = std::thread::spawn(move || helper(rd, false));
        let mut at = 0;
        let mut res: Verdict = Ok(());
        'outer: while at < data.len() {
            let k = size(&mut case.rng).min(data.len() - at);
            let mut p = 0;
            case.op(|| format!("write of {k} bytes"));
            loop {
                match io.write(&data[at..at + k], &mut p, &Store) {
                    Ok(()) => break,
                    Err(e) if e.is_signal_interrupt() => {
                        case.count("real_interruptions");
                        clear_signal();
                    }
                    Err(e) => {
                        res = Err(vh::Violation(format!("write failed with {e:?}")));
                        break 'outer;
                    }
                }
                vh::step();
            }
            at += k;
        }
        while res.is_ok() {
            match io.close(&Store) {
                Ok(_) => break,
                Err(e) if e.is_signal_interrupt() => {
                    case.count("real_interruptions");
                    clear_signal();
                }
                Err(e) => res = Err(vh::Violation(format!("close failed with {e:?}"))),
            }
        }
        drop(io);
        let got = t.join().unwrap();
        stop.store(true, Relaxed);
        res?;
        vcheck!(got == data, "{}", mismatch(&got, &data));
    }
    clear_signal();
    case.count("threaded_streams");
    case.sig_bytes(&data);
    Ok(())
}

// ------------------------------------------------------------------ scripted ends

#[derive(Debug)]
struct Scripted {
    data: Vec<u8>,
    at: usize,
    rng: Rng2,
    faults: bool,
    seek_faults: bool,
    last_fault: Option<std::io::ErrorKind>,
}
struct Rng2(Rng);
impl std::fmt::Debug for Rng2 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "rng")
    }
}
impl std::io::Read for Scripted {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        use std::io::ErrorKind::*;
        self.last_fault = None;
        if self.faults && self.rng.0.chance(1, 4) {
            let k = *self.rng.0.pick(&[Interrupted, WouldBlock, Other]);
            self.last_fault = Some(k);
            // whatever a failed read leaves in the buffer means nothing
            for x in b.iter_mut().take(9) {
                *x = 0xee;
            }
            return Err(k.into());
        }
        let n = (self.data.len().saturating_sub(self.at)).min(b.len());
        let n = if n > 1 && self.rng.0.chance(1, 2) { 1 + self.rng.0.us(n) } else { n };
        b[..n].copy_from_slice(&self.data[self.at.min(self.data.len())..][..n]);
        self.at += n;
        Ok(n)
    }
}
impl std::io::Seek for Scripted {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        if self.seek_faults && self.rng.0.chance(1, 3) {
            return Err(std::io::ErrorKind::Other.into());
        }
        let t = match p {
            std::io::SeekFrom::Start(n) => n as i128,
            std::io::SeekFrom::Current(n) => self.at as i128 + n as i128,
            std::io::SeekFrom::End(n) => self.data.len() as i128 + n as i128,
        };
        if t < 0 || t > i64::MAX as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.at = t as usize;
        Ok(t as u64)
    }
}

fn scripted_reads(case: &mut Case) -> Verdict {
    use std::io::{BufRead, Read, Seek, SeekFrom};
    let n = *case.rng.pick(&[0usize, 5, 100, 9000, 25000]);
    let data = text(&mut case.rng, n.max(1))[..].to_vec();
    let inner = Scripted {
        data: data.clone(),
        at: 0,
        rng: Rng2(Rng::new(case.rng.next(), 1)),
        faults: case.rng.chance(1, 2),
        seek_faults: case.rng.chance(1, 4),
        last_fault: None,
    };
    let mut r = rawbuf::IoReader::new(inner);
    let mut pos = 0usize;
    for _ in 0..5 + case.rng.us(60) {
        vh::step();
        let next = &data[pos.min(data.len())..];
        match case.rng.us(8) {
            0..=2 => {
                let k = match case.rng.us(6) {
                    0 => 0,
                    1 => 8191 + case.rng.us(4),
                    2 => 20000,
                    _ => size(&mut case.rng),
                };
                let mut b = vec![0xaau8; k];
                case.op(|| format!("read into {k} bytes at {pos}"));
                match vh::catch(|| r.read(&mut b)) {
                    Err((l, m)) => vbail!("read panicked at {l}: {m}"),
                    Ok(Ok(got)) => {
                        vcheck!(got <= k, "read reported {got} of {k}");
                        vcheck!(next.starts_with(&b[..got]), "read returned {}, expected {}", show(&b[..got]), show(next));
                        vcheck!(got > 0 || k == 0 || next.is_empty(), "read reported the end at {pos} of {}", data.len());
                        pos += got;
                    }
                    Ok(Err(e)) => veq!(Some(e.kind()), r.get_ref().last_fault, "error of a read"),
                }
            }
            3 | 4 => {
                case.op(|| format!("fill at {pos}"));
                let len = match vh::catch(|| r.fill_buf().map(|b| b.to_vec())) {
                    Err((l, m)) => vbail!("fill_buf panicked at {l}: {m}"),
                    Ok(Ok(b)) => {
                        vcheck!(next.starts_with(&b), "buffer shows {}, expected {}", show(&b), show(next));
                        vcheck!(!b.is_empty() || next.is_empty(), "empty buffer at {pos} of {}", data.len());
                        b.len()
                    }
                    Ok(Err(e)) => {
                        veq!(Some(e.kind()), r.get_ref().last_fault, "error of a fill");
                        0
                    }
                };
                let held = r.buffer().len();
                veq!(held, len, "bytes reported as buffered");
                let k = if case.rng.chance(1, 10) { held + case.rng.us(5) } else if held > 0 { case.rng.us(held + 1) } else { 0 };
                case.op(|| format!("consume {k}"));
                r.consume(k);
                pos += k.min(held);
            }
            5 => {
                let b = r.buffer();
                vcheck!(next.starts_with(b), "buffered bytes {} are not the next ones {}", show(b), show(next));
                case.count("buffer_views");
            }
            _ => {
                let (p, want) = match case.rng.us(5) {
                    0 => {
                        let o = case.rng.below(data.len() as u64 + 20);
                        (SeekFrom::Start(o), o as i128)
                    }
                    1 => (SeekFrom::Current(0), pos as i128),
                    2 => {
                        let o = case.rng.below(300) as i64 - 150;
                        (SeekFrom::Current(o), pos as i128 + o as i128)
                    }
                    3 => {
                        let o = *case.rng.pick(&[i64::MAX, i64::MIN, i64::MIN + 3, i64::MAX - 5]);
                        (SeekFrom::Current(o), pos as i128 + o as i128)
                    }
                    _ => {
                        let o = -(case.rng.below(data.len() as u64 + 2) as i64);
                        (SeekFrom::End(o), data.len() as i128 + o as i128)
                    }
                };
                case.op(|| format!("seek {p:?} from {pos}"));
                match vh::catch(|| r.seek(p)) {
                    Err((l, m)) => vbail!("seek panicked at {l}: {m}"),
                    Ok(Ok(got)) => {
                        veq!(got as i128, want, "position after {p:?}");
                        if want > 1 << 40 {
                            // far out; come back
                            let mut ok = false;
                            for _ in 0..200 {
                                if r.seek(SeekFrom::Start(0)).is_ok() {
                                    ok = true;
                                    break;
                                }
                            }
                            vcheck!(ok, "could not seek back");
                            pos = 0;
                        } else {
                            pos = want as usize;
                        }
                        case.count("seeks");
                    }
                    Ok(Err(_)) => {
                        vcheck!(r.get_ref().seek_faults || want < 0 || want > i64::MAX as i128, "seek {p:?} to {want} failed");
                        case.count("refused_seeks");
                    }
                }
            }
        }
        case.sig(pos as u64);
    }
    case.count("scripted_reads");
    Ok(())
}

struct Sink {
    got: Vec<u8>,
    rng: Rng,
    faults: bool,
    calls_while_pending: u64,
    last: Option<std::io::ErrorKind>,
    zero: bool,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::ErrorKind::*;
        self.last = None;
        self.zero = false;
        if pending() {
            self.calls_while_pending += 1;
        }
        if self.faults && self.rng.chance(1, 3) {
            match self.rng.us(8) {
                0 => {
                    self.zero = true;
                    return Ok(0);
                }
                1 | 2 => {
                    let k = *self.rng.pick(&[BrokenPipe, Other]);
                    self.last = Some(k);
                    return Err(k.into());
                }
                3 | 4 => {
                    self.last = Some(WouldBlock);
                    return Err(WouldBlock.into());
                }
                x => {
                    if x == 5 {
                        PENDING_SIGNALS.set.store(true, Relaxed);
                    }
                    return Err(Interrupted.into());
                }
            }
        }
        let n = if b.len() > 1 && self.rng.chance(1, 2) { 1 + self.rng.us(b.len()) } else { b.len() };
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn scripted_writes(case: &mut Case) -> Verdict {
    let (sync, tty) = (case.rng.chance(1, 3), case.rng.chance(1, 6));
    let mut w = rawbuf::WriteBuf::new(sync, tty);
    let mut s = Sink { got: vec![], rng: Rng::new(case.rng.next(), 5), faults: case.rng.chance(2, 3), calls_while_pending: 0, last: None, zero: false };
    let mut accepted: Vec<u8> = vec![];
    let poll = || PENDING_SIGNALS.load(Relaxed) != 0;
    for _ in 0..3 + case.rng.us(50) {
        vh::step();
        maybe_signal(&mut case.rng);
        if case.rng.chance(1, 10) {
            PENDING_SIGNALS.set.store(true, Relaxed);
        }
        let was = pending();
        let before = s.got.len();
        let (mut full, r) = if case.rng.chance(1, 3) {
            case.op(|| format!("drain of {} bytes (signal pending: {was})", w.buffered_len()));
            (w.buffered_len(), vh::catch(|| w.drain(&mut s, &poll)))
        } else {
            if case.rng.chance(1, 10) {
                let x = case.rng.chance(1, 2);
                w.set_sync(x);
                veq!(w.sync(), x, "sync");
            }
            let n = if case.rng.chance(1, 20) { 0 } else { size(&mut case.rng) };
            let mut d = text(&mut case.rng, n);
            d.truncate(n);
            let mut p = if case.rng.chance(1, 10) && n > 0 { case.rng.us(n + 1) } else { 0 };
            let p0 = p;
            case.op(|| format!("write of {n} bytes from {p0} with {} buffered (signal pending: {was})", w.buffered_len()));
            let held = w.buffered_len();
            let through = w.writes_through();
            let r = vh::catch(|| w.write(&mut s, &d, &mut p, &poll));
            vcheck!(p >= p0 && p <= n, "progress went from {p0} to {p} of {n}");
            accepted.extend_from_slice(&d[p0..p]);
            if let Ok(Ok(())) = &r {
                veq!(p, n, "progress of a completed write");
                if through {
                    veq!(w.buffered_len(), 0, "bytes held back by a synchronous write");
                }
            }
            if through && matches!(r, Ok(Err(_))) {
                vcheck!(w.buffered_len() <= held, "a failed synchronous write left bytes behind");
            }
            (if through { held + n - p0 } else { 0 }, r)
        };
        let r = match r {
            Err((l, m)) => vbail!("write or drain panicked at {l}: {m}"),
            Ok(r) => r,
        };
        veq!(s.got.len() + w.buffered_len(), accepted.len(), "bytes out plus bytes held against bytes accepted");
        vcheck!(accepted.starts_with(&s.got), "{}", mismatch(&s.got, &accepted));
        if was {
            veq!(s.got.len(), before, "bytes written with a signal already pending");
            veq!(s.calls_while_pending, 0, "kernel entries with a signal already pending");
        }
        match r {
            Ok(()) => {
                if was && full > 0 {
                    vbail!("a pending signal was ignored");
                }
                case.count("scripted_ok");
            }
            Err(rawbuf::DrainErr::Signal) => {
                vcheck!(pending(), "stopped for a signal that is not pending");
                case.count("scripted_signal");
            }
            Err(rawbuf::DrainErr::WouldBlock) => {
                veq!(s.last, Some(std::io::ErrorKind::WouldBlock), "cause of a would-block");
                case.count("scripted_would_block");
            }
            Err(rawbuf::DrainErr::Io(e)) => {
                vcheck!(s.zero || s.last == Some(e.kind()), "error {e:?}, the descriptor reported {:?}", s.last);
                case.count("scripted_error");
            }
        }
        let _ = &mut full;
        s.calls_while_pending = 0;
        clear_signal();
        case.sig(s.got.len() as u64 * 3 + w.buffered_len() as u64);
    }
    clear_signal();
    s.faults = false;
    match w.drain(&mut s, &poll) {
        Ok(()) => {}
        Err(_) => vbail!("drain into a willing descriptor failed"),
    }
    vcheck!(s.got == accepted, "{}", mismatch(&s.got, &accepted));
    Ok(())
}

fn main() {
    // an unrestarted handler, so that blocking calls are really interrupted
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_usr1 as extern "C" fn(i32) as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
    vh::main_loop("c20", |case| {
        clear_signal();
        case.nontrivial();
        let k = if case.rng.chance(1, 60) { 90 } else if case.rng.chance(1, 40) { 80 } else { case.rng.us(12) };
        case.sample = Some(
            match k {
                90 => "stream through a child process",
                80 => "blocking stream with real signals",
                0..=2 => "reads from a pipe",
                3..=5 => "writes to a pipe or socket",
                6 | 7 => "a file read and written through one descriptor",
                8 => "reads from standard input",
                9 => "scripted reads",
                _ => "scripted writes",
            }
            .into(),
        );
        case.sig(k as u64);
        match k {
            90 => popen_case(case),
            80 => threaded_case(case),
            0..=2 => pipe_reads(case, false),
            3..=5 => pipe_writes(case),
            6 | 7 => file_case(case),
            8 => pipe_reads(case, true),
            9 => scripted_reads(case),
            _ => scripted_writes(case),
        }
    })
}
