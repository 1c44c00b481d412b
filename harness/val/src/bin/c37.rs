//! Byte buffers against a shadow model.
//!
//! The real buffer class runs between a small stand-in interpreter and a
//! model that keeps, for every buffer, where its bytes live: nowhere, in the
//! buffer itself, in a string, in a mapped file, or in a span of another
//! buffer.  After every call the answer is judged, then every buffer, string
//! and file is read back and compared.

#![allow(dead_code, unused_imports)]

#[path = "../buf_world.rs"]
pub mod world;

pub mod alloc {
    pub struct Allocator<T> {
        pub marked: Vec<u64>,
        pub of: std::marker::PhantomData<T>,
    }
}
pub mod value {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Encoding {
        Ascii8,
        Utf8,
        UsAscii,
    }
    pub mod rvalue {
        use crate::world::*;
        #[path = "/repo/monoruby/src/value/rvalue/io_buffer.rs"]
        mod io_buffer;
        pub use io_buffer::*;
    }
}
pub mod builtins {
    use crate::world::*;
    use plain_attr::monoruby_builtin;
    pub mod io {
        use crate::world::*;
        pub fn enc_obj_to_enum(_: &mut Globals, v: Value) -> Option<crate::value::Encoding> {
            use crate::value::Encoding::*;
            Some(match v.try_fixnum()? {
                0 => Ascii8,
                1 => Utf8,
                _ => UsAscii,
            })
        }
    }
    #[path = "/repo/monoruby/src/builtins/io_buffer.rs"]
    pub mod io_buffer;
    pub fn init(g: &mut Globals) {
        io_buffer::init(g);
    }
}

use num::{BigInt, ToPrimitive};
use std::cell::RefCell;
use std::rc::Rc;
use vh::{Case, Rng, Verdict, Violation, vbail, vcheck, veq};
use world::*;

const INTERNAL: u32 = 2;
const EXTERNAL: u32 = 1;
const MAPPED: u32 = 4;
const SHARED: u32 = 8;
const PRIVATE: u32 = 64;
const READONLY: u32 = 128;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Arg,
    Type,
    Range,
    Access,
    Locked,
    Mask,
    Alloc,
    Inval,
    Errno,
    Jump,
    NoMem,
    Scripted(u32),
    Any,
}
fn kind_of(e: &MonorubyErr) -> K {
    match &e.kind {
        MonorubyErrKind::Argument => K::Arg,
        MonorubyErrKind::Type => K::Type,
        MonorubyErrKind::Range => K::Range,
        MonorubyErrKind::Errno => K::Errno,
        MonorubyErrKind::LocalJump => K::Jump,
        MonorubyErrKind::NoMemory => K::NoMem,
        MonorubyErrKind::Runtime => K::Any,
        MonorubyErrKind::Scripted(n) => K::Scripted(*n),
        MonorubyErrKind::Other(c) => match c.0 {
            100 => K::Alloc,
            101 => K::Access,
            102 => K::Locked,
            103 => K::Inval,
            104 => K::Mask,
            _ => K::Any,
        },
    }
}

/// Where a buffer's bytes live.
#[derive(Clone, Debug)]
enum M {
    Null,
    Own(Vec<u8>),
    Str(usize, usize),
    /// file, offset, private copy
    Map(usize, usize, Option<Vec<u8>>),
    Slice(usize, usize),
}
#[derive(Clone, Debug)]
struct B {
    v: Value,
    m: M,
    size: usize,
    flags: u32,
    locked: bool,
    /// No longer followed: a view of a view that went away.
    lost: bool,
}
struct S {
    v: Value,
    bytes: Vec<u8>,
    /// Held by the buffer class only (the copy taken by `for`).
    hidden: bool,
}
struct F {
    fd: i32,
    ro: i32,
    bytes: Vec<u8>,
    private: bool,
}
struct St {
    bufs: Vec<B>,
    strs: Vec<S>,
    files: Vec<F>,
    bad: Option<Violation>,
    page: usize,
}

impl St {
    fn read(&self, i: usize) -> Option<Vec<u8>> {
        let b = &self.bufs[i];
        match &b.m {
            M::Null => Some(vec![]),
            M::Own(v) => Some(v.clone()),
            M::Str(s, o) => self.strs[*s].bytes.get(*o..*o + b.size).map(|x| x.to_vec()),
            M::Map(_, _, Some(v)) => Some(v.clone()),
            M::Map(f, o, None) => Some(self.files[*f].bytes[*o..*o + b.size].to_vec()),
            M::Slice(p, o) => self.read(*p)?.get(*o..*o + b.size).map(|x| x.to_vec()),
        }
    }
    fn write(&mut self, i: usize, at: usize, data: &[u8]) {
        match &mut self.bufs[i].m {
            M::Null => assert!(data.is_empty()),
            M::Own(v) | M::Map(_, _, Some(v)) => v[at..at + data.len()].copy_from_slice(data),
            M::Str(s, o) => {
                let (s, o) = (*s, *o);
                self.strs[s].bytes[o + at..o + at + data.len()].copy_from_slice(data)
            }
            M::Map(f, o, None) => {
                let (f, o) = (*f, *o);
                self.files[f].bytes[o + at..o + at + data.len()].copy_from_slice(data)
            }
            M::Slice(p, o) => {
                let (p, o) = (*p, *o);
                self.write(p, o + at, data)
            }
        }
    }
    fn add(&mut self, v: Value, m: M, size: usize, flags: u32) -> usize {
        self.bufs.push(B { v, m, size, flags, locked: false, lost: false });
        self.bufs.len() - 1
    }
    fn find(&self, v: Value) -> Option<usize> {
        self.bufs.iter().position(|b| b.v == v)
    }
    /// The buffer lost its storage.
    fn gone(&mut self, i: usize, flags: u32) {
        if matches!(self.bufs[i].m, M::Slice(..)) {
            self.lose_views(i);
        }
        let b = &mut self.bufs[i];
        b.m = M::Null;
        b.size = 0;
        b.flags = flags;
    }
    fn lose_views(&mut self, i: usize) {
        for k in 0..self.bufs.len() {
            if let M::Slice(p, _) = self.bufs[k].m
                && p == i
                && !self.bufs[k].lost
            {
                self.bufs[k].lost = true;
                self.lose_views(k);
            }
        }
    }
}

struct Ctx {
    st: Rc<RefCell<St>>,
    case: *mut Case,
}
impl Clone for Ctx {
    fn clone(&self) -> Ctx {
        Ctx { st: self.st.clone(), case: self.case }
    }
}
impl Ctx {
    #[allow(clippy::mut_from_ref)]
    fn case(&self) -> &mut Case {
        unsafe { &mut *self.case }
    }
    fn count(&self, k: &'static str) {
        self.case().count(k);
    }
    fn op(&self, f: impl FnOnce() -> String) {
        self.case().op(f);
    }
}

fn arity(g: &Globals, class: bool, name: &str, n: usize) -> BuiltinFn {
    let t = if class { &g.class_funcs } else { &g.funcs };
    let Some((f, min, max)) = t.get(name) else {
        eprintln!("no method {name}");
        std::process::exit(3)
    };
    assert!((*min..=*max).contains(&n), "{name} called with {n}");
    *f
}
fn call(vm: &mut Executor, g: &mut Globals, recv: Value, name: &str, args: &[Value]) -> Result<Value> {
    let f = arity(g, false, name, args.len());
    f(vm, g, Lfp::new(recv, args, false), BytecodePtr)
}
fn call_with(vm: &mut Executor, g: &mut Globals, recv: Option<Value>, name: &str, args: &[Value], b: Block) -> Result<Value> {
    let f = arity(g, recv.is_none(), name, args.len());
    let old = vm.block.replace(b);
    let r = f(vm, g, Lfp::new(recv.unwrap_or(Value::nil()), args, true), BytecodePtr);
    vm.block = old;
    r
}

/// What a call may do.
#[derive(Debug)]
enum Want {
    /// One of these failures and nothing changed.
    Fail(Vec<K>),
    Ok,
}

/// Integer arguments as the methods take them.
fn int(v: Value, fails: &mut Vec<K>) -> Option<i64> {
    match v.unpack() {
        RV::Fixnum(i) => Some(i),
        RV::BigInt(b) => b.to_i64().or_else(|| {
            fails.extend([K::Range, K::Arg]);
            None
        }),
        RV::Float(f) if f.abs() < 1e18 => Some(f as i64),
        RV::Float(_) => {
            fails.push(K::Range);
            None
        }
        RV::Object(RValue { kind: ObjKind::Number(i), .. }) => Some(*i),
        _ => {
            fails.push(K::Type);
            None
        }
    }
}
/// An optional count or position that may not be negative.
fn pos(args: &[Value], i: usize, fails: &mut Vec<K>) -> Option<usize> {
    let v = *args.get(i)?;
    if v.is_nil() {
        return None;
    }
    let n = int(v, fails)?;
    if n < 0 {
        fails.push(K::Arg);
        return None;
    }
    Some(n as usize)
}
/// A span (offset, length) inside `size` bytes.
fn span(args: &[Value], o: usize, l: usize, size: usize, fails: &mut Vec<K>) -> (usize, usize) {
    let off = pos(args, o, fails).unwrap_or(0);
    let len = pos(args, l, fails);
    let len = len.unwrap_or(size.saturating_sub(off));
    if off > size || off as u128 + len as u128 > size as u128 {
        fails.push(K::Arg);
    }
    (off, len)
}

const TYPES: [&str; 18] = [
    "U8", "S8", "u16", "U16", "s16", "S16", "u32", "U32", "s32", "S32", "u64", "U64", "s64", "S64", "f32", "F32", "f64", "F64",
];
fn type_of(v: Value) -> Option<&'static str> {
    let n = v.try_symbol_or_string()?.get_name();
    TYPES.iter().find(|t| **t == n).copied()
}
fn width(t: &str) -> usize {
    t[1..].parse::<usize>().unwrap() / 8
}
enum Num {
    Int(BigInt),
    F(f64),
}
fn decode(t: &str, b: &[u8]) -> Num {
    let mut b = b.to_vec();
    if t.as_bytes()[0].is_ascii_uppercase() {
        b.reverse();
    }
    let mut u: u128 = 0;
    for (i, x) in b.iter().enumerate() {
        u += (*x as u128) << (8 * i);
    }
    let w = 8 * b.len();
    match t.as_bytes()[0].to_ascii_lowercase() {
        b'u' => Num::Int(BigInt::from(u as u64)),
        b's' => {
            let v = u as i128 - if u >> (w - 1) == 1 { 1i128 << w } else { 0 };
            Num::Int(BigInt::from(v as i64))
        }
        _ if w == 32 => Num::F(f32::from_bits(u as u32) as f64),
        _ => Num::F(f64::from_bits(u as u64)),
    }
}
fn same_num(v: Value, n: &Num) -> bool {
    match n {
        Num::Int(b) => v.as_big().as_ref() == Some(b),
        Num::F(f) => v.try_float().is_some_and(|x| x.to_bits() == f.to_bits() || x.is_nan() && f.is_nan()),
    }
}
/// The bytes of a number, and whether refusing it would do as well.
fn encode(t: &str, v: Value, fails: &mut Vec<K>) -> (Vec<u8>, bool) {
    let w = width(t);
    let mut lenient = false;
    let mut b = if t.as_bytes()[0].eq_ignore_ascii_case(&b'f') {
        let f = match v.unpack() {
            RV::Float(f) => f,
            RV::Fixnum(i) => i as f64,
            RV::BigInt(b) => b.to_string().parse().unwrap(),
            RV::Object(RValue { kind: ObjKind::Number(i), .. }) => *i as f64,
            _ => {
                fails.push(K::Type);
                0.0
            }
        };
        if w == 4 { (f as f32).to_bits().to_le_bytes().to_vec() } else { f.to_bits().to_le_bytes().to_vec() }
    } else {
        let n: BigInt = match v.unpack() {
            RV::BigInt(b) => b.clone(),
            _ => BigInt::from(int(v, fails).unwrap_or(0)),
        };
        let (lo, hi) = if t.as_bytes()[0].eq_ignore_ascii_case(&b'u') {
            (BigInt::from(0), BigInt::from(1) << (8 * w))
        } else {
            (-(BigInt::from(1) << (8 * w - 1)), BigInt::from(1) << (8 * w - 1))
        };
        lenient = n < lo || n >= hi;
        let m = BigInt::from(1) << 64usize;
        let r = ((n % &m) + &m) % &m;
        let mut d = r.to_string().parse::<u64>().unwrap().to_le_bytes().to_vec();
        d.truncate(w);
        d
    };
    if t.as_bytes()[0].is_ascii_uppercase() {
        b.reverse();
    }
    (b, lenient)
}

fn small(r: &mut Rng, size: usize) -> i64 {
    match r.below(12) {
        0 => 0,
        1 => size as i64,
        2 => size as i64 + 1,
        3 => -(r.range(1, 5) as i64),
        4 => size as i64 - 1,
        5 => *r.pick(&[i64::MAX, i64::MAX - 3, i64::MIN, 1 << 32, (1 << 32) + 1, i64::MAX >> 1]),
        _ => r.below(size as u64 + 1) as i64,
    }
}
/// An argument that stands for an integer; sometimes not one at all.
fn int_arg(r: &mut Rng, n: i64) -> Value {
    match r.below(30) {
        0 => Value::nil(),
        1 => Value::float(n as f64 + 0.25),
        2 => Value::bytes(b"3".to_vec()),
        3 => Value::bigint(BigInt::from(n) << 64usize),
        4 | 5 => Value::number(n),
        _ => Value::integer(n),
    }
}
fn payload(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 8, 13, 17, 32, 40]);
    (0..n).map(|_| r.next() as u8).collect()
}

/// Judge an outcome; returns the value when the call is meant to succeed.
fn judge(what: &str, got: &Result<Value>, fails: &[K], lenient: &[K], hooked: bool) -> std::result::Result<Option<Value>, Violation> {
    match got {
        Ok(v) => {
            if !fails.is_empty() {
                return Err(Violation(format!("{what} gave {v:?} instead of failing ({fails:?})")));
            }
            Ok(Some(*v))
        }
        Err(e) => {
            let k = kind_of(e);
            if hooked || fails.contains(&k) || fails.contains(&K::Any) || lenient.contains(&k) {
                return Ok(None);
            }
            Err(Violation(if fails.is_empty() {
                format!("{what} failed with {k:?}: {}", e.msg)
            } else {
                format!("{what} failed with {k:?} ({}) instead of {fails:?}", e.msg)
            }))
        }
    }
}

fn verify(cx: &Ctx, vm: &mut Executor, g: &mut Globals, what: &str) -> Verdict {
    let st = cx.st.borrow();
    for (i, s) in st.strs.iter().enumerate() {
        if !s.hidden {
            vcheck!(s.v.as_rstring_inner().bytes == s.bytes, "{what}: string {i} holds {:?}, {:?} expected", s.v.as_rstring_inner().bytes, s.bytes);
        }
    }
    for f in &st.files {
        let mut b = vec![0u8; f.bytes.len() + 1];
        let n = unsafe { libc::pread(f.fd, b.as_mut_ptr() as *mut _, b.len(), 0) };
        vcheck!(n == f.bytes.len() as isize && b[..n as usize] == f.bytes[..], "{what}: a mapped file differs from what was written");
    }
    for (i, b) in st.bufs.iter().enumerate() {
        if b.lost {
            continue;
        }
        let mut ask = |n: &str| call(vm, g, b.v, n, &[]);
        let size = ask("size").map_err(|_| Violation(format!("{what}: size failed")))?;
        vcheck!(size == Value::integer(b.size as i64), "{what}: buffer {i} has size {size:?}, {} expected", b.size);
        let bytes = st.read(i);
        for (n, want) in [
            ("null?", matches!(b.m, M::Null)),
            ("empty?", b.size == 0),
            ("locked?", b.locked),
            ("valid?", bytes.is_some()),
            ("external?", b.flags & EXTERNAL != 0),
            ("internal?", b.flags & INTERNAL != 0),
            ("mapped?", b.flags & MAPPED != 0),
            ("shared?", b.flags & SHARED != 0),
            ("private?", b.flags & PRIVATE != 0),
            ("readonly?", b.flags & READONLY != 0),
        ] {
            let got = ask(n);
            vcheck!(matches!(&got, Ok(v) if *v == Value::bool(want)), "{what}: buffer {i} answers {n} with {got:?}, {want} expected ({:?})", b.m);
        }
        let got = ask("get_string");
        match (&got, &bytes) {
            (Ok(s), Some(want)) => {
                vcheck!(s.as_rstring_inner().bytes == *want, "{what}: buffer {i} holds {:?}, {:?} expected ({:?})", s.as_rstring_inner().bytes, want, b.m)
            }
            (Err(e), None) => {
                vcheck!(kind_of(e) == K::Inval, "{what}: reading buffer {i}, a view of nothing, failed with {}", e.msg);
                cx.count("invalid_views_refused")
            }
            (Ok(_), None) => vbail!("{what}: buffer {i} is a view of nothing but was read"),
            (Err(e), Some(_)) => vbail!("{what}: buffer {i} cannot be read: {}", e.msg),
        }
        // What keeps the bytes alive is reported to the collector.
        let mut al = crate::alloc::Allocator { marked: vec![], of: std::marker::PhantomData };
        b.v.as_io_buffer_inner().mark(&mut al);
        let mut k = 0;
        while k < al.marked.len() {
            let id = al.marked[k];
            if let Some(o) = st.bufs.iter().find(|o| o.v.id() == id) {
                o.v.as_io_buffer_inner().mark(&mut al);
            }
            k += 1;
        }
        let mut root = i;
        while let M::Slice(p, _) = st.bufs[root].m {
            root = p;
        }
        if bytes.is_some() {
            if root != i {
                vcheck!(al.marked.contains(&st.bufs[root].v.id()), "{what}: buffer {i} does not keep its source alive");
                cx.count("sources_kept_alive");
            }
            if let M::Str(s, _) = st.bufs[root].m {
                vcheck!(
                    if st.strs[s].hidden { !al.marked.is_empty() } else { al.marked.contains(&st.strs[s].v.id()) },
                    "{what}: buffer {i} does not keep its string alive"
                );
                cx.count("sources_kept_alive");
            }
        }
    }
    Ok(())
}

const DATA_OPS: [&str; 22] = [
    "get_string", "set_string", "set_string", "free", "transfer", "resize", "resize", "slice", "slice", "slice", "clear", "to_s", "inspect", "<=>", "hexdump",
    "get_value", "set_value", "set_value", "values", "each", "each_byte", "locked",
];
const BIT_OPS: [&str; 8] = ["&", "|", "^", "~", "and!", "or!", "xor!", "not!"];

fn buffer_arg(st: &St, r: &mut Rng) -> Value {
    let live: Vec<usize> = (0..st.bufs.len()).filter(|i| !st.bufs[*i].lost).collect();
    if live.is_empty() || r.chance(1, 25) {
        return *r.pick(&[Value::nil(), Value::integer(3)]);
    }
    st.bufs[*r.pick(&live)].v
}
fn number(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => Value::integer(r.below(256) as i64),
        1 => Value::integer(-(r.below(200) as i64)),
        2 => Value::integer(r.next() as i64),
        3 => Value::integer_from_u64(r.next() | 1 << 63),
        4 => Value::bigint(BigInt::from(r.next()) << (r.below(70) as usize)),
        5 => Value::float(*r.pick(&[0.0, -0.0, 1.5, -2.75, 1e300, f64::INFINITY, 1e-300, 16777217.0])),
        6 => Value::float(f64::from_bits(r.next() & 0x47ff_ffff_ffff_ffff)),
        _ => int_arg(r, 77),
    }
}

fn step(cx: &Ctx, vm: &mut Executor, g: &mut Globals, r: &mut Rng, depth: usize) -> Verdict {
    let live: Vec<usize> = {
        let st = cx.st.borrow();
        (0..st.bufs.len()).filter(|i| !st.bufs[*i].lost).collect()
    };
    if live.is_empty() || (live.len() < 7 && r.chance(1, 5)) {
        return make(cx, vm, g, r, depth);
    }
    if r.chance(1, 25) {
        return outside(cx, r);
    }
    let i = *r.pick(&live);
    if r.chance(1, 5) {
        return bits(cx, vm, g, r, i);
    }
    // A view that lost its bytes is written to where some may be left.
    let stale: Vec<usize> = {
        let st = cx.st.borrow();
        live.iter().copied().filter(|i| st.bufs[*i].flags & READONLY == 0 && st.bufs[*i].size > 0 && st.read(*i).is_none()).collect()
    };
    if !stale.is_empty() && r.chance(1, 3) {
        let i = *r.pick(&stale);
        let (v, size) = (cx.st.borrow().bufs[i].v, cx.st.borrow().bufs[i].size);
        let at = Value::integer(r.below(size.min(3) as u64) as i64);
        let (name, args) = match r.below(3) {
            0 => ("set_value", vec![Value::symbol(IdentId::get_id("U8")), at, Value::integer(77)]),
            1 => ("clear", vec![Value::integer(78), at, Value::integer(1)]),
            _ => ("set_string", vec![Value::bytes(vec![79]), at]),
        };
        let what = format!("buffer {i}.{name}{args:?}");
        cx.op(|| format!("{}{what} (stale)", "  ".repeat(depth)));
        cx.count("stale_views_written");
        run(cx, vm, g, r, depth, i, v, name, &args, &what, false)?;
        return verify(cx, vm, g, &what);
    }
    let name = *r.pick(&DATA_OPS);
    let (v, size) = {
        let st = cx.st.borrow();
        (st.bufs[i].v, st.bufs[i].size)
    };
    let mut args: Vec<Value> = vec![];
    let mut src = None;
    match name {
        "get_string" | "slice" => {
            for _ in 0..r.below(3) {
                let n = small(r, size);
                args.push(int_arg(r, n));
            }
            if name == "get_string" && args.len() == 2 && r.chance(1, 3) {
                args.push(*r.pick(&[Value::nil(), Value::integer(0), Value::integer(1), Value::integer(2)]));
            }
        }
        "set_string" => {
            let st = cx.st.borrow();
            let own: Vec<usize> = (0..st.strs.len()).filter(|k| !st.strs[*k].hidden).collect();
            let n;
            if !own.is_empty() && r.chance(1, 3) {
                let k = *r.pick(&own);
                src = Some(k);
                n = st.strs[k].bytes.len();
                args.push(st.strs[k].v);
            } else {
                let mut b = payload(r);
                if size > 0 && r.chance(2, 3) {
                    b.truncate(size);
                }
                n = b.len();
                args.push(if r.chance(1, 30) { Value::integer(1) } else { Value::bytes(b) });
            }
            let m = r.below(4);
            if m > 0 {
                let k = if r.chance(1, 2) { r.below(3) as i64 } else { small(r, size) };
                args.push(int_arg(r, k));
            }
            for _ in 1..m {
                let k = small(r, n);
                args.push(int_arg(r, k));
            }
        }
        "resize" => {
            let n = match r.below(8) {
                0 => 0,
                1 => -1,
                2 => *r.pick(&[1i64 << 48, 1 << 61, i64::MAX]),
                3 => cx.st.borrow().page as i64 + r.below(3) as i64 - 1,
                _ => r.below(60) as i64,
            };
            args.push(int_arg(r, n));
        }
        "clear" => {
            let m = r.below(4);
            if m > 0 {
                let k = *r.pick(&[0i64, 1, 255, 65, 256, -1, i64::MAX]);
                args.push(int_arg(r, k));
            }
            for _ in 1..m {
                let k = small(r, size);
                args.push(int_arg(r, k));
            }
        }
        "<=>" => args.push(buffer_arg(&cx.st.borrow(), r)),
        "get_value" | "set_value" | "values" | "each" => {
            let t = if r.chance(1, 30) { "u24" } else { r.pick(&TYPES) };
            args.push(if r.chance(1, 20) { Value::bytes(t.as_bytes().to_vec()) } else { Value::symbol(IdentId::get_id(t)) });
            if name.ends_with("value") {
                let w = if r.chance(1, 2) { t[1..].parse::<usize>().unwrap() / 8 } else { 0 };
                let k = small(r, size.saturating_sub(w));
                args.push(int_arg(r, k));
                if name == "set_value" {
                    args.push(number(r));
                }
            } else {
                for _ in 0..r.below(3) {
                    let k = small(r, size);
                    args.push(int_arg(r, k));
                }
            }
        }
        "each_byte" => {
            for _ in 0..r.below(3) {
                let k = small(r, size);
                args.push(int_arg(r, k));
            }
        }
        _ => {}
    }
    // An argument that changes the world when asked for its number.
    let mut hooked = false;
    if args.iter().any(|a| matches!(a.rv(), Some(RValue { kind: ObjKind::Number(_), .. }))) && r.chance(1, 2) {
        hooked = true;
        let (cx2, mut r2) = (cx.clone(), Rng::new(r.next(), 5));
        vm.on_to_int = Some(Box::new(move |vm, g| {
            if let Err(b) = meddle(&cx2, vm, g, &mut r2, i, src) {
                cx2.st.borrow_mut().bad.get_or_insert(b);
            }
        }));
    }
    let what = format!("buffer {i}.{name}{args:?}");
    cx.op(|| format!("{}{what}{}", "  ".repeat(depth), if hooked { " (meddling)" } else { "" }));
    let r0 = run(cx, vm, g, r, depth, i, v, name, &args, &what, hooked);
    vm.on_to_int = None;
    r0?;
    if let Some(b) = cx.st.borrow_mut().bad.take() {
        return Err(b);
    }
    verify(cx, vm, g, &what)
}

/// Runs while an argument is being converted: shrinks what is being used.
fn meddle(cx: &Ctx, vm: &mut Executor, g: &mut Globals, r: &mut Rng, i: usize, src: Option<usize>) -> Verdict {
    cx.count("arguments_that_meddle");
    if let Some(k) = src
        && r.chance(1, 2)
    {
        let mut st = cx.st.borrow_mut();
        let s = &mut st.strs[k];
        s.bytes = s.bytes[..s.bytes.len() / 2].to_vec();
        let b = s.bytes.clone();
        s.v.as_rstring_inner_mut().bytes = b;
        cx.op(|| format!("    (string {k} cut)"));
        return Ok(());
    }
    // The storage that the buffer stands on.
    let mut root = i;
    {
        let st = cx.st.borrow();
        while let M::Slice(p, _) = st.bufs[root].m {
            root = p;
        }
    }
    let v = cx.st.borrow().bufs[root].v;
    if r.chance(1, 2) {
        cx.op(|| format!("    (buffer {root} freed)"));
        let got = call(vm, g, v, "free", &[]);
        model_free(cx, root, &got)
    } else {
        let n = r.below(4).min(cx.st.borrow().bufs[root].size as u64);
        cx.op(|| format!("    (buffer {root} resized to {n})"));
        let got = call(vm, g, v, "resize", &[Value::integer(n as i64)]);
        model_resize(cx, root, Value::integer(n as i64), &got)
    }
}

fn model_free(cx: &Ctx, i: usize, got: &Result<Value>) -> Verdict {
    let locked = cx.st.borrow().bufs[i].locked;
    let fails: &[K] = if locked { &[K::Locked] } else { &[] };
    if let Some(v) = judge("free", got, fails, &[], false)? {
        let mut st = cx.st.borrow_mut();
        vcheck!(v == st.bufs[i].v, "free did not return the buffer");
        if st.bufs.iter().any(|b| matches!(b.m, M::Slice(p, _) if p == i)) {
            cx.count("freed_under_views");
        }
        st.gone(i, 0);
        cx.count("buffers_freed");
    } else {
        cx.count("refused_while_locked");
    }
    Ok(())
}

fn model_resize(cx: &Ctx, i: usize, arg: Value, got: &Result<Value>) -> Verdict {
    let mut st = cx.st.borrow_mut();
    let b = &st.bufs[i];
    let mut fails = vec![];
    let mut lenient = vec![];
    if b.locked {
        fails.push(K::Locked);
    }
    if arg.as_big().is_none() {
        fails.push(K::Type);
    }
    let n = int(arg, &mut fails).unwrap_or(0);
    if n < 0 {
        fails.push(K::Arg);
    }
    if n >= 1 << 47 {
        fails.extend([K::Alloc, K::Arg, K::NoMem, K::Range, K::Errno]);
    }
    match &b.m {
        M::Str(..) | M::Slice(..) | M::Map(_, _, None) => fails.push(K::Access),
        // A read-only one may be refused as well.
        _ if b.flags & READONLY != 0 => lenient.push(K::Access),
        _ => {}
    }
    let Some(v) = judge("resize", got, &fails, &lenient, false)? else {
        cx.count("resizes_refused");
        if n >= 1 << 47 {
            cx.count("impossible_sizes");
        }
        return Ok(());
    };
    vcheck!(v == st.bufs[i].v, "resize did not return the buffer");
    let mut bytes = st.read(i).unwrap();
    let page = st.page;
    let views = st.bufs.iter().any(|b| matches!(b.m, M::Slice(p, _) if p == i));
    if views && (n as usize) < bytes.len() {
        cx.count("shrunk_under_views");
    }
    bytes.resize(n as usize, 0);
    if n == 0 {
        st.gone(i, 0);
    } else {
        let b = &mut st.bufs[i];
        if matches!(b.m, M::Null) {
            b.flags = if (n as usize) < page { INTERNAL } else { MAPPED };
        }
        b.m = M::Own(bytes);
        b.size = n as usize;
    }
    cx.count("buffers_resized");
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn run(cx: &Ctx, vm: &mut Executor, g: &mut Globals, r: &mut Rng, depth: usize, i: usize, v: Value, name: &str, args: &[Value], what: &str, hooked: bool) -> Verdict {
    match name {
        "each" | "each_byte" if r.chance(4, 5) => return iterate(cx, vm, g, r, i, v, name, args, what, hooked),
        "locked" => return locked(cx, vm, g, r, depth, i, v, what),
        _ => {}
    }
    let before = if name == "transfer" { Some(call(vm, g, v, "to_s", &[])) } else { None };
    let got = call(vm, g, v, name, args);
    vm.on_to_int = None;
    // A string handed in is judged as it is now.
    let mut fails: Vec<K> = vec![];
    let mut lenient: Vec<K> = vec![];
    match name {
        "free" => return model_free(cx, i, &got),
        "resize" => return model_resize(cx, i, args[0], &got),
        _ => {}
    }
    let mut st = cx.st.borrow_mut();
    let st = &mut *st;
    let size = st.bufs[i].size;
    let bytes = st.read(i);
    let writes = matches!(name, "set_string" | "set_value" | "clear");
    if writes && st.bufs[i].flags & READONLY != 0 {
        fails.push(K::Access);
    }
    match name {
        "get_string" => {
            let (o, l) = span(args, 0, 1, size, &mut fails);
            if bytes.is_none() {
                fails.push(K::Inval);
            }
            if let Some(s) = judge(what, &got, &fails, &lenient, hooked)? {
                let want = &bytes.unwrap()[o..o + l];
                veq!(&s.as_rstring_inner().bytes[..], want, "{what}");
                let enc = match args.get(2).and_then(|v| v.try_fixnum()) {
                    Some(1) => value::Encoding::Utf8,
                    Some(2) => value::Encoding::UsAscii,
                    _ => value::Encoding::Ascii8,
                };
                vcheck!(s.as_rstring_inner().enc == Some(enc), "{what}: encoding {:?}", s.as_rstring_inner().enc);
                cx.count("spans_read");
            }
        }
        "set_string" => {
            let from = args[0].is_rstring().map(|s| s.as_bytes().to_vec());
            let own = st.strs.iter().position(|s| s.v == args[0]);
            if from.is_none() {
                fails.push(K::Type);
            }
            // The model's copy: the call may already have changed the string.
            let from = match own {
                Some(k) => st.strs[k].bytes.clone(),
                None => from.unwrap_or_default(),
            };
            let at = pos(args, 1, &mut fails).unwrap_or(0);
            let so = pos(args, 2, &mut fails).unwrap_or(0);
            let sl = pos(args, 3, &mut fails);
            if so > from.len() || sl.is_some_and(|l| so as u128 + l as u128 > from.len() as u128) {
                lenient.push(K::Arg);
            }
            let end = sl.map_or(from.len(), |l| so.saturating_add(l).min(from.len()));
            let data = from.get(so..end.max(so)).unwrap_or(&[]).to_vec();
            if at > size || at as u128 + data.len() as u128 > size as u128 {
                fails.push(K::Arg);
            }
            if bytes.is_none() {
                if data.is_empty() { lenient.extend([K::Inval, K::Arg]) } else { fails.push(K::Any) }
            }
            if let Some(n) = judge(what, &got, &fails, &lenient, hooked)? {
                vcheck!(n == Value::integer(data.len() as i64), "{what} returned {n:?}, {} bytes are to be copied", data.len());
                if let Some(k) = own
                    && !data.is_empty()
                    && root_str(st, i) == Some(k)
                {
                    cx.count("copied_onto_itself");
                }
                if !data.is_empty() {
                    st.write(i, at, &data);
                    if let M::Slice(..) = st.bufs[i].m {
                        cx.count("writes_through_views");
                    }
                }
                cx.count("strings_copied_in");
            }
        }
        "transfer" => {
            if st.bufs[i].locked {
                fails.push(K::Locked);
            }
            if let Some(n) = judge(what, &got, &fails, &lenient, hooked)? {
                vcheck!(n.is_io_buffer() && n != v, "{what} returned {n:?}");
                let b = st.bufs[i].clone();
                let was_view = matches!(b.m, M::Slice(..));
                st.gone(i, b.flags);
                st.add(n, b.m, b.size, b.flags);
                let after = call(vm, g, n, "to_s", &[]);
                if let (Some(Ok(a)), Ok(z)) = (before, &after)
                    && !was_view
                {
                    veq!(&a.as_rstring_inner().bytes, &z.as_rstring_inner().bytes, "{what}: description of the moved buffer");
                }
                cx.count("buffers_transferred");
            } else {
                cx.count("refused_while_locked");
            }
        }
        "slice" => {
            let (o, l) = span(args, 0, 1, size, &mut fails);
            if bytes.is_none() {
                lenient.extend([K::Inval, K::Arg]);
            }
            if hooked {
                // Measured before or after the buffer shrank: either will do.
                return Ok(());
            }
            if let Some(n) = judge(what, &got, &fails, &lenient, hooked)? {
                vcheck!(n.is_io_buffer() && n != v, "{what} returned {n:?}");
                let b = &st.bufs[i];
                let flags = b.flags & READONLY;
                match b.m {
                    M::Null => {
                        st.add(n, M::Null, 0, 0);
                    }
                    M::Str(s, base) => {
                        st.add(n, M::Str(s, base + o), l, flags);
                    }
                    _ => {
                        st.add(n, M::Slice(i, o), l, flags);
                        if let M::Slice(..) = st.bufs[i].m {
                            cx.count("views_of_views");
                        }
                    }
                }
                cx.count("views_taken");
            }
        }
        "clear" => {
            let val = match args.first() {
                Some(v) if !v.is_nil() => int(*v, &mut fails).unwrap_or(0),
                _ => 0,
            };
            if !(0..256).contains(&val) {
                lenient.extend([K::Range, K::Arg]);
            }
            let (o, l) = span(args, 1, 2, size, &mut fails);
            if bytes.is_none() {
                if l == 0 { lenient.extend([K::Inval, K::Arg]) } else { fails.push(K::Any) }
            }
            if let Some(n) = judge(what, &got, &fails, &lenient, hooked)? {
                vcheck!(n == v, "{what} did not return the buffer");
                if l > 0 {
                    st.write(i, o, &vec![val as u8; l]);
                    if let M::Slice(..) = st.bufs[i].m {
                        cx.count("writes_through_views");
                    }
                }
                cx.count("spans_cleared");
            }
        }
        "to_s" | "inspect" => {
            if bytes.is_none() && name == "inspect" {
                lenient.extend([K::Inval, K::Arg]);
            }
            if let Some(n) = judge(what, &got, &fails, &lenient, hooked)? {
                let s = String::from_utf8(n.as_rstring_inner().bytes.clone()).map_err(|_| Violation(format!("{what} is not text")))?;
                let (head, tail) = s.split_once('\n').unwrap_or((&s, ""));
                let b = &st.bufs[i];
                let Some(rest) = head.strip_prefix("#<IO::Buffer 0x").and_then(|h| h.strip_suffix('>')) else { vbail!("{what} gave {head}") };
                let (addr, rest) = rest.split_once('+').unwrap_or(("", rest));
                vcheck!(addr.len() == 16 && addr.bytes().all(|c| c.is_ascii_hexdigit()), "{what}: address {addr:?}");
                let mut words = rest.split(' ');
                vcheck!(words.next() == Some(&b.size.to_string()), "{what} gave {head}, size {} expected", b.size);
                let words: Vec<&str> = words.collect();
                for (w, on) in [
                    ("NULL", matches!(b.m, M::Null)),
                    ("EXTERNAL", b.flags & EXTERNAL != 0),
                    ("INTERNAL", b.flags & INTERNAL != 0),
                    ("MAPPED", b.flags & MAPPED != 0),
                    ("SHARED", b.flags & SHARED != 0),
                    ("PRIVATE", b.flags & PRIVATE != 0),
                    ("READONLY", b.flags & READONLY != 0),
                    ("LOCKED", b.locked),
                ] {
                    vcheck!(words.contains(&w) == on, "{what} gave {head}: {w} should{} be there", if on { "" } else { " not" });
                }
                if name == "inspect"
                    && let Some(bytes) = &bytes
                {
                    dump(what, tail, bytes)?;
                }
                cx.count("descriptions_read");
            }
        }
        "hexdump" => {
            if bytes.is_none() {
                fails.push(K::Any);
            }
            if let Some(n) = judge(what, &got, &fails, &lenient, hooked)? {
                let s = String::from_utf8(n.as_rstring_inner().bytes.clone()).map_err(|_| Violation(format!("{what} is not text")))?;
                dump(what, &s, &bytes.unwrap())?;
                cx.count("dumps_read");
            }
        }
        "<=>" => {
            let o = st.find(args[0]);
            let other = o.map(|o| st.read(o));
            if o.is_none() {
                fails.push(K::Type);
            }
            if bytes.is_none() || matches!(other, Some(None)) {
                fails.push(K::Any);
            }
            if let Some(n) = judge(what, &got, &fails, &lenient, hooked)? {
                let (a, b) = (bytes.unwrap(), other.unwrap().unwrap());
                let want = (a.len().cmp(&b.len())).then(a.cmp(&b)) as i64;
                vcheck!(n.try_fixnum().map(|x| x.signum()) == Some(want), "{what} gave {n:?} for {a:?} and {b:?}");
                if a.len() != b.len() {
                    cx.count("unequal_sizes_compared");
                }
                cx.count("buffers_compared");
            }
        }
        "get_value" | "set_value" => {
            let t = type_of(args[0]);
            if t.is_none() {
                fails.extend([K::Arg, K::Type]);
            }
            let t = t.unwrap_or("U8");
            let w = width(t);
            if args[1].is_nil() {
                fails.push(K::Type);
            }
            let at = pos(args, 1, &mut fails).unwrap_or(0);
            if at as u128 + w as u128 > size as u128 {
                fails.push(K::Arg);
            }
            if bytes.is_none() {
                fails.push(K::Any);
            }
            if name == "get_value" {
                if let Some(n) = judge(what, &got, &fails, &lenient, hooked)? {
                    let b = bytes.unwrap();
                    vcheck!(same_num(n, &decode(t, &b[at..at + w])), "{what} gave {n:?} for the bytes {:?}", &b[at..at + w]);
                    cx.count("numbers_read");
                }
            } else {
                let (data, len) = encode(t, args[2], &mut fails);
                if len {
                    lenient.extend([K::Range, K::Arg]);
                }
                if args[2].as_big().is_some_and(|b| b.to_i64().is_none()) && !len {
                    cx.count("numbers_beyond_signed");
                }
                if let Some(n) = judge(what, &got, &fails, &lenient, hooked)? {
                    vcheck!(n == Value::integer((at + w) as i64), "{what} returned {n:?}");
                    let nan = args[2].try_float().is_some_and(|f| f.is_nan());
                    if nan {
                        let now = call(vm, g, v, "get_value", &args[..2]);
                        vcheck!(matches!(&now, Ok(x) if x.try_float().is_some_and(|f| f.is_nan())), "{what}: NaN was not kept");
                        let now = call(vm, g, v, "get_string", &args[1..2]).map_err(|_| Violation("read back".into()))?;
                        let now = now.as_rstring_inner().bytes[..w].to_vec();
                        st.write(i, at, &now);
                    } else {
                        st.write(i, at, &data);
                    }
                    if let M::Slice(..) = st.bufs[i].m {
                        cx.count("writes_through_views");
                    }
                    cx.count("numbers_written");
                }
            }
        }
        "values" => {
            let t = type_of(args[0]);
            if t.is_none() {
                fails.extend([K::Arg, K::Type]);
            }
            let t = t.unwrap_or("U8");
            let w = width(t);
            let at = pos(args, 1, &mut fails).unwrap_or(0);
            let n = pos(args, 2, &mut fails);
            if bytes.is_none() {
                fails.push(K::Any);
            }
            let b = bytes.unwrap_or_default();
            let fit = b.len().saturating_sub(at) / w;
            if at > size || n.is_some_and(|n| n > fit) {
                lenient.push(K::Arg);
            }
            let k = n.unwrap_or(fit).min(fit);
            if let Some(x) = judge(what, &got, &fails, &lenient, hooked)? {
                let Some(a) = x.as_array() else { vbail!("{what} gave {x:?}") };
                vcheck!(a.len() == k, "{what} gave {} numbers, {k} expected", a.len());
                for (j, x) in a.iter().enumerate() {
                    let p = &b[at + j * w..at + j * w + w];
                    vcheck!(same_num(*x, &decode(t, p)), "{what}: number {j} is {x:?} for the bytes {p:?}");
                }
                cx.count("number_lists_read");
            }
        }
        "each" | "each_byte" => {
            let Some(n) = judge(what, &got, &fails, &[K::Arg, K::Type], hooked)? else { return Ok(()) };
            let Some(RValue { kind: ObjKind::Enumerator(id, recv, a), .. }) = n.rv() else { vbail!("{what} without a block gave {n:?}") };
            vcheck!(id.get_name() == name && *recv == v && a[..] == *args, "{what}: the enumerator goes over {}{a:?}", id.get_name());
            cx.count("enumerators_made");
        }
        _ => unreachable!("{name}"),
    }
    Ok(())
}

fn root_str(st: &St, i: usize) -> Option<usize> {
    match st.bufs[i].m {
        M::Str(s, _) => Some(s),
        M::Slice(p, _) => root_str(st, p),
        _ => None,
    }
}

fn dump(what: &str, s: &str, bytes: &[u8]) -> Verdict {
    let lines: Vec<&str> = s.lines().filter(|l| !l.is_empty()).collect();
    veq!(lines.len(), bytes.len().div_ceil(16), "{what}: lines of the dump");
    for (k, (l, c)) in lines.iter().zip(bytes.chunks(16)).enumerate() {
        let mut words = l.split_whitespace();
        vcheck!(words.next() == Some(&format!("0x{:08x}", k * 16)), "{what}: line {k} is {l:?}");
        for b in c {
            vcheck!(words.next() == Some(&format!("{b:02x}")), "{what}: line {k} is {l:?} for {c:?}");
        }
        let text: String = c.iter().map(|b| if (32..127).contains(b) { *b as char } else { '.' }).collect();
        vcheck!(l.ends_with(&text), "{what}: line {k} is {l:?} for {c:?}");
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn iterate(cx: &Ctx, vm: &mut Executor, g: &mut Globals, r: &mut Rng, i: usize, v: Value, name: &str, args: &[Value], what: &str, hooked: bool) -> Verdict {
    let seen: Rc<RefCell<Vec<Vec<Value>>>> = Rc::default();
    let stop = r.chance(1, 6).then(|| r.below(6) as usize);
    let s2 = seen.clone();
    let got = call_with(vm, g, Some(v), name, args, Box::new(move |_, _, a| {
        let mut s = s2.borrow_mut();
        if stop == Some(s.len()) {
            return Err(MonorubyErr::new(MonorubyErrKind::Scripted(7), "stop"));
        }
        s.push(a.to_vec());
        Ok(Value::nil())
    }));
    vm.on_to_int = None;
    let st = cx.st.borrow();
    let (mut fails, mut lenient) = (vec![], vec![]);
    let bytes = st.read(i);
    if bytes.is_none() {
        fails.push(K::Any);
    }
    let k = if name == "each" { 1 } else { 0 };
    let t = if k == 1 { type_of(args[0]) } else { Some("U8") };
    if t.is_none() {
        fails.extend([K::Arg, K::Type]);
    }
    let t = t.unwrap_or("U8");
    let w = width(t);
    let at = pos(args, k, &mut fails).unwrap_or(0);
    let n = pos(args, k + 1, &mut fails);
    let b = bytes.unwrap_or_default();
    let fit = b.len().saturating_sub(at) / w;
    if at > b.len() || n.is_some_and(|n| n > fit) {
        lenient.push(K::Arg);
    }
    let mut want = n.unwrap_or(fit).min(fit);
    let seen = seen.borrow();
    if fails.is_empty()
        && let Some(s) = stop
        && s < want
    {
        want = s;
        fails.push(K::Scripted(7));
        cx.count("loops_stopped");
    }
    let done = judge(what, &got, &fails, &lenient, hooked)?;
    if hooked && done.is_none() {
        return Ok(());
    }
    if done.is_none() && !fails.contains(&K::Scripted(7)) {
        vcheck!(seen.is_empty(), "{what} failed after calling the block");
        return Ok(());
    }
    vcheck!(done.is_none_or(|d| d == v), "{what} did not return the buffer");
    vcheck!(seen.len() == want, "{what} called the block {} times, {want} expected", seen.len());
    for (j, a) in seen.iter().enumerate() {
        let o = at + j * w;
        let num = a[a.len() - 1];
        vcheck!(a.len() == k + 1 && (k == 0 || a[0] == Value::integer(o as i64)) && same_num(num, &decode(t, &b[o..o + w])), "{what}: step {j} passed {a:?}");
    }
    cx.count("loops_followed");
    Ok(())
}

/// A block that runs a few more calls and then returns or raises.
fn script(cx: &Ctx, r: &mut Rng, depth: usize, end: Result<Value>, holder: Option<Rc<RefCell<Option<usize>>>>, m: Option<(M, u32)>) -> Block {
    let (cx, mut r) = (cx.clone(), Rng::new(r.next(), 9));
    let mut runs = 0;
    Box::new(move |vm, g, a| {
        runs += 1;
        if runs > 1 {
            cx.st.borrow_mut().bad.get_or_insert(Violation("the block was called twice".into()));
        }
        if let (Some(h), Some((m, flags))) = (&holder, &m) {
            let size = match m {
                M::Str(s, _) => cx.st.borrow().strs[*s].bytes.len(),
                _ => unreachable!(),
            };
            *h.borrow_mut() = Some(cx.st.borrow_mut().add(a[0], m.clone(), size, *flags));
        }
        for _ in 0..r.range(1, 5) {
            if let Err(b) = step(&cx, vm, g, &mut r, depth + 1) {
                cx.st.borrow_mut().bad.get_or_insert(b);
                break;
            }
        }
        end.clone()
    })
}

#[allow(clippy::too_many_arguments)]
fn locked(cx: &Ctx, vm: &mut Executor, g: &mut Globals, r: &mut Rng, depth: usize, i: usize, v: Value, what: &str) -> Verdict {
    let was = cx.st.borrow().bufs[i].locked;
    if depth >= 3 || r.chance(1, 12) {
        let got = call(vm, g, v, "locked", &[]);
        judge(what, &got, if was { &[K::Jump, K::Locked] } else { &[K::Jump] }, &[], false)?;
        return Ok(());
    }
    let end = if r.chance(1, 5) { Err(MonorubyErr::new(MonorubyErrKind::Scripted(1), "raised")) } else { Ok(Value::integer(r.below(100) as i64)) };
    let mut b = script(cx, r, depth, end.clone(), None, None);
    let cx2 = cx.clone();
    let ran = Rc::new(RefCell::new(0));
    let ran2 = ran.clone();
    let got = call_with(vm, g, Some(v), "locked", &[], Box::new(move |vm, g, a| {
        *ran2.borrow_mut() += 1;
        if a != [v] {
            cx2.st.borrow_mut().bad.get_or_insert(Violation("locked did not pass the buffer".into()));
        }
        cx2.st.borrow_mut().bufs[i].locked = true;
        b(vm, g, a)
    }));
    if was {
        judge(what, &got, &[K::Locked], &[], false)?;
        vcheck!(*ran.borrow() == 0, "{what}: the block of a refused lock ran");
        cx.count("second_locks_refused");
        return Ok(());
    }
    vcheck!(*ran.borrow() == 1, "{what}: the block ran {} times", ran.borrow());
    match (&got, &end) {
        (Ok(a), Ok(b)) => {
            vcheck!(a == b, "{what} gave {a:?}, the block gave {b:?}");
            cx.st.borrow_mut().bufs[i].locked = false;
            cx.count("locks_released");
        }
        (Err(e), Err(_)) if kind_of(e) == K::Scripted(1) => {
            cx.count("locks_left_by_errors");
        }
        _ => {
            if cx.st.borrow().bad.is_none() {
                vbail!("{what} gave {got:?}, the block {end:?}")
            }
        }
    }
    Ok(())
}

fn bits(cx: &Ctx, vm: &mut Executor, g: &mut Globals, r: &mut Rng, i: usize) -> Verdict {
    let name = *r.pick(&BIT_OPS);
    let v = cx.st.borrow().bufs[i].v;
    let args: Vec<Value> = if matches!(name, "~" | "not!") { vec![] } else { vec![buffer_arg(&cx.st.borrow(), r)] };
    let what = format!("buffer {i}.{name}{args:?}");
    cx.op(|| what.clone());
    {
        let got = call(vm, g, v, name, &args);
        let mut st = cx.st.borrow_mut();
        let mut fails = vec![];
        let mut lenient = vec![];
        let bytes = st.read(i);
        let mut mask = vec![255u8];
        if let Some(a) = args.first() {
            match st.find(*a) {
                None => fails.push(K::Type),
                Some(k) => match st.read(k) {
                    None => fails.push(K::Any),
                    Some(m) if m.is_empty() => fails.push(K::Mask),
                    Some(m) => mask = m,
                },
            }
        }
        if name.ends_with('!') && st.bufs[i].flags & READONLY != 0 {
            fails.push(K::Access);
        }
        match &bytes {
            None if st.bufs[i].size > 0 => fails.push(K::Any),
            None => lenient.extend([K::Inval, K::Arg]),
            _ => {}
        }
        if let Some(n) = judge(&what, &got, &fails, &lenient, false)? {
            let out: Vec<u8> = bytes
                .unwrap()
                .iter()
                .enumerate()
                .map(|(k, b)| {
                    let m = mask[k % mask.len()];
                    match name.as_bytes()[0] {
                        b'&' | b'a' => b & m,
                        b'|' | b'o' => b | m,
                        _ => b ^ m,
                    }
                })
                .collect();
            if out.len() > mask.len() {
                cx.count("masks_repeated");
            }
            if name.ends_with('!') {
                vcheck!(n == v, "{what} did not return the buffer");
                if !out.is_empty() {
                    st.write(i, 0, &out);
                }
                cx.count("masked_in_place");
            } else {
                vcheck!(n.is_io_buffer() && n != v, "{what} returned {n:?}");
                let size = out.len();
                // Whether an empty result is a null buffer is left open.
                let m = if size == 0 && call(vm, g, n, "null?", &[]).is_ok_and(|x| x == Value::bool(true)) { M::Null } else { M::Own(out) };
                let flags = if matches!(m, M::Null) { 0 } else { INTERNAL };
                st.add(n, m, size, flags);
                cx.count("masked_copies");
            }
        }
    }
    verify(cx, vm, g, &what)
}

/// Changes made from outside: to a string or to a mapped file.
fn outside(cx: &Ctx, r: &mut Rng) -> Verdict {
    let mut st = cx.st.borrow_mut();
    if r.chance(1, 2) {
        let k = r.us(st.files.len());
        let f = &mut st.files[k];
        if !f.private && !f.bytes.is_empty() {
            let at = r.us(f.bytes.len());
            let b = r.next() as u8;
            f.bytes[at] = b;
            let n = unsafe { libc::pwrite(f.fd, &b as *const u8 as *const _, 1, at as i64) };
            assert!(n == 1);
            cx.op(|| format!("file {k}[{at}] = {b}"));
            cx.count("files_changed_outside");
        }
    } else if !st.strs.is_empty() {
        let k = r.us(st.strs.len());
        let s = &mut st.strs[k];
        if !s.hidden {
            let n = s.bytes.len();
            let to = r.below(n as u64 + 8) as usize;
            s.bytes.resize(to, b'x');
            let b = s.bytes.clone();
            s.v.as_rstring_inner_mut().bytes = b;
            cx.op(|| format!("string {k} resized from {n} to {to}"));
            cx.count("strings_changed_outside");
        }
    }
    Ok(())
}

fn make(cx: &Ctx, vm: &mut Executor, g: &mut Globals, r: &mut Rng, depth: usize) -> Verdict {
    let what;
    match r.below(10) {
        0..=3 => {
            // new, or initialize again
            let old = {
                let st = cx.st.borrow();
                let c: Vec<usize> = (0..st.bufs.len()).filter(|i| !st.bufs[*i].lost && !st.bufs[*i].locked).collect();
                (!c.is_empty() && r.chance(1, 10)).then(|| *r.pick(&c))
            };
            let page = cx.st.borrow().page as i64;
            let mut args = vec![];
            if !r.chance(1, 60) {
                let n = match r.below(16) {
                    0 => 0,
                    1 => -3,
                    2 => *r.pick(&[1i64 << 48, 1 << 60, i64::MAX]),
                    3 => page + r.below(3) as i64 - 1,
                    _ => r.range(1, 48) as i64,
                };
                args.push(int_arg(r, n));
                if r.chance(1, 3) {
                    let f = *r.pick(&[INTERNAL, MAPPED, INTERNAL | READONLY, SHARED, 0, MAPPED | READONLY, MAPPED | PRIVATE]) as i64;
                    args.push(if r.chance(1, 10) { Value::integer(-1) } else { int_arg(r, f) });
                }
            }
            what = format!("new{args:?}");
            cx.op(|| format!("{}{what} {old:?}", "  ".repeat(depth)));
            let v = match old {
                Some(i) => cx.st.borrow().bufs[i].v,
                None => {
                    let Some(f) = g.store.class.alloc else {
                        eprintln!("no allocator was registered");
                        std::process::exit(3)
                    };
                    f(IO_BUFFER_CLASS, g)
                }
            };
            let got = call(vm, g, v, "initialize", &args);
            let (mut fails, mut lenient) = (vec![], vec![]);
            let size = match args.first() {
                None => 65536,
                Some(a) if a.as_big().is_none() => {
                    if a.is_nil() { lenient.push(K::Type) } else { fails.push(K::Type) }
                    65536
                }
                Some(a) => int(*a, &mut fails).unwrap_or(0),
            };
            if size < 0 {
                fails.push(K::Arg);
            }
            if size >= 1 << 47 {
                fails.extend([K::Alloc, K::Arg, K::NoMem, K::Range, K::Errno]);
                cx.count("impossible_sizes");
            }
            let flags = match args.get(1) {
                Some(f) if !f.is_nil() => {
                    match f.try_fixnum() {
                        None => fails.extend([K::Type, K::Range, K::Arg]),
                        Some(x) if x < 0 => fails.push(K::Arg),
                        Some(x) if x as u32 & (INTERNAL | MAPPED) == 0 => {
                            if size == 0 { lenient.push(K::Alloc) } else { fails.push(K::Alloc) }
                        }
                        _ => {}
                    }
                    f.try_fixnum().unwrap_or(0) as u32
                }
                _ => {
                    if size < page {
                        INTERNAL
                    } else {
                        MAPPED
                    }
                }
            };
            if let Some(x) = judge(&what, &got, &fails, &lenient, false)? {
                let _ = x;
                let mut st = cx.st.borrow_mut();
                let (m, flags) = if size == 0 { (M::Null, 0) } else { (M::Own(vec![0; size as usize]), flags) };
                match old {
                    Some(i) => {
                        st.gone(i, 0);
                        let b = &mut st.bufs[i];
                        (b.m, b.size, b.flags) = (m, size as usize, flags);
                        cx.count("buffers_made_again");
                    }
                    None => {
                        st.add(v, m, size as usize, flags);
                    }
                }
                cx.count("buffers_made");
            } else if old.is_none() {
                cx.st.borrow_mut().add(v, M::Null, 0, 0);
            }
        }
        4 | 5 => {
            // for
            let b = payload(r);
            let mut s = Value::bytes(b.clone());
            if r.chance(1, 20) {
                what = "for(1)".to_string();
                let f = arity(g, true, "for", 1);
                let got = f(vm, g, Lfp::new(Value::nil(), &[Value::integer(1)], false), BytecodePtr);
                judge(&what, &got, &[K::Type], &[], false)?;
                return Ok(());
            }
            let frozen = r.chance(1, 5);
            s.rv_mut().frozen = frozen;
            let k = {
                let mut st = cx.st.borrow_mut();
                st.strs.push(S { v: s, bytes: b.clone(), hidden: false });
                st.strs.len() - 1
            };
            what = format!("for(string {k})");
            cx.op(|| format!("{}{what}", "  ".repeat(depth)));
            if r.chance(1, 2) || depth >= 2 {
                let f = arity(g, true, "for", 1);
                let got = f(vm, g, Lfp::new(Value::nil(), &[s], false), BytecodePtr);
                if let Some(v) = judge(&what, &got, &[], &[], false)? {
                    let mut st = cx.st.borrow_mut();
                    st.strs.push(S { v: Value::nil(), bytes: b.clone(), hidden: true });
                    let k = st.strs.len() - 1;
                    st.add(v, M::Str(k, 0), b.len(), EXTERNAL | READONLY);
                    cx.count("strings_copied_for_reading");
                }
            } else {
                let end = if r.chance(1, 6) { Err(MonorubyErr::new(MonorubyErrKind::Scripted(2), "raised")) } else { Ok(Value::integer(r.below(100) as i64)) };
                let h: Rc<RefCell<Option<usize>>> = Rc::default();
                let flags = EXTERNAL | if frozen { READONLY } else { 0 };
                let bl = script(cx, r, depth, end.clone(), Some(h.clone()), Some((M::Str(k, 0), flags)));
                let got = call_with(vm, g, None, "for", &[s], bl);
                settle(cx, &what, &got, end.map(Some), *h.borrow())?;
                if let Some(i) = *h.borrow() {
                    let mut st = cx.st.borrow_mut();
                    st.bufs[i].locked = false;
                    st.gone(i, 0);
                }
                cx.count("strings_opened");
            }
        }
        6 => {
            // string
            let n = match r.below(10) {
                0 => -1,
                1 => *r.pick(&[1i64 << 50, i64::MAX]),
                _ => r.below(40) as i64,
            };
            let a = int_arg(r, n);
            let mut fails = vec![];
            let len = int(a, &mut fails).unwrap_or(0);
            if len < 0 {
                fails.push(K::Arg);
            }
            if len >= 1 << 47 {
                fails.extend([K::Alloc, K::Arg, K::NoMem, K::Range]);
                cx.count("impossible_sizes");
            }
            what = format!("string({a:?})");
            cx.op(|| format!("{}{what}", "  ".repeat(depth)));
            if !fails.is_empty() || depth >= 2 || r.chance(1, 10) {
                let with = !fails.is_empty();
                if !with {
                    fails.push(K::Jump);
                } else {
                    fails.push(K::Jump);
                }
                let f = arity(g, true, "string", 1);
                if with {
                    let got = call_with(vm, g, None, "string", &[a], Box::new(|_, _, _| Ok(Value::nil())));
                    judge(&what, &got, &fails, &[], false)?;
                } else {
                    let got = f(vm, g, Lfp::new(Value::nil(), &[a], false), BytecodePtr);
                    judge(&what, &got, &fails, &[], false)?;
                }
                return Ok(());
            }
            let k = {
                let mut st = cx.st.borrow_mut();
                st.strs.push(S { v: Value::nil(), bytes: vec![0; len as usize], hidden: true });
                st.strs.len() - 1
            };
            let end: Result<Value> = if r.chance(1, 6) { Err(MonorubyErr::new(MonorubyErrKind::Scripted(3), "raised")) } else { Ok(Value::nil()) };
            let h: Rc<RefCell<Option<usize>>> = Rc::default();
            let bl = script(cx, r, depth, end.clone(), Some(h.clone()), Some((M::Str(k, 0), EXTERNAL)));
            let got = call_with(vm, g, None, "string", &[a], bl);
            settle(cx, &what, &got, end.map(|_| None), *h.borrow())?;
            let mut st = cx.st.borrow_mut();
            let i = h.borrow().unwrap();
            if let Ok(s) = &got {
                veq!(&s.as_rstring_inner().bytes, &st.strs[k].bytes, "{what}: the string that was built");
                vcheck!(s.as_rstring_inner().enc == Some(value::Encoding::Ascii8), "{what}: the string is not binary");
                st.strs[k].v = *s;
                st.strs[k].hidden = false;
                st.bufs[i].locked = false;
                st.gone(i, 0);
                cx.count("strings_built");
            } else if !matches!(st.bufs[i].m, M::Null) && call(vm, g, st.bufs[i].v, "null?", &[]).is_ok_and(|x| x == Value::bool(true)) {
                st.bufs[i].locked = false;
                st.gone(i, 0);
            }
        }
        7 | 8 => return map(cx, vm, g, r, depth),
        _ => {
            // dup
            let mut st = cx.st.borrow_mut();
            let c: Vec<usize> = (0..st.bufs.len()).filter(|i| !st.bufs[*i].lost && !st.bufs[*i].locked).collect();
            if c.is_empty() {
                return Ok(());
            }
            let i = *r.pick(&c);
            what = format!("buffer {i} copied");
            cx.op(|| what.clone());
            let v = Value::new_io_buffer(st.bufs[i].v.as_io_buffer_inner().clone());
            let b = st.bufs[i].clone();
            let m = match b.m {
                M::Map(..) => M::Own(st.read(i).unwrap()),
                m => m,
            };
            st.add(v, m, b.size, b.flags);
            cx.count("buffers_copied");
        }
    }
    if let Some(b) = cx.st.borrow_mut().bad.take() {
        return Err(b);
    }
    verify(cx, vm, g, &what)
}

fn settle(cx: &Ctx, what: &str, got: &Result<Value>, end: Result<Option<Value>>, ran: Option<usize>) -> Verdict {
    if cx.st.borrow().bad.is_some() {
        return Err(cx.st.borrow_mut().bad.take().unwrap());
    }
    vcheck!(ran.is_some(), "{what}: the block did not run ({got:?})");
    match (got, &end) {
        (Ok(a), Ok(b)) => vcheck!(b.is_none_or(|b| b == *a), "{what} gave {a:?}, the block {b:?}"),
        (Err(a), Err(b)) => {
            vcheck!(a.kind == b.kind, "{what} failed with {a:?}, the block with {b:?}");
            cx.count("blocks_that_raised");
        }
        _ => vbail!("{what} gave {got:?}, the block {end:?}"),
    }
    Ok(())
}

fn map(cx: &Ctx, vm: &mut Executor, g: &mut Globals, r: &mut Rng, depth: usize) -> Verdict {
    let (k, fsize, private, fd, ro, page) = {
        let st = cx.st.borrow();
        let k = r.us(st.files.len());
        let f = &st.files[k];
        (k, f.bytes.len() as i64, f.private, f.fd, f.ro, st.page as i64)
    };
    let readonly_fd = r.chance(1, 6) && ro >= 0;
    let fd = if readonly_fd { ro } else { fd };
    let mut args = vec![];
    let kind = r.below(12);
    args.push(match kind {
        0 => Value::with_fileno(fd),
        1 => *r.pick(&[Value::nil(), Value::bytes(b"x".to_vec())]),
        _ => Value::io(fd),
    });
    let n = r.range(1, 4);
    let mut flags = if private { PRIVATE } else { 0 };
    if r.chance(1, 3) {
        flags |= READONLY;
    }
    let need_flags = flags != 0 || n == 3;
    args.push(match r.below(10) {
        0..=3 => Value::nil(),
        4 => Value::integer(0),
        5 => Value::integer(fsize + r.below(2) as i64),
        6 => Value::integer(*r.pick(&[-1i64, i64::MAX, page])),
        7 => Value::float(1.0),
        _ => Value::integer(r.range(1, (fsize as u64).max(2)) as i64),
    });
    args.push(match r.below(10) {
        0 => Value::integer(-1),
        1 => Value::integer(*r.pick(&[i64::MAX, i64::MAX & !4095, fsize])),
        2 => Value::integer(r.below(page as u64) as i64),
        3 => Value::nil(),
        4 => Value::integer(page),
        5 => Value::integer(2 * page),
        _ => Value::integer(0),
    });
    args.push(Value::integer(flags as i64));
    if !need_flags {
        args.truncate(n as usize);
    }
    let what = format!("map(file {k} of {fsize}, {:?}{})", &args[1..], if readonly_fd { ", opened for reading" } else { "" });
    cx.op(|| format!("{}{what}", "  ".repeat(depth)));
    let f = arity(g, true, "map", args.len());
    let got = f(vm, g, Lfp::new(Value::nil(), &args, false), BytecodePtr);
    let mut fails = vec![];
    let mut lenient = vec![];
    if kind == 1 {
        fails.push(K::Type);
    }
    let off = match args.get(2) {
        None => 0,
        Some(v) if v.is_nil() => {
            fails.push(K::Type);
            0
        }
        Some(v) => int(*v, &mut fails).unwrap_or(0),
    };
    if off < 0 {
        fails.push(K::Arg);
    }
    let size = match args.get(1) {
        Some(v) if !v.is_nil() => {
            if v.as_big().is_none() {
                fails.push(K::Type);
            }
            let s = int(*v, &mut fails).unwrap_or(1);
            if s <= 0 {
                fails.push(K::Arg);
            }
            s
        }
        _ => (fsize as i128 - off as i128) as i64,
    };
    if size <= 0 || size as i128 + off as i128 > fsize as i128 {
        fails.push(K::Arg);
    }
    if off % page != 0 {
        fails.extend([K::Errno, K::Arg]);
    }
    if readonly_fd && flags & (READONLY | PRIVATE) == 0 {
        fails.extend([K::Errno, K::Access]);
    }
    let _ = &mut lenient;
    if let Some(v) = judge(&what, &got, &fails, &lenient, false)? {
        let mut st = cx.st.borrow_mut();
        let (o, n) = (off as usize, size as usize);
        let copy = private.then(|| st.files[k].bytes[o..o + n].to_vec());
        let mut fl = if private { MAPPED | PRIVATE } else { EXTERNAL | MAPPED | SHARED };
        fl |= flags & READONLY;
        st.add(v, M::Map(k, o, copy), n, fl);
        cx.count("files_mapped");
        if o > 0 {
            cx.count("files_mapped_at_offset");
        }
    } else {
        cx.count("mappings_refused");
    }
    verify(cx, vm, g, &what)
}

fn mappings() -> usize {
    std::fs::read_to_string("/proc/self/maps").map_or(0, |s| s.lines().filter(|l| l.contains("vh-c37")).count())
}

fn body(case: &mut Case) -> Verdict {
    reset_heap();
    let mut g = Globals::default();
    let mut vm = Executor::default();
    builtins::init(&mut g);
    let page = g.consts.get("PAGE_SIZE").and_then(|v| v.try_fixnum()).unwrap_or(0);
    vcheck!(page == unsafe { libc::sysconf(libc::_SC_PAGESIZE) }, "PAGE_SIZE is {page}");
    for (n, x) in [("EXTERNAL", 1), ("INTERNAL", 2), ("MAPPED", 4), ("SHARED", 8), ("PRIVATE", 64), ("READONLY", 128), ("DEFAULT_SIZE", 65536)] {
        vcheck!(g.consts.get(n) == Some(&Value::integer(x)), "{n} is {:?}", g.consts.get(n));
    }
    let mut r = Rng::new(case.rng.next(), 1);
    let mut files = vec![];
    for private in [false, true] {
        let n = match r.below(4) {
            0 => r.range(1, 64) as usize,
            1 => page as usize,
            2 => page as usize + r.range(1, 64) as usize,
            _ => 2 * page as usize + r.range(1, 64) as usize,
        };
        let bytes: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31) ^ r.next() as u8).collect();
        let fd = unsafe { libc::memfd_create(c"vh-c37".as_ptr(), 0) };
        if fd < 0 {
            eprintln!("memfd_create failed");
            std::process::exit(3);
        }
        let w = unsafe { libc::pwrite(fd, bytes.as_ptr() as *const _, n, 0) };
        assert!(w == n as isize);
        let path = format!("/proc/self/fd/{fd}\0");
        let ro = unsafe { libc::open(path.as_ptr() as *const _, libc::O_RDONLY) };
        files.push(F { fd, ro, bytes, private });
    }
    let st = Rc::new(RefCell::new(St { bufs: vec![], strs: vec![], files, bad: None, page: page as usize }));
    let cx = Ctx { st: st.clone(), case: case as *mut Case };
    let steps = r.range(4, if case.thorough { 60 } else { 30 });
    let mut out = Ok(());
    for _ in 0..steps {
        vh::step();
        out = step(&cx, &mut vm, &mut g, &mut r, 0);
        if out.is_err() {
            break;
        }
    }
    vm.block = None;
    let sig = st.borrow().bufs.iter().fold(0u64, |h, b| h.wrapping_mul(131).wrapping_add(b.size as u64 * 7 + b.flags as u64));
    case.sig(sig);
    case.nontrivial();
    for f in &st.borrow().files {
        unsafe {
            libc::close(f.fd);
            if f.ro >= 0 {
                libc::close(f.ro);
            }
        }
    }
    reset_heap();
    out?;
    if case.rng.chance(1, 8) {
        veq!(mappings(), 0, "files still mapped after every buffer is gone");
        case.count("mappings_all_released");
    }
    Ok(())
}
fn main() {
    vh::main_loop("C37", body);
}
