//! Arrays against a model.
//!
//! The real array class runs between a small stand-in interpreter and a plain
//! list.  Every call is also made on the model: answer, contents, block calls
//! and errors must agree.  Callbacks raise at a chosen moment, or change the
//! receiver while the call is under way.

#![allow(dead_code, unused_imports)]

#[path = "../ary_world.rs"]
pub mod world;

pub mod globals {
    pub use crate::world::Store;
}
pub mod rubymap {
    pub use crate::world::{RubyEql, RubyHash};
}
pub mod value {
    use crate::world::*;
    use std::cell::RefCell;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Encoding {
        Ascii8,
        Utf8,
        UsAscii,
        Latin1,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum CodeRange {
        SevenBit,
        Valid,
        Broken,
        Unknown,
    }
    impl Encoding {
        pub fn compatible(a: Encoding, ca: CodeRange, b: Encoding, cb: CodeRange) -> Option<Encoding> {
            if a == b || cb == CodeRange::SevenBit {
                Some(a)
            } else if ca == CodeRange::SevenBit {
                Some(b)
            } else {
                None
            }
        }
    }
    #[derive(Clone, Debug)]
    pub struct RStringInner {
        pub bytes: Vec<u8>,
        pub enc: Encoding,
    }
    impl RStringInner {
        pub fn from_encoding(b: &[u8], enc: Encoding) -> Self {
            RStringInner { bytes: b.to_vec(), enc }
        }
        pub fn from_encoding_scanned(b: &[u8], enc: Encoding) -> Self {
            RStringInner { bytes: b.to_vec(), enc }
        }
        pub fn from_str_scanned(s: &str) -> Self {
            RStringInner { bytes: s.as_bytes().to_vec(), enc: Encoding::Utf8 }
        }
        pub fn from_str(s: &str) -> Self {
            Self::from_str_scanned(s)
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.bytes
        }
        pub fn len(&self) -> usize {
            self.bytes.len()
        }
        pub fn is_empty(&self) -> bool {
            self.bytes.is_empty()
        }
        pub fn encoding(&self) -> Encoding {
            self.enc
        }
        pub fn code_range(&self) -> CodeRange {
            if self.bytes.is_ascii() {
                CodeRange::SevenBit
            } else if self.enc == Encoding::Utf8 && std::str::from_utf8(&self.bytes).is_err() || self.enc == Encoding::UsAscii {
                CodeRange::Broken
            } else {
                CodeRange::Valid
            }
        }
        pub fn check_utf8(&self) -> Result<&str> {
            std::str::from_utf8(&self.bytes).map_err(|_| MonorubyErr::argumenterr("invalid byte sequence"))
        }
    }
    thread_local! {
        static ONE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        static TWO: RefCell<HashSet<(u64, u64)>> = RefCell::new(HashSet::new());
    }
    pub fn guards_left() -> usize {
        ONE.with_borrow_mut(|s| std::mem::take(s)).len() + TWO.with_borrow_mut(|s| std::mem::take(s)).len()
    }
    pub fn exec_recursive<F: FnOnce() -> Result<Value>>(id: u64, f: F, on: Value) -> Result<Value> {
        if !ONE.with_borrow_mut(|s| s.insert(id)) {
            return Ok(on);
        }
        let r = f();
        ONE.with_borrow_mut(|s| s.remove(&id));
        r
    }
    pub fn exec_recursive_outer_unregistered<T, F: FnOnce() -> Result<T>>(f: F, _: T) -> Result<T> {
        f()
    }
    pub fn exec_recursive_outer<T, F: FnOnce() -> Result<T>>(_: u64, f: F, _: T) -> Result<T> {
        f()
    }
    pub fn exec_recursive_paired<F: FnOnce() -> Result<Value>>(a: u64, b: u64, f: F, on: Value) -> Result<Value> {
        if !TWO.with_borrow_mut(|s| s.insert((a, b))) {
            return Ok(on);
        }
        let r = f();
        TWO.with_borrow_mut(|s| s.remove(&(a, b)));
        r
    }
    pub fn escape_unicode_noncompat_component(_: &RStringInner) -> Option<String> {
        None
    }
    pub fn escape_nonascii_to_u(s: &str) -> String {
        s.to_string()
    }
    pub mod rvalue {
        use crate::world::*;
        mod array {
            use super::monoruby_object;
            include!("/repo/monoruby/src/value/rvalue/array.rs");
            impl Clone for Array {
                fn clone(&self) -> Self {
                    *self
                }
            }
            impl Copy for Array {}
            impl Array {
                pub fn wrap(v: Value) -> Self {
                    Array(v)
                }
                pub fn as_val(&self) -> Value {
                    self.0
                }
            }
            impl std::ops::Deref for Array {
                type Target = ArrayInner;
                fn deref(&self) -> &ArrayInner {
                    // The object outlives the handle, as in the interpreter.
                    unsafe { &*(self.0.as_array_inner() as *const ArrayInner) }
                }
            }
            impl std::ops::DerefMut for Array {
                fn deref_mut(&mut self) -> &mut ArrayInner {
                    self.0.write_barrier_bulk();
                    unsafe { &mut *(self.0.as_array_inner_mut() as *mut ArrayInner) }
                }
            }
            impl From<Array> for Value {
                fn from(a: Array) -> Value {
                    a.0
                }
            }
            impl std::fmt::Debug for Array {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.0.fmt(f)
                }
            }
        }
        pub use array::*;
        use plain_attr::monoruby_object;
        pub fn pack(_: &mut Executor, _: &mut Globals, _: &[Value], _: &str, _: Option<Value>) -> Result<Value> {
            Ok(Value::nil())
        }
    }
}
pub mod executor {
    pub mod op {
        use crate::world::*;
        #[path = "/repo/monoruby/src/executor/op/sort.rs"]
        mod sort;
        pub(crate) use sort::*;
        pub fn add_values(vm: &mut Executor, g: &mut Globals, a: Value, b: Value, _: bool) -> Option<Value> {
            vm.dispatch(g, IdentId::_ADD, a, &[b]).map_err(|e| vm.set_error(e)).ok()
        }
        pub fn cmp_teq_values_bool(vm: &mut Executor, g: &mut Globals, a: Value, b: Value) -> Result<bool> {
            if let Some(re) = a.is_regex() {
                if let Some(s) = b.as_thing().and_then(|t| t.to_str) {
                    vm.called(g, "to_str", b, &[])?;
                    return Ok(plain_to_s(s).contains(&re.0));
                }
                return Ok((b.is_rstring_inner().is_some() || b.try_symbol().is_some()) && plain_to_s(b).contains(&re.0));
            }
            vm.eq_values_bool(g, a, b)
        }
    }
}
pub mod builtins {
    use crate::executor;
    use crate::executor::op::{self, cmp_teq_values_bool};
    use crate::inline_gen2;
    use crate::rubymap;
    use crate::value::rvalue;
    use crate::world::*;
    use plain_attr::monoruby_builtin;
    pub mod encoding {
        pub fn inspect_escape_nonascii(_: &mut crate::world::Globals) -> bool {
            false
        }
    }
    pub mod random {
        use crate::world::*;
        pub struct RandomDraw(u64, Value);
        impl RandomDraw {
            pub fn new(_: &Globals, v: Value) -> Self {
                match &v.rv().unwrap().kind {
                    ObjKind::Random(s) => RandomDraw(*s.borrow(), v),
                    _ => panic!("a Random was expected"),
                }
            }
            pub fn ulong_limited(&mut self, limit: u64) -> u64 {
                self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(99);
                (self.0 >> 33) % (limit + 1)
            }
            pub fn finish(self, _: &mut Globals) -> Result<()> {
                if let ObjKind::Random(s) = &self.1.rv().unwrap().kind {
                    *s.borrow_mut() = self.0;
                }
                Ok(())
            }
        }
    }
    #[path = "/repo/monoruby/src/builtins/array.rs"]
    pub mod array;
    pub fn init(g: &mut Globals) {
        array::init(g);
    }
}

use num::BigInt;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;
use vh::{Case, Verdict, vbail, vcheck};
use world::*;

// ---------------------------------------------------------------- the model

/// What a call must answer.
#[derive(Clone, Debug)]
enum Res {
    Me,
    Val(Value),
    /// Comparable to this one: any of several equal extremes will do.
    Tie(Value, Value),
    Int(i64),
    Bool(bool),
    Num(Value),
    Text(String),
    /// A new array of the plain class.
    New(Vec<Res>),
    /// A new array of the receiver's class.
    Like(Vec<Value>),
    Table(Vec<(Value, Res)>),
    /// The given elements, each once, in an order the keys allow.
    Sorted(Vec<(Value, Value)>, bool),
    Lazy(Option<i64>),
    Any,
}
use Res::*;

fn new(v: Vec<Value>) -> Res {
    New(v.into_iter().map(Val).collect())
}
fn nil() -> Res {
    Val(Value::nil())
}

/// How blocks answer: from a fixed set, by the look of their arguments.
#[derive(Clone)]
struct Sim {
    answers: Vec<Value>,
    salt: u64,
    raise_at: u32,
    calls: u32,
    compare: Option<i64>,
    trace: Vec<Vec<Value>>,
}
fn look(v: Value, depth: u32) -> u64 {
    match v.unpack() {
        RV::Float(f) => f.to_bits() ^ 3,
        RV::BigInt(b) => b.to_string().bytes().fold(5, |h, c| h * 7 + c as u64 & 0xffff_ffff),
        RV::Object(RValue { kind: ObjKind::Array(a), .. }) if depth < 4 => {
            a.iter().fold(11 + a.len() as u64, |h, x| h.wrapping_mul(0x9e37_79b9).wrapping_add(look(*x, depth + 1)))
        }
        RV::Object(RValue { kind: ObjKind::Array(_), .. }) => 1,
        RV::Object(RValue { kind: ObjKind::Str(s), .. }) => s.as_bytes().iter().fold(9u64, |h, b| h.wrapping_mul(31) + *b as u64),
        RV::Object(RValue { kind: ObjKind::Thing(t), .. }) => t.key as u64 ^ 0x55,
        RV::Object(_) => 2,
        _ => v.bits(),
    }
}
impl Sim {
    fn call(&mut self, args: &[Value]) -> Result<Value> {
        self.calls += 1;
        self.trace.push(args.iter().map(|v| frozen_view(*v)).collect());
        if self.calls == self.raise_at {
            return Err(MonorubyErr::new(Kind::Scripted(1), "scripted"));
        }
        if let Some(sign) = self.compare {
            return Ok(match m_cmp(args[0], args[1]) {
                None => Value::nil(),
                Some(o) => match self.salt % 3 {
                    0 => Value::integer(o as i64 * sign),
                    1 => Value::integer(o as i64 * sign * 77),
                    _ => Value::bigint(BigInt::from(o as i64 * sign) * BigInt::from(i64::MAX) * BigInt::from(9)),
                },
            });
        }
        let h = args.iter().fold(self.salt, |h, v| h.wrapping_mul(0xff51_afd7_ed55_8ccd).wrapping_add(look(*v, 0)));
        let h = (h ^ (h >> 31)).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        Ok(self.answers[(h >> 40) as usize % self.answers.len()])
    }
}
/// Arrays handed to a block are remembered as they were at that moment.
fn frozen_view(v: Value) -> Value {
    match v.try_array_ty() {
        Some(a) => Value::array_from_slice(&a),
        None => v,
    }
}
/// The same object, or indistinguishable boxed numbers, or arrays of such.
fn same(a: Value, b: Value) -> bool {
    if a == b {
        return true;
    }
    match (a.unpack(), b.unpack()) {
        (RV::Float(x), RV::Float(y)) => x == y || x.is_nan() && y.is_nan(),
        (RV::BigInt(x), RV::BigInt(y)) => x == y,
        (RV::Object(x), RV::Object(y)) => match (&x.kind, &y.kind) {
            (ObjKind::Array(x), ObjKind::Array(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(*p, *q)),
            (ObjKind::Str(x), ObjKind::Str(y)) => x.as_bytes() == y.as_bytes(),
            _ => false,
        },
        _ => false,
    }
}
/// The same object; boxed numbers may be copies.
fn ident(a: Value, b: Value) -> bool {
    a == b || matches!((a.unpack(), b.unpack()), (RV::Float(_), RV::Float(_)) | (RV::BigInt(_), RV::BigInt(_))) && same(a, b)
}
fn m_eq(a: Value, b: Value) -> bool {
    match (a.try_array_ty(), b.try_array_ty()) {
        (Some(x), Some(y)) => a == b || x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| m_eq(*p, *q)),
        (None, None) => plain_eq(a, b),
        _ => false,
    }
}
fn m_eql(a: Value, b: Value) -> bool {
    match (a.try_array_ty(), b.try_array_ty()) {
        (Some(x), Some(y)) => a == b || x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| m_eql(*p, *q)),
        (None, None) => a == b || plain_eql(a, b),
        _ => false,
    }
}
fn m_cmp(a: Value, b: Value) -> Option<Ordering> {
    match (a.try_array_ty(), b.try_array_ty()) {
        (Some(x), Some(y)) => m_cmp_lists(&x, &y),
        (Some(x), None) => m_cmp_lists(&x, &m_check_ary(b).ok()??),
        (None, None) => plain_cmp(a, b),
        _ => None,
    }
}
fn m_cmp_lists(x: &[Value], y: &[Value]) -> Option<Ordering> {
    for (p, q) in x.iter().zip(y.iter()) {
        match m_cmp(*p, *q) {
            Some(Ordering::Equal) => {}
            o => return o,
        }
    }
    Some(x.len().cmp(&y.len()))
}
fn m_inspect(v: Value) -> String {
    match v.try_array_ty() {
        Some(a) => m_inspect_list(&a),
        None => plain_inspect(v),
    }
}
fn m_inspect_list(a: &[Value]) -> String {
    format!("[{}]", a.iter().map(|v| m_inspect(*v)).collect::<Vec<_>>().join(", "))
}
fn m_teq(pat: Value, v: Value) -> bool {
    match pat.is_regex() {
        Some(re) if v.as_thing().is_some_and(|t| t.to_str.is_some()) => plain_to_s(v.as_thing().unwrap().to_str.unwrap()).contains(&re.0),
        Some(re) => (v.is_rstring_inner().is_some() || v.try_symbol().is_some()) && plain_to_s(v).contains(&re.0),
        None => m_eq(pat, v),
    }
}
fn has(list: &[Value], v: Value) -> bool {
    list.iter().any(|x| m_eql(*x, v))
}
fn m_uniq(list: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = Vec::new();
    for v in list {
        if !has(&out, *v) {
            out.push(*v);
        }
    }
    out
}
fn err<T>(k: Kind) -> Result<T> {
    Err(MonorubyErr::new(k, "model"))
}
fn m_int(v: Value) -> Result<i64> {
    match v.unpack() {
        RV::Fixnum(i) => Ok(i),
        RV::BigInt(b) => num::ToPrimitive::to_i64(b).map_or_else(|| err(Kind::Range), Ok),
        RV::Float(f) if f.is_finite() && f.abs() < 1e18 => Ok(f as i64),
        RV::Float(_) => err(Kind::Range),
        _ => v.as_thing().and_then(|t| t.to_int).map_or_else(|| err(Kind::Type), Ok),
    }
}
/// `to_ary` where it is optional: nil means the value is not a list.
fn m_check_ary(v: Value) -> Result<Option<Vec<Value>>> {
    if let Some(a) = v.try_array_ty() {
        return Ok(Some(a.to_vec()));
    }
    match v.as_thing().and_then(|t| t.to_ary) {
        None => Ok(None),
        Some(x) if x.is_nil() => Ok(None),
        Some(x) => match x.try_array_ty() {
            Some(a) => Ok(Some(a.to_vec())),
            None => err(Kind::Type),
        },
    }
}
fn m_ary(v: Value) -> Result<Vec<Value>> {
    match m_check_ary(v)? {
        Some(a) => Ok(a),
        None => err(Kind::Type),
    }
}
fn m_index(i: i64, len: usize) -> Option<usize> {
    let i = if i < 0 { i + len as i64 } else { i };
    (i >= 0 && i < len as i64).then_some(i as usize)
}
/// Start and length of a range; None when it starts outside.
fn m_range(r: &RangeInner, len: usize, cap: bool) -> Result<Option<(i64, i64)>> {
    let mut beg = if r.a.is_nil() { 0 } else { m_int(r.a)? };
    let mut end = if r.b.is_nil() { -1 } else { m_int(r.b)? } as i128;
    let excl = r.excl && !r.b.is_nil();
    let n = len as i64;
    if beg < 0 {
        beg += n;
        if beg < 0 {
            return Ok(None);
        }
    }
    if end < 0 {
        end += n as i128;
    }
    if !excl {
        end += 1;
    }
    if cap {
        if beg > n {
            return Ok(None);
        }
        end = end.min(n as i128);
    }
    Ok(Some((beg, (end - beg as i128).clamp(0, i64::MAX as i128) as i64)))
}
fn m_sub(m: &[Value], beg: i64, len: i64) -> Option<Vec<Value>> {
    if beg < 0 || beg as usize > m.len() || len < 0 {
        return None;
    }
    let b = beg as usize;
    Some(m[b..b + (len as usize).min(m.len() - b)].to_vec())
}
const HUGE: i64 = 1 << 60;
fn m_splice(m: &mut Vec<Value>, beg: i64, len: i64, with: &[Value]) -> Result<()> {
    if len < 0 {
        return err(Kind::Index);
    }
    let beg = if beg < 0 { beg + m.len() as i64 } else { beg };
    if beg < 0 || beg >= HUGE {
        return err(Kind::Index);
    }
    let b = beg as usize;
    if b >= m.len() {
        m.resize(b, Value::nil());
        m.extend_from_slice(with);
    } else {
        let e = b + (len as usize).min(m.len() - b);
        m.splice(b..e, with.iter().copied());
    }
    Ok(())
}
fn m_flatten(m: &[Value], depth: i64, out: &mut Vec<Value>, changed: &mut bool) -> Result<()> {
    for v in m {
        match if depth == 0 { None } else { m_check_ary(*v)? } {
            Some(a) => {
                *changed = true;
                m_flatten(&a, (depth - 1).max(-1), out, changed)?;
            }
            None => out.push(*v),
        }
    }
    Ok(())
}
fn m_join(m: &[Value], sep: &str, out: &mut String) -> Result<()> {
    for (i, v) in m.iter().enumerate() {
        if i > 0 {
            out.push_str(sep);
        }
        let t = v.as_thing();
        if let Some(a) = v.try_array_ty() {
            m_join(&a, sep, out)?;
        } else if let Some(s) = t.and_then(|t| t.to_str).filter(|s| !s.is_nil()) {
            out.push_str(&plain_to_s(s));
        } else if let Some(a) = m_check_ary(*v)? {
            m_join(&a, sep, out)?;
        } else {
            out.push_str(&plain_to_s(t.and_then(|t| t.to_s).unwrap_or(*v)));
        }
    }
    Ok(())
}

/// One call on the model.  `m` is the receiver's contents.
struct Ctx<'a> {
    m: &'a mut Vec<Value>,
    me: Value,
    class: ClassId,
    a: &'a [Value],
    sim: Option<&'a mut Sim>,
}
impl Ctx<'_> {
    fn blk(&mut self, args: &[Value]) -> Result<Value> {
        self.sim.as_mut().unwrap().call(args)
    }
    fn yes(&mut self, args: &[Value]) -> Result<bool> {
        Ok(self.blk(args)?.as_bool())
    }
    fn block(&self) -> bool {
        self.sim.is_some()
    }
    /// Keys of all elements, in order.
    fn keys(&mut self) -> Result<Vec<Value>> {
        (0..self.m.len()).map(|i| self.blk(&[self.m[i]])).collect()
    }
    fn count_arg(&self, i: usize) -> Result<usize> {
        let n = m_int(self.a[i])?;
        if n < 0 { err(Kind::Argument) } else { Ok((n as u64).min(1 << 62) as usize) }
    }
}

/// How a method's block calls are judged.
#[derive(Clone, Copy, PartialEq)]
enum Calls {
    Exact,
    /// The order and number of calls are left open.
    Free,
}

/// Methods that change their receiver.
const MUTATORS: &[&str] = &[
    "shift", "unshift", "prepend", "concat", "<<", "push", "append", "pop", "[]=", "clear", "fill", "filter!", "select!", "keep_if",
    "reject!", "delete_if", "sort!", "sort_by!", "reverse!", "rotate!", "uniq!", "slice!", "flatten!", "compact!", "shuffle!", "delete",
    "delete_at", "insert", "replace", "initialize_copy", "__init_fill", "__init_from",
];

fn extreme(m: &[Value], want: Ordering, cmp: &mut dyn FnMut(Value, Value) -> Result<Ordering>) -> Result<Option<Value>> {
    let mut best: Option<Value> = None;
    for v in m {
        match best {
            None => best = Some(*v),
            Some(b) => {
                if cmp(*v, b)? == want {
                    best = Some(*v);
                }
            }
        }
    }
    Ok(best)
}
fn m_order(a: Value, b: Value) -> Result<Ordering> {
    m_cmp(a, b).map_or_else(|| err(Kind::Argument), Ok)
}
/// Every pair can be ordered, consistently.
fn orderable(m: &[Value]) -> bool {
    m.iter().enumerate().all(|(i, a)| m[i..].iter().all(|b| m_cmp(*a, *b).is_some() && m_cmp(*a, *b) == m_cmp(*b, *a).map(Ordering::reverse)))
}

fn model(name: &str, c: &mut Ctx) -> Result<Res> {
    let len = c.m.len();
    let n = c.a.len();
    let a = c.a;
    let lazy = |size: bool| Ok(Lazy(size.then_some(len as i64)));
    Ok(match name {
        "size" | "length" => Int(len as i64),
        "empty?" => Bool(len == 0),
        "to_a" => if c.class == ARRAY_CLASS { Me } else { new(c.m.clone()) },
        "clone" | "dup" => Like(c.m.clone()),
        "inspect" | "to_s" => Text(m_inspect_list(c.m)),
        "hash" => Any,
        "[]" | "slice" => {
            let got = if n == 2 {
                let (beg, k) = (m_int(a[0])?, m_int(a[1])?);
                m_sub(c.m, if beg < 0 { beg + len as i64 } else { beg }, k)
            } else if let Some(r) = a[0].is_range() {
                m_range(r, len, true)?.and_then(|(b, k)| m_sub(c.m, b, k))
            } else if a[0].ty() == Some(ObjTy::ARITHMETIC_SEQUENCE) {
                return Ok(Val(Value::symbol(IdentId::get_id("aseq"))));
            } else {
                return Ok(Val(m_index(m_int(a[0])?, len).map_or(Value::nil(), |i| c.m[i])));
            };
            got.map_or(nil(), new)
        }
        "[]=" => {
            let v = a[n - 1];
            if n == 3 || a[0].is_range().is_some() {
                let (beg, k) = match a[0].is_range() {
                    Some(r) if n == 2 => m_range(r, len, false)?.map_or_else(|| err(Kind::Range), Ok)?,
                    _ => (m_int(a[0])?, m_int(a[1])?),
                };
                let with = match v.try_array_ty() {
                    Some(x) => x.to_vec(),
                    None => m_check_ary(v)?.unwrap_or(vec![v]),
                };
                m_splice(c.m, beg, k, &with)?;
            } else {
                let i = m_int(a[0])?;
                let i = if i < 0 { i + len as i64 } else { i };
                if !(0..HUGE).contains(&i) {
                    return err(Kind::Index);
                }
                if i as usize >= len {
                    c.m.resize(i as usize + 1, Value::nil());
                }
                c.m[i as usize] = v;
            }
            Val(v)
        }
        "first" | "last" if n == 0 => {
            Val(if name == "first" { c.m.first() } else { c.m.last() }.copied().unwrap_or_default())
        }
        "first" | "take" => {
            let k = c.count_arg(0)?.min(len);
            new(c.m[..k].to_vec())
        }
        "last" => {
            let k = c.count_arg(0)?.min(len);
            new(c.m[len - k..].to_vec())
        }
        "drop" => {
            let k = c.count_arg(0)?.min(len);
            new(c.m[k..].to_vec())
        }
        "fetch" => match m_index(m_int(a[0])?, len) {
            Some(i) => Val(c.m[i]),
            None if c.block() => Val(c.blk(&[a[0]])?),
            None if n == 2 => Val(a[1]),
            None => return err(Kind::Index),
        },
        "push" | "append" | "<<" => {
            c.m.extend_from_slice(a);
            Me
        }
        "unshift" | "prepend" => {
            c.m.splice(0..0, a.iter().copied());
            Me
        }
        "pop" | "shift" if n == 0 => Val(if name == "pop" {
            c.m.pop().unwrap_or_default()
        } else if len > 0 {
            c.m.remove(0)
        } else {
            Value::nil()
        }),
        "pop" => {
            let k = c.count_arg(0)?.min(len);
            new(c.m.split_off(len - k))
        }
        "shift" => {
            let k = c.count_arg(0)?.min(len);
            new(c.m.drain(..k).collect())
        }
        "insert" if n == 1 => Me,
        "insert" => {
            let mut pos = m_int(a[0])?;
            if n > 1 {
                if pos == -1 {
                    pos = len as i64;
                } else if pos < 0 {
                    if pos < -(len as i64) - 1 {
                        return err(Kind::Index);
                    }
                    pos += 1;
                }
                m_splice(c.m, pos, 0, &a[1..])?;
            }
            Me
        }
        "concat" => {
            let mut all = Vec::new();
            for x in a {
                all.extend(if *x == c.me { c.m.clone() } else { m_ary(*x)? });
            }
            c.m.extend(all);
            Me
        }
        "replace" | "initialize_copy" => {
            let x = if a[0] == c.me { c.m.clone() } else { m_ary(a[0])? };
            *c.m = x;
            Me
        }
        "__init_from" => {
            if a[0] == c.me {
                return Ok(Me);
            }
            match m_check_ary(a[0])? {
                Some(x) => {
                    *c.m = x;
                    Me
                }
                None => nil(),
            }
        }
        "__init_fill" => {
            let k = m_int(a[0])?;
            if !(0..HUGE).contains(&k) {
                return err(Kind::Argument);
            }
            *c.m = vec![a[1]; k as usize];
            Me
        }
        "clear" => {
            c.m.clear();
            Me
        }
        "+" => {
            let mut v = c.m.clone();
            v.extend(m_ary(a[0])?);
            new(v)
        }
        "*" => {
            if let Some(s) = a[0].is_rstring_inner() {
                let mut out = String::new();
                m_join(c.m, s.check_utf8().unwrap(), &mut out)?;
                return Ok(Text(out));
            }
            if let Some(s) = a[0].as_thing().and_then(|t| t.to_str) {
                let mut out = String::new();
                m_join(c.m, &plain_to_s(s), &mut out)?;
                return Ok(Text(out));
            }
            let k = m_int(a[0])?;
            if k < 0 || len > 0 && k >= HUGE {
                return err(Kind::Argument);
            }
            if len == 0 { new(vec![]) } else { new(c.m.repeat(k as usize)) }
        }
        "-" | "difference" => {
            let mut v = c.m.clone();
            for x in a {
                let x = m_ary(*x)?;
                v.retain(|e| !has(&x, *e));
            }
            new(v)
        }
        "&" | "intersection" => {
            let mut v = m_uniq(c.m);
            for x in a {
                let x = m_ary(*x)?;
                v.retain(|e| has(&x, *e));
            }
            new(v)
        }
        "|" | "union" => {
            let mut v = c.m.clone();
            for x in a {
                v.extend(m_ary(*x)?);
            }
            new(m_uniq(&v))
        }
        "intersect?" => {
            let x = m_ary(a[0])?;
            Bool(c.m.iter().any(|e| has(&x, *e)))
        }
        "==" | "===" => Bool(a[0] == c.me || a[0].try_array_ty().is_some_and(|x| x.len() == len && x.iter().zip(c.m.iter()).all(|(p, q)| m_eq(*q, *p)))),
        "eql?" => Bool(a[0] == c.me || a[0].try_array_ty().is_some_and(|x| x.len() == len && x.iter().zip(c.m.iter()).all(|(p, q)| m_eql(*q, *p)))),
        "<=>" => match m_check_ary(a[0]).unwrap_or(None) {
            Some(x) => m_cmp_lists(c.m, &x).map_or(nil(), |o| Int(o as i64)),
            None => nil(),
        },
        "include?" => Bool(c.m.iter().any(|e| m_eq(*e, a[0]))),
        "count" => Int(if n == 1 {
            c.m.iter().filter(|e| m_eq(**e, a[0])).count() as i64
        } else if c.block() {
            c.keys()?.iter().filter(|v| v.as_bool()).count() as i64
        } else {
            len as i64
        }),
        "find_index" | "index" => {
            if n == 0 && !c.block() {
                return lazy(false);
            }
            for i in 0..len {
                let e = c.m[i];
                if if n == 1 { m_eq(e, a[0]) } else { c.yes(&[e])? } {
                    return Ok(Int(i as i64));
                }
            }
            nil()
        }
        "delete" => match c.m.iter().rposition(|e| m_eq(*e, a[0])) {
            Some(i) => {
                let last = c.m[i];
                c.m.retain(|e| !m_eq(*e, a[0]));
                Val(last)
            }
            None if c.block() => Val(c.blk(&[a[0]])?),
            None => nil(),
        },
        "delete_at" => match m_index(m_int(a[0])?, len) {
            Some(i) => Val(c.m.remove(i)),
            None => nil(),
        },
        "slice!" => {
            let span = if n == 2 {
                let (b, k) = (m_int(a[0])?, m_int(a[1])?);
                let b = if b < 0 { b + len as i64 } else { b };
                (b >= 0 && b <= len as i64 && k >= 0).then_some((b, k))
            } else if let Some(r) = a[0].is_range() {
                m_range(r, len, true)?
            } else {
                return Ok(match m_index(m_int(a[0])?, len) {
                    Some(i) => Val(c.m.remove(i)),
                    None => nil(),
                });
            };
            match span {
                Some((b, k)) => {
                    let b = b as usize;
                    let e = b + (k as usize).min(len - b);
                    new(c.m.drain(b..e).collect())
                }
                None => nil(),
            }
        }
        _ => return model2(name, c),
    })
}

fn model2(name: &str, c: &mut Ctx) -> Result<Res> {
    let len = c.m.len();
    let n = c.a.len();
    let a = c.a;
    let lazy = |size: bool| Ok(Lazy(size.then_some(len as i64)));
    Ok(match name {
        "compact" => new(c.m.iter().copied().filter(|v| !v.is_nil()).collect()),
        "compact!" => {
            c.m.retain(|v| !v.is_nil());
            if c.m.len() == len { nil() } else { Me }
        }
        "flatten" | "flatten!" => {
            let depth = if n == 0 || a[0].is_nil() { -1 } else { m_int(a[0])?.max(-1) };
            let (mut out, mut changed) = (vec![], false);
            m_flatten(c.m, depth, &mut out, &mut changed)?;
            if name == "flatten" {
                new(out)
            } else if changed {
                *c.m = out;
                Me
            } else {
                nil()
            }
        }
        "uniq" | "uniq!" => {
            let out = if c.block() {
                let (mut seen, mut out) = (Vec::new(), Vec::new());
                for (k, v) in c.keys()?.into_iter().zip(c.m.iter()) {
                    if !has(&seen, k) {
                        seen.push(k);
                        out.push(*v);
                    }
                }
                out
            } else {
                m_uniq(c.m)
            };
            if name == "uniq" {
                new(out)
            } else if out.len() == len {
                nil()
            } else {
                *c.m = out;
                Me
            }
        }
        "reverse" => new(c.m.iter().rev().copied().collect()),
        "reverse!" => {
            c.m.reverse();
            Me
        }
        "rotate" | "rotate!" => {
            let k = if n == 0 { 1 } else { m_int(a[0])? };
            let mut v = c.m.clone();
            if len > 0 {
                v.rotate_left(k.rem_euclid(len as i64) as usize);
            }
            if name == "rotate" {
                new(v)
            } else {
                *c.m = v;
                Me
            }
        }
        "fill" => {
            let (v, rest) = if c.block() {
                if n == 3 {
                    return err(Kind::Argument);
                }
                (None, a)
            } else if n == 0 {
                return err(Kind::Argument);
            } else {
                (Some(a[0]), &a[1..])
            };
            let len = len as i64;
            let (beg, end) = match rest {
                [r] if r.is_range().is_some() => match m_range(r.is_range().unwrap(), len as usize, false)? {
                    Some((b, k)) => (b, b.saturating_add(k)),
                    None => return err(Kind::Range),
                },
                _ => {
                    let b = match rest.first() {
                        Some(b) if !b.is_nil() => m_int(*b)?,
                        _ => 0,
                    };
                    let b = if b < 0 { (b + len).max(0) } else { b };
                    match rest.get(1) {
                        Some(k) if !k.is_nil() => {
                            let k = m_int(*k)?;
                            if k <= 0 {
                                return Ok(Me);
                            }
                            if b >= HUGE {
                                return err(Kind::Argument);
                            }
                            (b, b.saturating_add(k))
                        }
                        _ => (b, len),
                    }
                }
            };
            if end > beg && end >= HUGE {
                return err(Kind::Argument);
            }
            for i in beg..end {
                let x = match v {
                    Some(v) => v,
                    None => c.blk(&[Value::integer(i)])?,
                };
                if i as usize >= c.m.len() {
                    c.m.resize(i as usize + 1, Value::nil());
                }
                c.m[i as usize] = x;
            }
            Me
        }
        "sort" | "sort!" | "min" | "max" | "minmax" => {
            let sign = c.sim.as_ref().and_then(|s| s.compare).unwrap_or(1);
            if len > 1 && !orderable(c.m) {
                // Whether the pair that cannot be ordered is met is open.
                return Ok(Any);
            }
            if name.starts_with("sort") {
                if sign == 0 {
                    return Ok(Sorted(c.m.iter().map(|v| (*v, Value::nil())).collect(), name == "sort!"));
                }
                let mut v = c.m.clone();
                v.sort_by(|x, y| m_cmp(*x, *y).unwrap());
                if sign < 0 {
                    v.reverse();
                }
                Sorted(v.iter().map(|v| (*v, *v)).collect(), name == "sort!")
            } else if sign == 0 {
                Any
            } else {
                let mut cmp = |x: Value, y: Value| m_order(x, y).map(|o| if sign < 0 { o.reverse() } else { o });
                let pick = |v: Option<Value>| v.map_or(nil(), |v| Tie(v, v));
                let lo = pick(extreme(c.m, Ordering::Less, &mut cmp)?);
                let hi = pick(extreme(c.m, Ordering::Greater, &mut cmp)?);
                match name {
                    "min" => lo,
                    "max" => hi,
                    _ => New(vec![lo, hi]),
                }
            }
        }
        "sort_by" | "sort_by!" => {
            if !c.block() {
                return lazy(true);
            }
            let keys = c.keys()?;
            if len > 1 && !orderable(&keys) {
                return Ok(Any);
            }
            let mut v: Vec<_> = c.m.iter().copied().zip(keys).collect();
            v.sort_by(|x, y| m_cmp(x.1, y.1).unwrap());
            Sorted(v, name == "sort_by!")
        }
        "sum" => {
            let mut s = if n == 1 { a[0] } else { Value::integer(0) };
            for i in 0..len {
                let mut v = c.m[i];
                if c.block() {
                    v = c.blk(&[v])?;
                }
                s = m_plus(s, v)?;
            }
            Num(s)
        }
        "inject" | "reduce" => {
            let (mut acc, op) = match (n, c.block()) {
                (0, true) => (None, None),
                (0, false) => return Ok(Any),
                (1, true) => (Some(a[0]), None),
                (1, false) => (None, Some(a[0])),
                _ => (Some(a[0]), Some(a[1])),
            };
            let op = match op {
                Some(v) => Some(match v.try_symbol() {
                    Some(id) => id.get_name(),
                    None if v.is_rstring_inner().is_some() => plain_to_s(v),
                    None => return err(Kind::Type),
                }),
                None => None,
            };
            for i in 0..len {
                let v = c.m[i];
                acc = Some(match (acc, &op) {
                    (None, _) => v,
                    (Some(x), Some(op)) if op == "+" && x.is_array_ty() => {
                        let mut l = x.as_array().to_vec();
                        l.extend(m_ary(v)?);
                        Value::array_from_vec(l)
                    }
                    (Some(x), Some(op)) => match plain_arith(op, x, v) {
                        Some(r) if !x.is_array_ty() => r,
                        _ => return Ok(Any),
                    },
                    (Some(x), None) => c.blk(&[x, v])?,
                });
            }
            Num(acc.unwrap_or_default())
        }
        "zip" => {
            let mut cols = Vec::new();
            for x in a {
                let t = x.as_thing();
                cols.push(match x.try_array_ty() {
                    Some(x) => x.to_vec(),
                    None => match t.and_then(|t| t.to_ary).and_then(|v| v.try_array_ty()) {
                        Some(x) => x.to_vec(),
                        None => match t.and_then(|t| t.each.clone()) {
                            Some(v) => v[..len.min(v.len())].to_vec(),
                            None => return err(Kind::Type),
                        },
                    },
                });
            }
            let row = |m: &[Value], i: usize| -> Vec<Value> {
                std::iter::once(m[i]).chain(cols.iter().map(|c| c.get(i).copied().unwrap_or_default())).collect()
            };
            if c.block() {
                for i in 0..len {
                    let r = Value::array_from_vec(row(c.m, i));
                    c.blk(&[r])?;
                }
                nil()
            } else {
                New((0..len).map(|i| new(row(c.m, i))).collect())
            }
        }
        "product" => {
            let mut rows: Vec<Vec<Value>> = c.m.iter().map(|v| vec![*v]).collect();
            for x in a {
                let x = m_ary(*x)?;
                rows = rows.iter().flat_map(|r| x.iter().map(|v| [r.as_slice(), &[*v]].concat()).collect::<Vec<_>>()).collect();
            }
            if c.block() {
                for r in rows {
                    let r = Value::array_from_vec(r);
                    c.blk(&[r])?;
                }
                Me
            } else {
                New(rows.into_iter().map(new).collect())
            }
        }
        "transpose" => {
            let rows = c.m.iter().map(|v| m_ary(*v)).collect::<Result<Vec<_>>>()?;
            let w = rows.first().map_or(0, |r| r.len());
            if rows.iter().any(|r| r.len() != w) {
                return err(Kind::Index);
            }
            New((0..w).map(|i| new(rows.iter().map(|r| r[i]).collect())).collect())
        }
        "group_by" => {
            if !c.block() {
                return lazy(true);
            }
            let mut t: Vec<(Value, Vec<Value>)> = Vec::new();
            for (k, v) in c.keys()?.into_iter().zip(c.m.iter()) {
                match t.iter_mut().find(|e| m_eql(e.0, k)) {
                    Some(e) => e.1.push(*v),
                    None => t.push((k, vec![*v])),
                }
            }
            Table(t.into_iter().map(|(k, v)| (k, new(v))).collect())
        }
        "to_h" => {
            let mut t: Vec<(Value, Value)> = Vec::new();
            for i in 0..len {
                let mut v = c.m[i];
                if c.block() {
                    v = c.blk(&[v])?;
                }
                let p = m_ary(v)?;
                if p.len() != 2 {
                    return err(Kind::Argument);
                }
                match t.iter_mut().find(|e| m_eql(e.0, p[0])) {
                    Some(e) => e.1 = p[1],
                    None => t.push((p[0], p[1])),
                }
            }
            Table(t.into_iter().map(|(k, v)| (k, Val(v))).collect())
        }
        "partition" | "filter" | "select" | "find_all" | "reject" => {
            if !c.block() {
                return lazy(true);
            }
            let keys = c.keys()?;
            let pick = |b: bool| new(c.m.iter().zip(&keys).filter(|(_, k)| k.as_bool() == b).map(|p| *p.0).collect());
            match name {
                "partition" => New(vec![pick(true), pick(false)]),
                "reject" => pick(false),
                _ => pick(true),
            }
        }
        "filter!" | "select!" | "keep_if" | "reject!" | "delete_if" => {
            if !c.block() {
                return lazy(true);
            }
            let keep = !matches!(name, "reject!" | "delete_if");
            let all = c.m.clone();
            let mut kept = Vec::new();
            for (i, v) in all.iter().enumerate() {
                match c.yes(&[*v]) {
                    Ok(b) => {
                        if b == keep {
                            kept.push(*v);
                        }
                    }
                    Err(e) => {
                        // Decided elements stay decided; the rest remain.
                        kept.extend_from_slice(&all[i..]);
                        *c.m = kept;
                        return Err(e);
                    }
                }
            }
            *c.m = kept;
            if c.m.len() == len && name.ends_with('!') { nil() } else { Me }
        }
        "flat_map" | "collect_concat" => {
            if !c.block() {
                return lazy(true);
            }
            let mut out = Vec::new();
            for i in 0..len {
                let v = c.blk(&[c.m[i]])?;
                match m_check_ary(v)? {
                    Some(x) => out.extend(x),
                    None => out.push(v),
                }
            }
            new(out)
        }
        "all?" | "any?" => {
            let all = name == "all?";
            for i in 0..len {
                let v = c.m[i];
                let b = if n == 1 {
                    m_teq(a[0], v)
                } else if c.block() {
                    c.yes(&[v])?
                } else {
                    v.as_bool()
                };
                if b != all {
                    return Ok(Bool(!all));
                }
            }
            Bool(all)
        }
        "detect" | "find" | "rfind" => {
            if !c.block() {
                return lazy(false);
            }
            let order: Vec<usize> = if name == "rfind" { (0..len).rev().collect() } else { (0..len).collect() };
            for i in order {
                let v = c.m[i];
                if c.yes(&[v])? {
                    return Ok(Val(v));
                }
            }
            if n == 1 && !a[0].is_nil() {
                return match a[0].as_thing().and_then(|t| t.call) {
                    Some(v) => Ok(Val(v)),
                    None => err(Kind::NotMethod { name: None }),
                };
            }
            nil()
        }
        "grep" => {
            let hits: Vec<_> = c.m.iter().copied().filter(|v| m_teq(a[0], *v)).collect();
            if c.block() {
                let mut out = Vec::new();
                for v in hits {
                    out.push(c.blk(&[v])?);
                }
                new(out)
            } else {
                new(hits)
            }
        }
        "join" if len == 0 => Text(String::new()),
        "join" => {
            let sep = match a.first() {
                Some(s) if !s.is_nil() => match s.as_thing().and_then(|t| t.to_str) {
                    Some(s) => plain_to_s(s),
                    None if s.is_rstring_inner().is_some() => plain_to_s(*s),
                    None => return err(Kind::Type),
                },
                _ => String::new(),
            };
            let mut out = String::new();
            m_join(c.m, &sep, &mut out)?;
            Text(out)
        }
        _ => panic!("no model of {name}"),
    })
}
fn m_plus(x: Value, y: Value) -> Result<Value> {
    if let (Some(p), Some(q)) = (x.try_array_ty(), y.try_array_ty()) {
        return Ok(Value::array_from_vec([&p[..], &q[..]].concat()));
    }
    if x.is_array_ty() {
        let mut v = x.as_array().to_vec();
        v.extend(m_ary(y)?);
        return Ok(Value::array_from_vec(v));
    }
    plain_arith("+", x, y).map_or_else(|| err(Kind::Type), Ok)
}

// ------------------------------------------------------------- the machinery

/// Method, shapes of its arguments, kinds of block.
const METHODS: &[(&str, &[&str], &str)] = &[
    ("size", &[""], "n"), ("length", &[""], "n"), ("empty?", &[""], "n"), ("to_a", &[""], "n"), ("clone", &[""], "n"), ("dup", &[""], "n"),
    ("inspect", &[""], "n"), ("to_s", &[""], "n"), ("hash", &[""], "n"),
    ("[]", &["i", "ii", "r", "r", "q"], "n"), ("slice", &["i", "ii", "r"], "n"),
    ("[]=", &["iv", "iv", "iiv", "iil", "rv", "rl"], "n"), ("first", &["", "i"], "n"), ("last", &["", "i"], "n"), ("take", &["i"], "n"),
    ("drop", &["i"], "n"), ("fetch", &["i", "iv"], "nb"), ("push", &["*v"], "n"), ("append", &["*v"], "n"), ("<<", &["v"], "n"),
    ("unshift", &["*v"], "n"), ("prepend", &["*v"], "n"), ("pop", &["", "i"], "n"), ("shift", &["", "i"], "n"), ("insert", &["i*v", "i*v"], "n"),
    ("concat", &["*l"], "n"), ("replace", &["l"], "n"), ("initialize_copy", &["l"], "n"), ("__init_from", &["l", "v"], "n"),
    ("__init_fill", &["iv"], "n"), ("clear", &[""], "n"), ("+", &["l"], "n"), ("-", &["l"], "n"), ("&", &["l"], "n"), ("|", &["l"], "n"),
    ("*", &["i", "s"], "n"), ("difference", &["*l"], "n"), ("union", &["*l"], "n"), ("intersection", &["*l"], "n"), ("intersect?", &["l"], "n"),
    ("==", &["l", "m", "v"], "n"), ("===", &["l", "m"], "n"), ("eql?", &["l", "m", "v"], "n"), ("<=>", &["l", "m", "v"], "n"),
    ("include?", &["v"], "n"), ("count", &["", "v"], "nb"), ("find_index", &["", "v"], "nb"), ("index", &["", "v"], "nb"),
    ("delete", &["v"], "nb"), ("delete_at", &["i"], "n"), ("slice!", &["i", "ii", "r", "r"], "n"), ("compact", &[""], "n"),
    ("compact!", &[""], "n"), ("flatten", &["", "i", "z"], "n"), ("flatten!", &["", "i", "z"], "n"), ("uniq", &[""], "nb"), ("uniq!", &[""], "nb"),
    ("reverse", &[""], "n"), ("reverse!", &[""], "n"), ("rotate", &["", "i"], "n"), ("rotate!", &["", "i"], "n"),
    ("fill", &["v", "vi", "vii", "viz", "vz", "vr"], "n"), ("fill", &["", "i", "ii", "iz", "r", "viv"], "b"), ("sort", &[""], "nc"), ("sort!", &[""], "nc"),
    ("min", &[""], "nc"), ("max", &[""], "nc"), ("minmax", &[""], "nc"), ("sort_by", &[""], "nkb"), ("sort_by!", &[""], "nkb"),
    ("sum", &["", "v", "l"], "nk"), ("inject", &["", "v"], "b"), ("inject", &["o", "vo", "lo"], "n"), ("reduce", &["", "v"], "b"),
    ("zip", &["*l", "*e"], "nb"), ("product", &["*l"], "nb"), ("transpose", &[""], "n"), ("group_by", &[""], "nkb"), ("to_h", &[""], "np"),
    ("partition", &[""], "nb"), ("filter", &[""], "nb"), ("select", &[""], "nb"), ("find_all", &[""], "nb"), ("reject", &[""], "nb"),
    ("filter!", &[""], "nb"), ("select!", &[""], "nb"), ("keep_if", &[""], "nb"), ("reject!", &[""], "nb"), ("delete_if", &[""], "nb"),
    ("flat_map", &[""], "nl"), ("collect_concat", &[""], "nl"), ("all?", &["", "v", "x"], "n"), ("all?", &[""], "b"),
    ("any?", &["", "v", "x"], "n"), ("any?", &[""], "b"), ("detect", &["", "f"], "nb"), ("find", &["", "f"], "nb"), ("rfind", &["", "f"], "nb"),
    ("grep", &["v", "x"], "nb"), ("join", &["", "s"], "n"),
];

struct World {
    vm: Executor,
    g: Globals,
}
struct Known {
    v: Value,
    m: Vec<Value>,
}
struct Play {
    pool: Vec<Value>,
    lists: Vec<Known>,
    theme: u64,
    quiet: bool,
}

fn span(r: &mut vh::Rng, lo: i64, hi: i64) -> i64 {
    lo + r.below((hi - lo) as u64) as i64
}
fn thing(p: &Play, t: Thing) -> Value {
    let to_s = t.to_s.or(Some(Value::string_from_str("obj")));
    Value::thing(Thing { quiet: p.quiet, to_s, ..t })
}
fn scalar(case: &mut Case, p: &Play, theme: u64) -> Value {
    let r = &mut case.rng;
    match theme {
        0 => Value::integer(span(r, -3, 4)),
        1 => Value::string_from_str(r.pick(&["", "a", "b", "ab", "a b"])),
        2 => match r.below(6) {
            0 => Value::float(*r.pick(&[0.5, -1.5, 2.0, 1e20])),
            1 => Value::bigint(BigInt::from(i64::MAX) * BigInt::from(span(r, -1, 3))),
            _ => Value::integer(span(r, -2, 5)),
        },
        3 => thing(p, Thing { key: span(r, 0, 5), to_s: Some(Value::string_from_str("th")), ..Default::default() }),
        _ => match r.below(9) {
            0 => Value::nil(),
            1 => Value::bool(r.chance(1, 2)),
            2 => Value::symbol(IdentId::get_id(r.pick(&["x", "y"]))),
            n => scalar(case, p, n % 4),
        },
    }
}
fn element(case: &mut Case, p: &Play) -> Value {
    if !p.pool.is_empty() && case.rng.chance(3, 5) {
        return *case.rng.pick(&p.pool);
    }
    match p.theme {
        // Lists of lists, even or ragged, and pairs.
        5 | 6 | 7 => {
            if case.rng.chance(1, 12) {
                return scalar(case, p, 9);
            }
            let k = match p.theme {
                5 => case.rng.us(4),
                6 => 2,
                _ => 3,
            };
            let k = if case.rng.chance(1, 14) { k + 1 } else { k };
            let mut v: Vec<_> = (0..k).map(|_| scalar(case, p, 9)).collect();
            if case.rng.chance(1, 6) {
                v.push(Value::array1(scalar(case, p, 9)));
            }
            let a = Value::array_from_vec(v);
            if case.rng.chance(1, 8) {
                return thing(p, Thing { key: 50, to_ary: Some(a), to_s: Some(Value::string_from_str("tl")), ..Default::default() });
            }
            a
        }
        8 => match case.rng.below(8) {
            0 => thing(p, Thing { key: 60, to_str: Some(Value::string_from_str("str")), ..Default::default() }),
            1 => thing(p, Thing { key: 61, to_ary: Some(Value::nil()), to_s: Some(Value::string_from_str("nl")), ..Default::default() }),
            2 => Value::array_from_vec(vec![scalar(case, p, 9), Value::array_empty()]),
            3 => scalar(case, p, 9),
            _ => scalar(case, p, 1),
        },
        t => scalar(case, p, t),
    }
}
fn int_arg(case: &mut Case, p: &Play, len: usize) -> Value {
    let n = len as i64;
    let r = &mut case.rng;
    match r.below(20) {
        0 => Value::integer(*r.pick(&[1 << 62, i64::MAX, i64::MIN, -(1 << 62), 1 << 61, i64::MAX - 1])),
        1 => *r.pick(&[Value::nil(), Value::bigint(BigInt::from(i64::MAX) * BigInt::from(5)), Value::float(f64::NAN), Value::string_from_str("1")]),
        2 => Value::float(span(r, -n - 1, n + 2) as f64 + 0.75),
        3 => thing(p, Thing { key: 9, to_int: Some(span(r, -n - 1, n + 2)), ..Default::default() }),
        4..=6 => Value::integer(n + span(r, -1, 2)),
        7 | 8 => Value::integer(-n + span(r, -2, 2)),
        9 => Value::integer(span(r, 0, 12)),
        _ => Value::integer(span(r, -n - 1, n + 2)),
    }
}
fn list_arg(case: &mut Case, p: &mut Play, recv: usize) -> Value {
    match case.rng.below(12) {
        0 => p.lists[recv].v,
        1..=5 => {
            let i = case.rng.us(p.lists.len());
            p.lists[i].v
        }
        6 => {
            let i = case.rng.us(p.lists.len());
            let a = *case.rng.pick(&[p.lists[i].v, p.lists[i].v, Value::nil(), Value::integer(3)]);
            thing(p, Thing { key: 70, to_ary: Some(a), ..Default::default() })
        }
        7 => element(case, p),
        _ => {
            let k = case.rng.us(5);
            let m: Vec<_> = (0..k).map(|_| element(case, p)).collect();
            let v = Value::array_from_slice(&m);
            p.lists.push(Known { v, m });
            v
        }
    }
}
fn make_args(case: &mut Case, p: &mut Play, recv: usize, shape: &str) -> Vec<Value> {
    let len = p.lists[recv].m.len();
    let mut out = Vec::new();
    let mut many = false;
    for ch in shape.chars() {
        if ch == '*' {
            many = true;
            continue;
        }
        let reps = if many { case.rng.us(4) } else { 1 };
        many = false;
        for _ in 0..reps {
            let v = match ch {
                'i' => int_arg(case, p, len),
                'r' => {
                    let end = |case: &mut Case, p: &Play| if case.rng.chance(1, 7) { Value::nil() } else { int_arg(case, p, len) };
                    let (mut a, mut b) = (end(case, p), end(case, p));
                    // Which end is looked at first is left open.
                    if !b.is_nil() && m_int(b).is_err() {
                        (a, b) = (Value::integer(0), if len == 0 { Value::integer(1) } else { b });
                    }
                    Value::range(a, b, case.rng.chance(1, 2))
                }
                'q' => Value::aseq(),
                'z' => Value::nil(),
                'v' => {
                    let m = &p.lists[recv].m;
                    if !m.is_empty() && case.rng.chance(1, 2) { *case.rng.pick(m) } else { element(case, p) }
                }
                'l' => list_arg(case, p, recv),
                // Nearly the receiver itself.
                'm' => {
                    let mut m = p.lists[recv].m.clone();
                    if !m.is_empty() {
                        let i = case.rng.us(m.len());
                        match case.rng.below(5) {
                            0 => m.truncate(i),
                            1 => m[i] = element(case, p),
                            2 => m.push(element(case, p)),
                            _ => {}
                        }
                    }
                    let v = Value::array_from_slice(&m);
                    p.lists.push(Known { v, m });
                    v
                }
                'e' => {
                    let k = case.rng.us(5);
                    let v = (0..k).map(|_| element(case, p)).collect();
                    thing(p, Thing { key: 80, each: Some(v), ..Default::default() })
                }
                's' => match case.rng.below(6) {
                    0 => Value::nil(),
                    1 => Value::integer(2),
                    2 => thing(p, Thing { key: 81, to_str: Some(Value::string_from_str("<>")), ..Default::default() }),
                    _ => Value::string_from_str(case.rng.pick(&["", ",", "--"])),
                },
                'o' => match case.rng.below(6) {
                    0 => Value::string_from_str("+"),
                    1 => Value::integer(3),
                    2 => Value::symbol(IdentId::get_id("*")),
                    _ => Value::symbol(IdentId::get_id("+")),
                },
                'x' => Value::regexp(case.rng.pick(&["a", "b", ""])),
                'f' => match case.rng.below(3) {
                    0 => Value::nil(),
                    1 => Value::symbol(IdentId::get_id("x")),
                    _ => thing(p, Thing { key: 82, call: Some(Value::integer(1234)), ..Default::default() }),
                },
                _ => unreachable!(),
            };
            out.push(v);
        }
    }
    out
}
fn make_block(case: &mut Case, p: &mut Play, kind: char) -> Option<Sim> {
    let mut answers = Vec::new();
    let mut compare = None;
    match kind {
        'n' => return None,
        'c' => {
            compare = Some(*case.rng.pick(&[1, -1, 1, -1, 0]));
            answers.push(Value::nil());
        }
        'b' => {
            answers = vec![Value::nil(), Value::bool(false), Value::bool(true), Value::integer(1)];
            for _ in 0..3 {
                answers.push(element(case, p));
            }
        }
        'k' => {
            let t = case.rng.below(3);
            for _ in 0..5 {
                answers.push(scalar(case, p, t));
            }
        }
        'p' => {
            for _ in 0..6 {
                let k = if case.rng.chance(1, 15) { 3 } else { 2 };
                let a = Value::array_from_vec((0..k).map(|_| scalar(case, p, 9)).collect());
                answers.push(match case.rng.below(12) {
                    0 => thing(p, Thing { key: 90, to_ary: Some(a), ..Default::default() }),
                    1 if case.rng.chance(1, 3) => Value::integer(5),
                    _ => a,
                });
            }
        }
        _ => {
            for _ in 0..6 {
                let k = case.rng.us(4);
                let a = Value::array_from_vec((0..k).map(|_| element(case, p)).collect());
                answers.push(match case.rng.below(8) {
                    0 => thing(p, Thing { key: 91, to_ary: Some(a), ..Default::default() }),
                    1 => thing(p, Thing { key: 92, to_ary: Some(Value::nil()), ..Default::default() }),
                    2 | 3 => element(case, p),
                    _ => a,
                });
            }
        }
    }
    let raise_at = if case.rng.chance(1, 6) { 1 + case.rng.below(6) as u32 } else { 0 };
    Some(Sim { answers, salt: case.rng.next() | 1, raise_at, calls: 0, compare, trace: vec![] })
}

/// Lays the arguments out as the method was declared to take them.
fn layout(name: &str, ar: Arity, args: &[Value], kw: &[Option<Value>]) -> Vec<Option<Value>> {
    if args.len() < ar.min || !ar.rest && args.len() > ar.max {
        CRASH.with_borrow_mut(|c| {
            c.get_or_insert(format!("{name} does not take {} arguments", args.len()));
        });
    }
    let mut out: Vec<Option<Value>> = args.iter().take(ar.max).map(|v| Some(*v)).collect();
    out.resize(ar.max, None);
    if ar.rest {
        out.push(Some(Value::array_from_slice(args.get(ar.max..).unwrap_or(&[]))));
    }
    out.extend_from_slice(kw);
    out
}
fn invoke(w: &mut World, name: &str, recv: Value, args: &[Value], kw: &[Option<Value>], sim: Option<Rc<RefCell<Sim>>>) -> Result<Value> {
    let Some(&(f, ar)) = w.g.funcs.get(name) else {
        eprintln!("method {name} is not there");
        std::process::exit(3);
    };
    let block = sim.is_some();
    w.vm.block = sim.map(|s| Box::new(move |_: &mut Executor, _: &mut Globals, a: &[Value]| s.borrow_mut().call(a)) as Block);
    let args = layout(name, ar, args, kw);
    guarded(name, || f(&mut w.vm, &mut w.g, Lfp::new(recv, &args, block), BytecodePtr))
}
thread_local! {
    static CRASH: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// A panic is remembered; the case ends with it.
fn guarded(name: &str, f: impl FnOnce() -> Result<Value>) -> Result<Value> {
    vh::catch(f).unwrap_or_else(|(at, m)| {
        CRASH.with_borrow_mut(|c| {
            c.get_or_insert(format!("{name} panicked at {at}: {m}"));
        });
        Err(MonorubyErr::new(Kind::Scripted(99), "panicked"))
    })
}
fn crashed(r: Verdict) -> Verdict {
    match CRASH.take() {
        Some(m) => Err(vh::Violation(m)),
        None => r,
    }
}

// ------------------------------------------------------------ special scenes

fn special(case: &mut Case, w: &mut World, p: &mut Play) -> Verdict {
    match case.rng.below(8) {
        0 => chance(case, w),
        1 => big_sample(case, w),
        2 => picky_rand(case, w, p),
        3 => class_side(case, w, p),
        4 | 5 => fast(case, w, p),
        6 => recursive(case, w),
        _ => encodings(case, w),
    }
}

/// Every outcome of sampling and shuffling is equally likely: all draws are
/// tried, and the chances of the draws leading to an outcome are added up.
fn chance(case: &mut Case, w: &mut World) -> Verdict {
    let len = 1 + case.rng.us(if case.thorough { 6 } else { 5 });
    let (name, n) = match case.rng.below(4) {
        0 => ("shuffle", None),
        1 => ("shuffle!", None),
        2 => ("sample", None),
        _ => ("sample", Some(case.rng.us(len + 1))),
    };
    let m: Vec<_> = (0..len as i64).map(Value::integer).collect();
    let args: Vec<_> = n.map(|n| Value::integer(n as i64)).into_iter().collect();
    let mut seen: std::collections::BTreeMap<Vec<i64>, f64> = Default::default();
    let mut script: Vec<u64> = vec![];
    let what = format!("{name}({n:?}) of {len} elements");
    loop {
        w.g.script = Some(script);
        w.g.limits.clear();
        let v = Value::array_from_slice(&m);
        let got = invoke(w, name, v, &args, &[None], None);
        script = w.g.script.take().unwrap();
        let limits = std::mem::take(&mut w.g.limits);
        vcheck!(limits.len() <= 40, "{what} drew {} numbers", limits.len());
        let Ok(got) = got else { vbail!("{what} gave {got:?}") };
        let out: Vec<i64> = match got.try_array_ty() {
            Some(a) => a.iter().map(|v| v.try_fixnum().unwrap_or(-1)).collect(),
            None => vec![got.try_fixnum().unwrap_or(-1)],
        };
        let want = if name == "sample" { n.unwrap_or(1) } else { len };
        let mut sorted = out.clone();
        sorted.sort();
        sorted.dedup();
        vcheck!(out.len() == want && sorted.len() == want && sorted.iter().all(|i| (0..len as i64).contains(i)), "{what} gave {out:?}");
        script.truncate(limits.len());
        *seen.entry(out).or_default() += limits.iter().map(|l| 1.0 / (*l as f64 + 1.0)).product::<f64>();
        case.count("draw_sequences");
        // The next sequence of draws.
        while let Some(d) = script.pop() {
            if d < limits[script.len()] {
                script.push(d + 1);
                break;
            }
        }
        if script.is_empty() {
            break;
        }
    }
    let k = if name == "sample" { n.unwrap_or(1) } else { len };
    let total: f64 = (0..k).map(|i| (len - i) as f64).product();
    vcheck!(seen.len() == total as usize, "{what} has {} outcomes, expected {total}", seen.len());
    for (out, chance) in &seen {
        vcheck!((chance * total - 1.0).abs() < 1e-9, "{what}: the chance of {out:?} is {chance}, expected 1/{total}");
    }
    case.count("uniform");
    Ok(())
}
/// Samples of long arrays hold distinct elements.
fn big_sample(case: &mut Case, w: &mut World) -> Verdict {
    let len = *case.rng.pick(&[11usize, 40, 300, 2560, 3000, 5200, 10300]);
    let n = *case.rng.pick(&[4usize, 10, 11, 15, 20, 30]);
    let v = Value::array_from_iter((0..len as i64).map(Value::integer));
    w.g.next_draw = case.rng.next();
    let rnd = match case.rng.below(3) {
        0 => Some(Value::random(case.rng.next())),
        1 => Some(w.g.random_class()),
        _ => None,
    };
    let got = invoke(w, "sample", v, &[Value::integer(n as i64)], &[rnd], None);
    let Ok(got) = got else { vbail!("sample({n}) of {len} elements gave {got:?}") };
    let mut out: Vec<i64> = got.as_array().iter().map(|v| v.try_fixnum().unwrap_or(-1)).collect();
    let all = out.len();
    out.sort();
    out.dedup();
    vcheck!(all == n.min(len) && out.len() == all && out.iter().all(|i| (0..len as i64).contains(i)), "sample({n}) of {len} elements gave {got:?}");
    vcheck!(v.as_array().iter().enumerate().all(|(i, v)| v.try_fixnum() == Some(i as i64)), "sample({n}) of {len} elements changed the array");
    case.count("big_samples");
    Ok(())
}
/// A generator supplied by the caller may answer anything.
fn picky_rand(case: &mut Case, w: &mut World, p: &Play) -> Verdict {
    let len = case.rng.us(14);
    let v = Value::array_from_iter((0..len as i64).map(Value::integer));
    let seq: Vec<i64> = (0..6).map(|_| *case.rng.pick(&[0, 1, 2, 3, 5, 8, len as i64 - 1, len as i64, -1, 1 << 40])).collect();
    let wild = case.rng.chance(1, 2);
    let g = Value::thing(Thing { key: 1, rand: Some(seq.clone()), wild, quiet: true, ..Default::default() });
    let name = *case.rng.pick(&["sample", "sample", "shuffle", "shuffle!"]);
    let k = case.rng.us(14);
    let args = if name == "sample" && case.rng.chance(3, 4) { vec![Value::integer(k as i64)] } else { vec![] };
    w.vm.rand_pos = 0;
    let got = invoke(w, name, v, &args, &[Some(g)], None);
    let what = format!("{name}({args:?}) of {len} elements with a generator answering {seq:?}");
    let now = v.as_array().to_vec();
    vcheck!(permuted(&(0..len as i64).map(Value::integer).collect::<Vec<_>>(), &now), "{what} left {now:?}");
    match got {
        Ok(v) => match v.try_array_ty() {
            Some(a) => {
                let mut out: Vec<i64> = a.iter().map(|v| v.try_fixnum().unwrap_or(-1)).collect();
                let all = out.len();
                out.sort();
                out.dedup();
                let want = if args.is_empty() { len } else { k.min(len) };
                vcheck!(all == want && out.len() == all && out.iter().all(|i| (0..len as i64).contains(i)), "{what} gave {v:?}");
            }
            None => vcheck!(len == 0 && v.is_nil() || v.try_fixnum().is_some_and(|i| (0..len as i64).contains(&i)), "{what} gave {v:?}"),
        },
        Err(e) => vcheck!(wild && e.kind == Kind::Range, "{what} raised {e:?}"),
    }
    case.count("picky");
    let _ = p;
    Ok(())
}
fn class_side(case: &mut Case, w: &mut World, p: &mut Play) -> Verdict {
    let class = *case.rng.pick(&[ARRAY_CLASS, SUB_CLASS]);
    let k = case.rng.us(8);
    let m: Vec<_> = (0..k).map(|_| element(case, p)).collect();
    let x = list_arg(case, p, 0);
    let mark = heap_mark();
    let (f, ar) = w.g.class_funcs["[]"];
    let args = layout("[]", ar, &m, &[]);
    let got = f(&mut w.vm, &mut w.g, Lfp::new(Value::class_obj(class), &args, false), BytecodePtr);
    let Ok(v) = got else { vbail!("Array[...] gave {got:?}") };
    fits(&Like(m.clone()), v, v, class, mark).map_err(|e| vh::Violation(format!("Array[...] of {m:?} {e}")))?;
    let (f, ar) = w.g.class_funcs["try_convert"];
    let args = layout("try_convert", ar, &[x], &[]);
    let got = f(&mut w.vm, &mut w.g, Lfp::new(Value::class_obj(class), &args, false), BytecodePtr);
    let t = x.as_thing().and_then(|t| t.to_ary);
    match got {
        Ok(v) if x.is_array_ty() => vcheck!(v == x, "try_convert of {x:?} gave {v:?}"),
        Ok(v) => vcheck!(v == t.unwrap_or_default() && (v.is_nil() || v.is_array_ty()), "try_convert of {x:?} gave {v:?}"),
        Err(e) => vcheck!(e.kind == Kind::Type && t.is_some_and(|v| !v.is_nil() && !v.is_array_ty()), "try_convert of {x:?} raised {e:?}"),
    }
    case.count("class_side");
    Ok(())
}
/// The routines compiled code calls directly answer as the methods do.
fn fast(case: &mut Case, w: &mut World, p: &mut Play) -> Verdict {
    let r = case.rng.us(p.lists.len());
    let (me, before) = (p.lists[r].v, p.lists[r].m.clone());
    let class = me.real_class(&w.g.store).id();
    let name = *case.rng.pick(&["clone", "dup", "<<", "rotate!", "[]="]);
    if me.is_frozen() && !matches!(name, "clone" | "dup") || before.len() > 60 {
        return Ok(());
    }
    let Some(&ptr) = w.g.fast.get(name) else {
        eprintln!("no direct routine for {name}");
        std::process::exit(3);
    };
    let args = match name {
        "<<" => vec![element(case, p)],
        "rotate!" => vec![Value::integer(*case.rng.pick(&[0, 1, -1, 2, -3, 7, -9, i64::MAX, i64::MIN, i64::MIN + 1]))],
        "[]=" => {
            let n = before.len() as i64;
            let v = if case.rng.chance(1, 4) { element(case, p) } else { list_arg(case, p, r) };
            vec![Value::integer(span(&mut case.rng, -n - 2, n + 3)), Value::integer(case.rng.below(9) as i64), v]
        }
        _ => vec![],
    };
    let mut m = before.clone();
    let want = model(name, &mut Ctx { m: &mut m, me, class, a: &args, sim: None });
    let mark = heap_mark();
    case.op(|| format!("direct {name} on {before:?} with {args:?}"));
    TOLD.with_borrow_mut(|t| t.clear());
    let got: Option<Value> = unsafe {
        match name {
            "clone" => Some(std::mem::transmute::<usize, extern "C" fn(Value) -> Value>(ptr as usize)(me)),
            "dup" => Some(std::mem::transmute::<usize, extern "C" fn(Value, &Globals) -> Value>(ptr as usize)(me, &w.g)),
            "<<" => Some(std::mem::transmute::<usize, extern "C" fn(Array, Value) -> Value>(ptr as usize)(me.as_array(), args[0])),
            "rotate!" => Some(std::mem::transmute::<usize, extern "C" fn(Array, i64) -> Value>(ptr as usize)(me.as_array(), m_int(args[0]).unwrap())),
            _ => std::mem::transmute::<usize, extern "C" fn(Value, i64, usize, Value, &mut Executor, &mut Globals) -> Option<Value>>(ptr as usize)(
                me,
                m_int(args[0]).unwrap(),
                m_int(args[1]).unwrap() as usize,
                args[2],
                &mut w.vm,
                &mut w.g,
            ),
        }
    };
    let what = format!("the direct {name} on {before:?} with {args:?}");
    match (&want, got) {
        (Ok(r), Some(v)) => {
            fits(r, v, me, class, mark).map_err(|e| vh::Violation(format!("{what} {e}")))?;
            if let Like(_) = r {
                vcheck!(v.is_frozen() == (me.is_frozen() && name == "clone"), "{what}: frozen of the copy is {}", v.is_frozen());
            }
        }
        (Err(e), None) => {
            let f = w.vm.take_error();
            vcheck!(f.kind == e.kind || name == "[]=" && matches!((&f.kind, &e.kind), (Kind::Index, Kind::Type)), "{what} raised {f:?}, expected {e:?}");
        }
        _ => vbail!("{what} gave {got:?}, expected {want:?}"),
    }
    let now = me.as_array().to_vec();
    if now.iter().any(|v| !v.is_packed_value() && !before.contains(v)) {
        vcheck!(TOLD.with_borrow(|t| t.contains(&me.bits())), "{what} stored an object and did not tell the collector");
    }
    if want.is_ok() {
        p.lists[r].m = m;
    }
    case.count("direct");
    check_lists(p, &what).map_err(vh::Violation)
}
/// Arrays that hold themselves.
fn recursive(case: &mut Case, w: &mut World) -> Verdict {
    let k = case.rng.us(3);
    let mut make = || {
        let a = Value::array_from_iter((0..k as i64).map(Value::integer));
        let inner = if case.rng.chance(1, 2) { a } else { Value::array1(a) };
        a.as_array().push(inner);
        (a, inner != a)
    };
    let (a, deep) = make();
    let head: String = (0..k).map(|i| format!("{i}, ")).collect();
    let text = if deep { format!("[{head}[[...]]]") } else { format!("[{head}[...]]") };
    let mut call = |name: &str, args: &[Value]| invoke(w, name, a, args, &[], None);
    match call("inspect", &[]) {
        Ok(v) => vcheck!(plain_to_s(v) == text, "inspect of an array holding itself gave {:?}, expected {text:?}", plain_to_s(v)),
        Err(e) => vbail!("inspect of an array holding itself raised {e:?}"),
    }
    for name in ["flatten", "flatten!", "join"] {
        let got = call(name, &[]);
        vcheck!(matches!(&got, Err(e) if e.kind == Kind::Argument), "{name} of an array holding itself gave {:?}", got.is_ok());
    }
    for name in ["==", "eql?"] {
        let got = call(name, &[a]);
        vcheck!(matches!(got, Ok(v) if v == Value::bool(true)), "{name} of an array holding itself with itself gave {:?}", got.is_ok());
    }
    vcheck!(call("hash", &[]).is_ok(), "hash of an array holding itself raised");
    vcheck!(value::guards_left() == 0, "a recursion guard was left behind");
    vcheck!(a.as_array().len() == k + 1, "an array holding itself was changed");
    case.count("recursive");
    Ok(())
}
/// Joining texts of different encodings.
fn encodings(case: &mut Case, w: &mut World) -> Verdict {
    use value::{Encoding, RStringInner};
    let encs = [Encoding::Utf8, Encoding::Ascii8, Encoding::Latin1, Encoding::UsAscii];
    let k = case.rng.us(5);
    let texts: Vec<(Vec<u8>, Encoding)> = (0..k + 1)
        .map(|_| {
            let e = *case.rng.pick(&encs);
            let b: &[u8] = match e {
                Encoding::Utf8 => *case.rng.pick(&[b"" as &[u8], b"ab", b"\xc3\xa9"]),
                Encoding::UsAscii => b"us",
                _ => *case.rng.pick(&[b"" as &[u8], b"x", b"\xe9"]),
            };
            (b.to_vec(), e)
        })
        .collect();
    let value = |t: &(Vec<u8>, Encoding)| Value::string_from_inner(RStringInner::from_encoding(&t.0, t.1));
    let a = Value::array_from_iter(texts[1..].iter().map(value));
    let got = invoke(w, "join", a, &[value(&texts[0])], &[], None);
    let used: Vec<_> = texts[1..].iter().enumerate().flat_map(|(i, t)| if i == 0 { vec![t] } else { vec![&texts[0], t] }).collect();
    let wide: Vec<_> = used.iter().filter(|t| !t.0.is_ascii()).map(|t| t.1).collect();
    let clash = wide.iter().any(|e| *e != wide[0]);
    match got {
        Ok(v) => {
            vcheck!(!clash, "join of {texts:?} mixed encodings");
            let s = v.is_rstring_inner().unwrap();
            let bytes: Vec<u8> = used.iter().flat_map(|t| t.0.clone()).collect();
            vcheck!(s.as_bytes() == bytes, "join of {texts:?} gave {:?}", s.as_bytes());
            vcheck!(wide.is_empty() || s.encoding() == wide[0], "join of {texts:?} is in {:?}", s.encoding());
        }
        Err(e) => vcheck!(clash && e.kind == Kind::Encoding, "join of {texts:?} raised {e:?}"),
    }
    case.count("encodings");
    Ok(())
}

fn fits(want: &Res, got: Value, me: Value, class: ClassId, mark: usize) -> std::result::Result<(), String> {
    let bad = || Err(format!("answered {got:?}, expected {want:?}"));
    if !got.sound() {
        return Err("answered a value that no longer exists".to_string());
    }
    let fresh = |class: ClassId| -> std::result::Result<Array, String> {
        let Some(a) = got.try_array_ty() else { return Err(format!("answered {got:?}, expected {want:?}")) };
        if older(got, mark) {
            return Err(format!("answered an existing array {got:?}, expected a new one {want:?}"));
        }
        if got.class() != class {
            return Err(format!("answered an array of another class, {got:?}"));
        }
        match a.iter().find(|v| !v.sound()) {
            Some(_) => Err("answered an array holding a value that no longer exists".to_string()),
            None => Ok(a),
        }
    };
    match want {
        Any => Ok(()),
        Me => if got == me { Ok(()) } else { bad() },
        Val(v) => if ident(got, *v) { Ok(()) } else { bad() },
        Tie(v, _) => if ident(got, *v) || m_cmp(got, *v) == Some(Ordering::Equal) { Ok(()) } else { bad() },
        Int(i) => if got.try_fixnum() == Some(*i) { Ok(()) } else { bad() },
        Bool(b) => if got == Value::bool(*b) { Ok(()) } else { bad() },
        Num(v) => match (v.unpack(), got.unpack()) {
            (RV::Float(x), RV::Float(y)) => {
                if x == y || x.is_nan() && y.is_nan() || (x - y).abs() <= 1e-6 * (1.0 + x.abs()) || x.abs() > 1e15 { Ok(()) } else { bad() }
            }
            _ => if same(got, *v) { Ok(()) } else { bad() },
        },
        Text(s) => if got.is_rstring_inner().is_some_and(|x| x.as_bytes() == s.as_bytes()) { Ok(()) } else { bad() },
        New(list) => {
            let a = fresh(ARRAY_CLASS)?;
            if a.len() != list.len() || got.is_frozen() {
                return bad();
            }
            for (w, v) in list.iter().zip(a.iter()) {
                if fits(w, *v, me, class, mark).is_err() {
                    return bad();
                }
            }
            Ok(())
        }
        Like(list) => {
            let a = fresh(class)?;
            if a.len() == list.len() && a.iter().zip(list).all(|(x, y)| ident(*x, *y)) { Ok(()) } else { bad() }
        }
        Table(t) => {
            let Some(h) = got.is_hash() else { return bad() };
            if h.0.len() != t.len() {
                return bad();
            }
            for (e, (k, w)) in h.0.iter().zip(t) {
                if !ident(e.1, *k) && !same(e.1, *k) || fits(w, e.2, me, class, mark).is_err() {
                    return bad();
                }
            }
            Ok(())
        }
        Sorted(..) => unreachable!(),
        Lazy(size) => match got.rv().map(|r| &r.kind) {
            Some(ObjKind::Enumerator { recv, size: s, .. }) => {
                if *recv != me {
                    return Err("made an enumerator over something else".to_string());
                }
                match (size, s.and_then(|v| v.try_fixnum())) {
                    (Some(n), Some(k)) if *n != k => Err(format!("made an enumerator of size {k}, expected {n}")),
                    _ => Ok(()),
                }
            }
            _ => bad(),
        },
    }
}
/// The same elements, each as often, in the order of their keys.
fn in_order(want: &[(Value, Value)], got: &[Value]) -> bool {
    let mut left: Vec<_> = want.to_vec();
    let mut last: Option<Value> = None;
    for v in got {
        // Among equal candidates the one with the smallest key is taken.
        let Some(i) = (0..left.len()).find(|i| ident(left[*i].0, *v)) else { return false };
        let k = left.remove(i).1;
        if last.is_some_and(|l| want[0].1 != Value::nil() && m_cmp(l, k) != m_cmp(l, l) && m_cmp(l, k) != m_cmp(want[0].1, want[want.len() - 1].1)) {
            return false;
        }
        last = Some(k);
    }
    left.is_empty()
}
fn permuted(a: &[Value], b: &[Value]) -> bool {
    in_order(&a.iter().map(|v| (*v, Value::nil())).collect::<Vec<_>>(), b)
}

fn check_lists(p: &Play, after: &str) -> std::result::Result<(), String> {
    for k in &p.lists {
        let a = k.v.as_array();
        if let Some(i) = a.iter().position(|v| !v.sound()) {
            return Err(format!("after {after} an array holds at {i} a value that no longer exists"));
        }
        if a.len() != k.m.len() || !a.iter().zip(&k.m).all(|(x, y)| ident(*x, *y)) {
            return Err(format!("after {after} an array is {:?}, expected {:?}", k.v, k.m));
        }
    }
    Ok(())
}

fn step(case: &mut Case, w: &mut World, p: &mut Play) -> Verdict {
    let recv = case.rng.us(p.lists.len());
    let (name, shapes, blocks) = *case.rng.pick(METHODS);
    let shape = *case.rng.pick(shapes);
    let me = p.lists[recv].v;
    let (class, frozen) = (me.real_class(&w.g.store).id(), me.is_frozen());
    let mut args = make_args(case, p, recv, shape);
    if shape.starts_with("ii") && m_int(args[1]).is_err() {
        args[0] = Value::integer(0);
    }
    let kinds: Vec<char> = blocks.chars().collect();
    let mut kind = *case.rng.pick(&kinds);
    if kind == 'n' && kinds.len() > 1 && case.rng.chance(1, 2) {
        kind = kinds[1];
    }
    // A value and a block together: which one counts is left open.
    if kind == 'b' && shape == "v" && matches!(name, "count" | "find_index" | "index") {
        kind = 'n';
    }
    let len = p.lists[recv].m.len();
    if matches!(name, "__init_fill" | "*") && m_int(args[0]).is_ok_and(|i| i > 40 && i < HUGE) {
        args[0] = Value::integer(3);
    }
    if name == "product" && args.iter().filter_map(|v| m_ary(*v).ok()).map(|v| v.len()).product::<usize>() * len > 300 {
        return Ok(());
    }
    if len > 60 && name != "clear" && !name.starts_with("pop") && !name.starts_with("shift") {
        return Ok(());
    }
    let sim = make_block(case, p, kind);
    let raise_at = if p.quiet { 0 } else { 1 + case.rng.below(12) as u32 };
    let before = p.lists[recv].m.clone();
    // The model first, on copies.
    let mut m = before.clone();
    let mut sim_m = sim.clone();
    let want = model(name, &mut Ctx { m: &mut m, me, class, a: &args, sim: sim_m.as_mut() });
    case.op(|| format!("{before:?}{}.{name}({args:?}) {}", if frozen { ".freeze" } else { "" }, if sim.is_some() { "with a block" } else { "" }));

    let sim_r = sim.clone().map(|s| Rc::new(RefCell::new(s)));
    let asked = Rc::new(std::cell::Cell::new(0u32));
    let count = asked.clone();
    w.vm.on_call = Some(Box::new(move |_, _, method, _, _| {
        // Whether an error of this question is passed on is left open.
        if method == "respond_to?" {
            return Ok(());
        }
        count.set(count.get() + 1);
        if count.get() == raise_at { Err(MonorubyErr::new(Kind::Scripted(2), "an object raised")) } else { Ok(()) }
    }));
    let mark = heap_mark();
    TOLD.with_borrow_mut(|t| t.clear());
    vh::step();
    let got = invoke(w, name, me, &args, &[], sim_r.clone());
    w.vm.block = None;
    w.vm.on_call = None;
    w.vm.rand_pos = 0;
    case.count("calls");
    case.sig_bytes(format!("{name} {shape} {kind} {} {}", got.is_ok(), len.min(4)).as_bytes());
    let what = format!("{name} on {before:?} with {args:?}");
    vcheck!(w.vm.temps.is_empty(), "{what} left {} temporaries behind", w.vm.temps.len());
    vcheck!(value::guards_left() == 0, "{what} left a recursion guard behind");
    let trace_r: Vec<Vec<Value>> = sim_r.as_ref().map_or(vec![], |s| s.borrow().trace.clone());
    let calls_r = sim_r.as_ref().map_or(0, |s| s.borrow().calls);
    let mutator = MUTATORS.contains(&name);
    let now: Vec<Value> = me.as_array().to_vec();
    vcheck!(now.iter().all(|v| v.sound()), "{what} left a value that no longer exists in the array");
    if now.iter().any(|v| !v.is_packed_value() && !before.contains(v)) {
        case.count("stores");
        vcheck!(TOLD.with_borrow(|t| t.contains(&me.bits())), "{what} stored an object and did not tell the collector");
    }

    if frozen && mutator {
        case.count("frozen");
        let lazy = matches!(want, Ok(Lazy(_)));
        let untouched = name == "delete" && m.len() == before.len() || matches!(name, "__init_from") || name == "insert" && args.len() == 1;
        match &got {
            Err(e) if e.kind == Kind::Frozen => {}
            Err(e) if want.as_ref().err().is_some_and(|x| x.kind == e.kind) || matches!(e.kind, Kind::Scripted(_) | Kind::Type | Kind::Range) => {}
            Ok(_) if lazy || untouched => {}
            _ => vbail!("{what}: the array is frozen, yet the call answered {got:?}"),
        }
        return check_lists(p, &what).map_err(vh::Violation);
    }
    // An object raised in the middle.
    if raise_at > 0 && asked.get() >= raise_at {
        case.count("object_raised");
        match &got {
            Err(e) if e.kind == Kind::Scripted(2) => {}
            // Conversions that are only tried.
            _ if name == "zip" => {}
            _ => vbail!("{what}: an object raised and the call answered {got:?}"),
        }
        let loose = matches!(name, "delete" | "fill" | "sort!" | "filter!" | "select!" | "keep_if" | "reject!" | "delete_if");
        if mutator && loose {
            let mut left = before.clone();
            for v in &now {
                match left.iter().position(|x| ident(*x, *v)) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => vbail!("{what}: an object raised and the array became {now:?}"),
                }
            }
            vcheck!(name != "sort!" || left.is_empty(), "{what}: an object raised and the array became {now:?}");
            p.lists[recv].m = now;
        }
        return check_lists(p, &what).map_err(vh::Violation);
    }
    let free = kind == 'c';
    if let Some(s) = &sim
        && free
        && s.raise_at > 0
        && calls_r >= s.raise_at
    {
        case.count("block_raised");
        vcheck!(matches!(&got, Err(e) if e.kind == Kind::Scripted(1)), "{what}: the block raised and the call answered {got:?}");
        if mutator {
            vcheck!(permuted(&before, &now), "{what}: the block raised and the array became {now:?}");
            p.lists[recv].m = now;
        }
        return check_lists(p, &what).map_err(vh::Violation);
    }
    if sim.is_some() && !free {
        let trace_m = &sim_m.as_ref().unwrap().trace;
        let eq = trace_m.len() == trace_r.len()
            && trace_m.iter().zip(&trace_r).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(*x, *y)));
        if !matches!(want, Ok(Any)) {
            vcheck!(eq, "{what}: the block was called with {trace_r:?}, expected {trace_m:?}");
            case.count_n("block_calls", trace_r.len() as u64);
        }
    }
    match (&want, &got) {
        (Ok(Any), _) => {
            case.count("open");
            if mutator {
                vcheck!(permuted(&before, &now), "{what}: the array became {now:?}");
                p.lists[recv].m = now;
            }
        }
        // Not every method makes an enumerator.
        (Ok(Lazy(_)), Err(e)) if e.kind == Kind::LocalJump => {}
        (Ok(Sorted(list, inplace)), Ok(v)) => {
            case.count("sorted");
            if *inplace {
                vcheck!(*v == me, "{what} answered {v:?} instead of its receiver");
                vcheck!(in_order(list, &now), "{what} left {now:?}, expected {list:?}");
                p.lists[recv].m = now;
            } else {
                let Some(a) = v.try_array_ty() else { vbail!("{what} answered {v:?}") };
                vcheck!(!older(*v, mark) && v.class() == ARRAY_CLASS, "{what} answered an existing array or one of another class");
                vcheck!(in_order(list, &a), "{what} answered {v:?}, expected {list:?}");
            }
        }
        (Ok(r), Ok(v)) => {
            fits(r, *v, me, class, mark).map_err(|e| vh::Violation(format!("{what} {e}")))?;
            case.count("answers");
            case.nontrivial();
            p.lists[recv].m = m;
            match r {
                Like(l) => {
                    vcheck!(v.is_frozen() == (frozen && name == "clone"), "{what}: frozen of the copy is {}", v.is_frozen());
                    p.lists.push(Known { v: *v, m: l.clone() });
                }
                New(l) if l.iter().all(|r| matches!(r, Val(_))) => {
                    p.lists.push(Known { v: *v, m: v.as_array().to_vec() });
                }
                _ => {}
            }
        }
        (Err(e), Err(f)) => {
            let agree = match (&e.kind, &f.kind) {
                (Kind::NotMethod { .. }, Kind::NotMethod { .. }) => true,
                // Which of two faults is met first.
                (Kind::Type | Kind::Index, Kind::Type | Kind::Index) if matches!(name, "transpose" | "[]=") => true,
                (x, y) => x == y,
            };
            vcheck!(agree, "{what} raised {f:?}, expected {:?}", e.kind);
            case.count("errors");
            if matches!(e.kind, Kind::Scripted(_)) {
                case.count("block_raised");
                if name == "fill" {
                    // How far it grew before the block raised is open.
                    let keep = m.len().min(now.len());
                    vcheck!(now.len() >= m.len() && now[..keep].iter().zip(&m).all(|(x, y)| ident(*x, *y)) && now[keep..].iter().all(|v| v.is_nil()),
                        "{what}: the block raised and the array became {now:?}, expected {m:?}");
                    m = now;
                }
                p.lists[recv].m = m;
            }
        }
        _ => vbail!("{what} gave {got:?}, expected {want:?}"),
    }
    check_lists(p, &what).map_err(vh::Violation)
}

fn run(case: &mut Case, w: &mut World) -> Verdict {
    reset_heap();
    w.vm = Executor::default();
    w.g.random = None;
    let theme = case.rng.below(10);
    let mut p = Play { pool: vec![], lists: vec![], theme, quiet: case.rng.chance(3, 4) };
    for _ in 0..2 + case.rng.us(5) {
        let v = element(case, &p);
        p.pool.push(v);
    }
    for _ in 0..1 + case.rng.us(3) {
        let k = if case.rng.chance(1, 10) { 20 + case.rng.us(20) } else { case.rng.us(9) };
        let m: Vec<_> = (0..k).map(|_| element(case, &p)).collect();
        let class = *case.rng.pick(&[ARRAY_CLASS, ARRAY_CLASS, ARRAY_CLASS, SUB_CLASS]);
        let mut v = Value::array_with_class(ArrayInner::from(smallvec::SmallVec::from_slice(&m)), class);
        if case.rng.chance(1, 9) {
            v.set_frozen();
        }
        p.lists.push(Known { v, m });
    }
    for _ in 0..4 + case.rng.us(10) {
        if case.rng.chance(1, 25) {
            crashed(special(case, w, &mut p))?;
        }
        crashed(step(case, w, &mut p))?;
        if p.lists.len() > 12 {
            p.lists.truncate(6);
        }
    }
    Ok(())
}

fn main() {
    let mut g = Globals::default();
    builtins::init(&mut g);
    let mut w = World { vm: Executor::default(), g };
    vh::main_loop("c38", move |case| run(case, &mut w));
}
