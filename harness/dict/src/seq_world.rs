//! As much of the interpreter as ranges and arithmetic sequences ask for.
pub use num::{BigInt, ToPrimitive, Zero};
pub use plain_attr::monoruby_builtin;
pub use ruby_traits::{RubyEql, RubyHash};
pub use std::collections::HashSet;
pub use std::hash::Hash;
use std::cell::{Cell, RefCell};

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Argument,
    Range,
    Type,
    Runtime,
    Name,
    Frozen,
    NoMethod,
    NoBlock,
    /// Raised by a block of the test.
    Scripted,
}
#[derive(Clone, Debug)]
pub struct MonorubyErr {
    pub kind: Kind,
    pub msg: String,
}
impl MonorubyErr {
    pub fn new(kind: Kind, msg: impl ToString) -> Self {
        MonorubyErr { kind, msg: msg.to_string() }
    }
    pub fn argumenterr(m: impl ToString) -> Self {
        Self::new(Kind::Argument, m)
    }
    pub fn rangeerr(m: impl ToString) -> Self {
        Self::new(Kind::Range, m)
    }
    pub fn typeerr(m: impl ToString) -> Self {
        Self::new(Kind::Type, m)
    }
    pub fn runtimeerr(m: impl ToString) -> Self {
        Self::new(Kind::Runtime, m)
    }
    pub fn nameerr(m: impl ToString) -> Self {
        Self::new(Kind::Name, m)
    }
}

// Values.
#[derive(Debug)]
pub enum Obj {
    Nil,
    Bool(bool),
    Fixnum(i64),
    Big(BigInt),
    Float(f64),
    Str(String),
    /// Numerator and positive denominator, reduced.
    Rational(i128, i128),
    Array(Vec<Value>),
    Range(crate::rvalue::RangeInner, ClassId, Cell<bool>),
    Seq(crate::rvalue::ArithmeticSequenceInner),
    /// Answers `to_int`.
    Thing(Option<Value>),
    Other,
}
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Value(*const Obj);
impl PartialEq for Value {
    fn eq(&self, o: &Value) -> bool {
        self.0 == o.0
    }
}
impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self.obj() {
            Obj::Nil => write!(f, "nil"),
            Obj::Bool(b) => write!(f, "{b}"),
            Obj::Fixnum(i) => write!(f, "{i}"),
            Obj::Big(_) => write!(f, "{}", self.int().unwrap()),
            Obj::Float(x) => write!(f, "{x:?}"),
            Obj::Str(s) => write!(f, "{s:?}"),
            Obj::Rational(a, b) => write!(f, "({a}/{b})"),
            Obj::Array(l) => write!(f, "{l:?}"),
            Obj::Range(r, ..) => write!(f, "({:?}{}{:?})", r.start(), if r.exclude_end() { "..." } else { ".." }, r.end()),
            Obj::Seq(s) => write!(f, "({:?}{}{:?}).step({:?})", s.begin(), if s.exclude_end() { "..." } else { ".." }, s.end(), s.step()),
            Obj::Thing(v) => write!(f, "#<to_int {v:?}>"),
            Obj::Other => write!(f, "#<object>"),
        }
    }
}
thread_local!(static HEAP: RefCell<Vec<Box<Obj>>> = const { RefCell::new(Vec::new()) });
thread_local!(static WRITES: RefCell<Vec<(Value, Value)>> = const { RefCell::new(Vec::new()) });
/// Whether the collector was told that `from` now refers to `to`.
pub fn told(from: Value, to: Value) -> bool {
    WRITES.with_borrow(|w| w.contains(&(from, to)))
}
pub fn reset_heap() {
    WRITES.with_borrow_mut(|w| w.clear());
    HEAP.with_borrow_mut(|h| h.clear());
}
fn make(o: Obj) -> Value {
    HEAP.with_borrow_mut(|h| {
        h.push(Box::new(o));
        Value(&**h.last().unwrap())
    })
}
static NIL: SyncObj = SyncObj(Obj::Nil);
struct SyncObj(Obj);
unsafe impl Sync for SyncObj {}

pub enum RV<'a> {
    Nil,
    Bool(bool),
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
    Complex(()),
    String(&'a str),
    Object(()),
}
impl Value {
    pub fn obj(&self) -> &Obj {
        unsafe { &*self.0 }
    }
    pub fn nil() -> Value {
        Value(&NIL.0)
    }
    pub fn bool(b: bool) -> Value {
        make(Obj::Bool(b))
    }
    /// Small integers are immediate, as in the interpreter those of 63 bits.
    pub fn integer(i: i64) -> Value {
        if (-(1 << 62)..1 << 62).contains(&i) { make(Obj::Fixnum(i)) } else { make(Obj::Big(BigInt::from(i))) }
    }
    pub fn bigint(b: BigInt) -> Value {
        match i64::try_from(&b) {
            Ok(i) => Value::integer(i),
            Err(_) => make(Obj::Big(b)),
        }
    }
    pub fn int_of(i: i128) -> Value {
        match i64::try_from(i) {
            Ok(i) => Value::integer(i),
            Err(_) => make(Obj::Big(BigInt::from(i))),
        }
    }
    pub fn float(f: f64) -> Value {
        make(Obj::Float(f))
    }
    pub fn rational(n: i128, d: i128) -> Value {
        let (n, d) = reduce(n, d);
        make(Obj::Rational(n, d))
    }
    pub fn string_from_str(s: &str) -> Value {
        make(Obj::Str(s.to_string()))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        make(Obj::Array(v))
    }
    pub fn array_empty() -> Value {
        make(Obj::Array(vec![]))
    }
    pub fn thing(v: Option<Value>) -> Value {
        make(Obj::Thing(v))
    }
    pub fn other() -> Value {
        make(Obj::Other)
    }
    pub fn range(a: Value, b: Value, excl: bool) -> Value {
        make(Obj::Range(crate::rvalue::RangeInner::new(a, b, excl), RANGE_CLASS, Cell::new(true)))
    }
    pub fn range_uninit_with_class(c: ClassId) -> Value {
        make(Obj::Range(crate::rvalue::RangeInner::new_uninit(), c, Cell::new(false)))
    }
    pub fn arithmetic_sequence(b: Value, e: Value, s: Value, excl: bool) -> Value {
        make(Obj::Seq(crate::rvalue::ArithmeticSequenceInner::new(b, e, s, excl)))
    }
    pub fn unpack(&self) -> RV<'_> {
        match self.obj() {
            Obj::Nil => RV::Nil,
            Obj::Bool(b) => RV::Bool(*b),
            Obj::Fixnum(i) => RV::Fixnum(*i),
            Obj::Big(b) => RV::BigInt(b),
            Obj::Float(f) => RV::Float(*f),
            Obj::Str(s) => RV::String(s),
            _ => RV::Object(()),
        }
    }
    pub fn is_nil(&self) -> bool {
        matches!(self.obj(), Obj::Nil)
    }
    pub fn as_bool(&self) -> bool {
        !matches!(self.obj(), Obj::Nil | Obj::Bool(false))
    }
    pub fn is_linear(&self) -> bool {
        num_of(*self).is_some()
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        match self.obj() {
            Obj::Fixnum(i) => Some(*i),
            _ => None,
        }
    }
    pub fn try_float(&self) -> Option<f64> {
        match self.obj() {
            Obj::Float(f) => Some(*f),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i128> {
        match self.obj() {
            Obj::Fixnum(i) => Some(*i as i128),
            Obj::Big(b) => Some(i128::try_from(b.to_string().parse::<i128>().ok()?).unwrap()),
            _ => None,
        }
    }
    pub fn is_str(&self) -> Option<&str> {
        match self.obj() {
            Obj::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_immediate(&self) -> Option<Immediate> {
        None
    }
    pub fn is_kind_of(&self, _: &Store, class: ClassId) -> bool {
        class == NUMERIC_CLASS && num_of(*self).is_some()
    }
    pub fn class(&self) -> ClassId {
        match self.obj() {
            Obj::Range(_, c, _) => *c,
            _ => ClassId(0),
        }
    }
    pub fn as_array(&self) -> Array {
        Array(*self)
    }
    pub fn list(&self) -> Option<&[Value]> {
        match self.obj() {
            Obj::Array(l) => Some(l),
            _ => None,
        }
    }
    pub fn as_range(&self) -> &crate::rvalue::RangeInner {
        match self.obj() {
            Obj::Range(r, ..) => r,
            _ => panic!("not a range"),
        }
    }
    pub fn as_range_mut(&mut self) -> &mut crate::rvalue::RangeInner {
        match unsafe { &mut *(self.0 as *mut Obj) } {
            Obj::Range(r, ..) => r,
            _ => panic!("not a range"),
        }
    }
    pub fn as_arithmetic_sequence_inner(&self) -> &crate::rvalue::ArithmeticSequenceInner {
        match self.obj() {
            Obj::Seq(s) => s,
            _ => panic!("not a sequence"),
        }
    }
    pub fn is_frozen(&self) -> bool {
        matches!(self.obj(), Obj::Range(_, _, f) if f.get())
    }
    pub fn set_frozen(&mut self) {
        if let Obj::Range(_, _, f) = self.obj() {
            f.set(true);
        }
    }
    pub fn ensure_not_frozen(&self, _: &Store) -> Result<()> {
        if self.is_frozen() { Err(MonorubyErr::new(Kind::Frozen, "can't modify frozen")) } else { Ok(()) }
    }
    pub fn write_barrier(&self, to: Value) {
        WRITES.with_borrow_mut(|w| w.push((*self, to)));
    }
    pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
        match self.obj() {
            Obj::Fixnum(i) => Ok(*i),
            Obj::Float(f) if f.is_finite() && f.abs() < 1e15 => Ok(*f as i64),
            Obj::Big(_) => Err(MonorubyErr::rangeerr("bignum too big to convert into 'long'")),
            Obj::Thing(Some(v)) => v.try_fixnum().ok_or_else(|| MonorubyErr::typeerr("can't convert to Integer")),
            _ => Err(MonorubyErr::typeerr("no implicit conversion into Integer")),
        }
    }
    // For the texts, which are not compared.
    pub fn debug(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn to_s(&self, _: &Store) -> String {
        if self.is_nil() { String::new() } else { format!("{self:?}") }
    }
    pub fn inspect_inner(&self, _: &Store, _: &mut HashSet<u64>) -> String {
        format!("{self:?}")
    }
    pub fn mark(&self, alloc: &mut Allocator<RValue>) {
        alloc.marked.push(*self);
    }
}
impl RubyEql<Executor, Globals, MonorubyErr> for Value {
    fn eql(&self, o: &Value, _: &mut Executor, _: &mut Globals) -> Result<bool> {
        Ok(match (num_of(*self), num_of(*o)) {
            (Some(a), Some(b)) => a == b,
            _ => format!("{self:?}") == format!("{o:?}"),
        })
    }
}
impl RubyHash<Executor, Globals, MonorubyErr> for Value {
    fn ruby_hash<H: std::hash::Hasher>(&self, state: &mut H, _: &mut Executor, _: &mut Globals) -> Result<()> {
        format!("{self:?}").hash(state);
        Ok(())
    }
}
#[derive(Clone, Copy)]
pub struct Array(Value);
impl std::ops::Deref for Array {
    type Target = [Value];
    fn deref(&self) -> &[Value] {
        match unsafe { &*self.0.0 } {
            Obj::Array(l) => l,
            _ => panic!("not an array"),
        }
    }
}
impl From<Array> for Value {
    fn from(a: Array) -> Value {
        a.0
    }
}

// Numbers.
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
pub fn reduce(n: i128, d: i128) -> (i128, i128) {
    let g = gcd(n, d).max(1) * d.signum();
    (n / g, d / g)
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum N {
    Int(i128),
    Rat(i128, i128),
    Float(f64),
}
impl N {
    /// As a fraction, unless it is a float.
    pub fn exact(self) -> Option<(i128, i128)> {
        match self {
            N::Int(i) => Some((i, 1)),
            N::Rat(a, b) => Some((a, b)),
            N::Float(_) => None,
        }
    }
    pub fn f(self) -> f64 {
        match self {
            N::Int(i) => i as f64,
            N::Rat(a, b) => a as f64 / b as f64,
            N::Float(f) => f,
        }
    }
    pub fn value(self) -> Value {
        match self {
            N::Int(i) => Value::int_of(i),
            N::Rat(a, b) => Value::rational(a, b),
            N::Float(f) => Value::float(f),
        }
    }
    pub fn op(self, name: &str, o: N) -> Option<N> {
        let rat = matches!(self, N::Rat(..)) || matches!(o, N::Rat(..));
        let back = |n: i128, d: i128| {
            let (n, d) = reduce(n, d);
            if rat { N::Rat(n, d) } else { N::Int(n) }
        };
        Some(match (self.exact(), o.exact()) {
            (Some((a, b)), Some((c, d))) => match name {
                "+" => back(a * d + c * b, b * d),
                "-" => back(a * d - c * b, b * d),
                "*" => back(a * c, b * d),
                _ => return None,
            },
            _ => {
                let (a, b) = (self.f(), o.f());
                N::Float(match name {
                    "+" => a + b,
                    "-" => a - b,
                    "*" => a * b,
                    _ => return None,
                })
            }
        })
    }
    pub fn cmp(self, o: N) -> Option<std::cmp::Ordering> {
        match (self.exact(), o.exact()) {
            (Some((a, b)), Some((c, d))) => Some((a * d).cmp(&(c * b))),
            _ => self.f().partial_cmp(&o.f()),
        }
    }
}
pub fn num_of(v: Value) -> Option<N> {
    match v.obj() {
        Obj::Float(f) => Some(N::Float(*f)),
        Obj::Rational(a, b) => Some(N::Rat(*a, *b)),
        _ => v.int().map(N::Int),
    }
}

// Names.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct IdentId(pub &'static str);
#[allow(non_upper_case_globals)]
impl IdentId {
    pub const _MUL: IdentId = IdentId("*");
    pub const _ADD: IdentId = IdentId("+");
    pub const _SUB: IdentId = IdentId("-");
    pub const _GT: IdentId = IdentId(">");
    pub const _LT: IdentId = IdentId("<");
    pub const _GE: IdentId = IdentId(">=");
    pub const _LE: IdentId = IdentId("<=");
    pub const _EQ: IdentId = IdentId("==");
    pub const _DIV: IdentId = IdentId("/");
    pub const TO_S: IdentId = IdentId("to_s");
    pub const NEW: IdentId = IdentId("new");
    pub fn get_id(s: &'static str) -> IdentId {
        IdentId(s)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ClassId(pub u32);
pub const RANGE_CLASS: ClassId = ClassId(1);
pub const ARITHMETIC_SEQUENCE_CLASS: ClassId = ClassId(2);
pub const NUMERIC_CLASS: ClassId = ClassId(3);
pub const ENUMERATOR_CLASS: ClassId = ClassId(4);
pub const SUB_CLASS: ClassId = ClassId(5);

// The virtual machine.
pub type Block = Box<dyn FnMut(&[Value]) -> Result<Value>>;
#[derive(Default)]
pub struct Executor {
    pub block: Option<Block>,
    pub temps: Vec<Value>,
}
#[derive(Clone, Copy)]
pub struct BlockHandler;
pub struct ProcData;
#[derive(Clone, Copy)]
pub struct BytecodePtr;
impl Executor {
    fn number(&mut self, name: &str, a: Value, args: &[Value]) -> Result<Value> {
        let Some(x) = num_of(a) else { return Err(MonorubyErr::new(Kind::NoMethod, name)) };
        if name == "to_f" {
            return Ok(Value::float(x.f()));
        }
        let Some(y) = args.first().and_then(|v| num_of(*v)) else { return Err(MonorubyErr::typeerr("can't be coerced")) };
        use std::cmp::Ordering::*;
        let c = x.cmp(y);
        Ok(match name {
            ">" => Value::bool(c == Some(Greater)),
            "<" => Value::bool(c == Some(Less)),
            ">=" => Value::bool(matches!(c, Some(Greater | Equal))),
            "<=" => Value::bool(matches!(c, Some(Less | Equal))),
            "==" => Value::bool(c == Some(Equal)),
            "+" | "-" | "*" => x.op(name, y).unwrap().value(),
            _ => return Err(MonorubyErr::new(Kind::NoMethod, name)),
        })
    }
    pub fn invoke_method_inner(&mut self, _: &mut Globals, id: IdentId, recv: Value, args: &[Value], _: Option<BlockHandler>, _: Option<Value>) -> Result<Value> {
        let letter = |v: Value| v.is_str().and_then(|s| s.bytes().next());
        if id.0 == "to_a"
            && let r = recv.as_range()
            && let (Some(a), Some(z)) = (letter(r.start()), letter(r.end()))
        {
            let z = if r.exclude_end() { z } else { z + 1 };
            return Ok(Value::array_from_vec((a..z).map(|c| Value::string_from_str(&(c as char).to_string())).collect()));
        }
        self.number(id.0, recv, args)
    }
    pub fn compare_values_inner(&mut self, _: &mut Globals, a: Value, b: Value) -> Result<Option<std::cmp::Ordering>> {
        Ok(match (num_of(a), num_of(b)) {
            (Some(a), Some(b)) => a.cmp(b),
            _ => match (a.is_str(), b.is_str()) {
                (Some(a), Some(b)) => Some(a.cmp(b)),
                _ => None,
            },
        })
    }
    pub fn get_block_data(&mut self, _: &mut Globals, _: BlockHandler) -> Result<ProcData> {
        Ok(ProcData)
    }
    pub fn invoke_block(&mut self, _: &mut Globals, _: &ProcData, args: &[Value]) -> Result<Value> {
        (self.block.as_mut().expect("a block"))(args)
    }
    pub fn invoke_block_iter1(&mut self, g: &mut Globals, _: BlockHandler, iter: impl Iterator<Item = Value>) -> Result<()> {
        for v in iter {
            self.invoke_block(g, &ProcData, &[v])?;
        }
        Ok(())
    }
    pub fn invoke_block_map1(&mut self, g: &mut Globals, _: BlockHandler, iter: impl Iterator<Item = Value>, _: usize) -> Result<Value> {
        let mut l = vec![];
        for v in iter {
            l.push(self.invoke_block(g, &ProcData, &[v])?);
        }
        Ok(Value::array_from_vec(l))
    }
    pub fn invoke_block_flat_map1(&mut self, g: &mut Globals, _: BlockHandler, iter: impl Iterator<Item = Value>, _: usize) -> Result<Value> {
        let mut l = vec![];
        for v in iter {
            let r = self.invoke_block(g, &ProcData, &[v])?;
            match r.list() {
                Some(m) => l.extend_from_slice(m),
                None => l.push(r),
            }
        }
        Ok(Value::array_from_vec(l))
    }
    pub fn with_temp_scope<T>(&mut self, f: impl FnOnce(&mut Executor) -> T) -> T {
        let n = self.temps.len();
        let r = f(self);
        self.temps.truncate(n);
        r
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temps.push(v);
    }
}
#[derive(Clone)]
pub struct Lfp {
    me: Value,
    args: Vec<Option<Value>>,
    block: bool,
}
impl Lfp {
    pub fn new(me: Value, args: Vec<Option<Value>>, block: bool) -> Lfp {
        Lfp { me, args, block }
    }
    pub fn self_val(&self) -> Value {
        self.me
    }
    pub fn arg(&self, i: usize) -> Value {
        self.args.get(i).copied().flatten().unwrap_or_else(Value::nil)
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        self.args.get(i).copied().flatten()
    }
    pub fn block(&self) -> Option<BlockHandler> {
        self.block.then_some(BlockHandler)
    }
    pub fn expect_block(&self) -> Result<BlockHandler> {
        self.block().ok_or_else(|| MonorubyErr::new(Kind::NoBlock, "no block given"))
    }
}
pub type Func = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;
#[derive(Default)]
pub struct Globals {
    pub store: Store,
    pub funcs: std::collections::HashMap<(u32, &'static str), (Func, usize)>,
}
impl Globals {
    pub fn object_class(&self) -> ClassId {
        ClassId(0)
    }
    pub fn define_builtin_class(&mut self, _: &str, _: ClassId, _: ClassId, _: ClassId, _: ObjTy) {}
    pub fn define_builtin_class_under_obj(&mut self, _: &str, _: ClassId, _: ObjTy) {}
    fn put(&mut self, c: ClassId, n: &'static str, f: Func, max: usize) {
        self.funcs.insert((c.0, n), (f, max));
    }
    pub fn define_builtin_class_func(&mut self, c: ClassId, n: &'static str, f: Func, max: usize) {
        self.put(c, n, f, max);
    }
    pub fn define_builtin_inline_func(&mut self, c: ClassId, n: &'static str, f: Func, _: InlineGen, max: usize) {
        self.put(c, n, f, max);
    }
    pub fn define_builtin_func(&mut self, c: ClassId, n: &'static str, f: Func, max: usize) {
        self.put(c, n, f, max);
    }
    pub fn define_builtin_funcs(&mut self, c: ClassId, n: &'static str, more: &[&'static str], f: Func, max: usize) {
        self.put(c, n, f, max);
        for n in more {
            self.put(c, n, f, max);
        }
    }
    pub fn define_builtin_func_with(&mut self, c: ClassId, n: &'static str, f: Func, _: usize, max: usize, _: bool) {
        self.put(c, n, f, max);
    }
    pub fn define_private_builtin_func_with(&mut self, c: ClassId, n: &'static str, f: Func, _: usize, max: usize, _: bool) {
        self.put(c, n, f, max);
    }
}
#[derive(Default)]
pub struct Store {
    info: ClassInfo,
    site: CallSite,
}
impl Store {
    pub fn get_metaclass(&self, c: ClassId) -> Meta {
        Meta(c)
    }
    pub fn add_empty_method(&mut self, _: ClassId, _: IdentId, _: Visibility) {}
}
pub struct Meta(ClassId);
impl Meta {
    pub fn id(&self) -> ClassId {
        self.0
    }
}
pub enum Visibility {
    Undefined,
}
#[derive(Default)]
pub struct ClassInfo;
impl ClassInfo {
    pub fn clear_alloc_func(&mut self) {}
    pub fn set_alloc_func(&mut self, _: extern "C" fn(ClassId, &mut Globals) -> Value) {}
}
impl std::ops::Index<ClassId> for Store {
    type Output = ClassInfo;
    fn index(&self, _: ClassId) -> &ClassInfo {
        &self.info
    }
}
impl std::ops::IndexMut<ClassId> for Store {
    fn index_mut(&mut self, _: ClassId) -> &mut ClassInfo {
        &mut self.info
    }
}
impl std::ops::Index<CallSiteId> for Store {
    type Output = CallSite;
    fn index(&self, _: CallSiteId) -> &CallSite {
        &self.site
    }
}
#[allow(non_camel_case_types)]
pub enum ObjTy {
    RANGE,
    ARITHMETIC_SEQUENCE,
}
pub struct RValue;
/// Notes what it is shown.
pub struct Allocator<T> {
    pub marked: Vec<Value>,
    pub of: std::marker::PhantomData<T>,
}
pub trait GC<T> {
    fn mark(&self, alloc: &mut Allocator<T>);
}

// Code generation, which does not run here.
pub mod jitgen {
    pub use super::{AbstractState, JitContext};
}
pub type InlineGen = fn(&mut AbstractState, &mut AsmIr, &JitContext, &Store, CallSiteId, Option<ClassId>, Option<ClassId>) -> bool;
#[derive(Clone, Copy)]
pub struct CallSiteId;
#[derive(Clone, Copy, Default)]
pub struct SlotId;
#[derive(Default)]
pub struct CallSite {
    pub dst: Option<SlotId>,
    pub recv: SlotId,
}
impl CallSite {
    pub fn is_simple(&self) -> bool {
        true
    }
}
pub struct JitContext;
pub struct AbstractState;
pub struct AsmIr;
pub struct Immediate;
pub enum GP {
    Rax,
    Rdi,
}
#[allow(non_snake_case)]
impl AbstractState {
    pub fn load(&mut self, _: &mut AsmIr, _: SlotId, _: GP) {}
    pub fn def_reg2acc(&mut self, _: &mut AsmIr, _: GP, _: Option<SlotId>) {}
    pub fn def_C(&mut self, _: Option<SlotId>, _: Immediate) {}
    pub fn is_range_literal(&self, _: SlotId) -> Option<crate::rvalue::RangeInner> {
        None
    }
}
impl AsmIr {
    pub fn load_field_to_reg(&mut self, _: GP, _: GP, _: i32) {}
    pub fn bool_field_to_reg(&mut self, _: GP, _: GP, _: i32) {}
}
impl Immediate {
    pub fn bool(_: bool) -> Immediate {
        Immediate
    }
}
#[macro_export]
macro_rules! inline_gen2 {
    ($f:expr) => {
        $f as $crate::world::InlineGen
    };
}
