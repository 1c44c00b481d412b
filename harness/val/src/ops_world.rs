//! Just enough of an interpreter around the real operator code: values, a
//! class for each kind of number, and objects whose methods are scripted and
//! whose every call is recorded.  Nothing here is under test.

#![allow(dead_code, unused)]

pub use num::BigInt;
use num::ToPrimitive;
use std::cell::RefCell;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Clone, Debug, PartialEq)]
pub enum MonorubyErrKind {
    Argument,
    Range,
    Runtime,
    Type,
    ZeroDiv,
    NoMethod,
    FloatDomain,
    SystemExit(u8),
    Other(ClassId),
    /// Raised by a scripted method.
    Scripted(u32),
}
use MonorubyErrKind as Kind;

#[derive(Clone, Debug, PartialEq)]
pub struct MonorubyErr {
    pub kind: MonorubyErrKind,
    pub msg: String,
}

impl MonorubyErr {
    pub fn new(kind: MonorubyErrKind, msg: impl ToString) -> Self {
        MonorubyErr { kind, msg: msg.to_string() }
    }
    pub fn argumenterr(msg: impl ToString) -> Self {
        Self::new(Kind::Argument, msg)
    }
    pub fn rangeerr(msg: impl ToString) -> Self {
        Self::new(Kind::Range, msg)
    }
    pub fn typeerr(msg: impl ToString) -> Self {
        Self::new(Kind::Type, msg)
    }
    pub fn runtimeerr(msg: impl ToString) -> Self {
        Self::new(Kind::Runtime, msg)
    }
    pub fn divide_by_zero() -> Self {
        Self::new(Kind::ZeroDiv, "divided by 0")
    }
    pub fn exponent_is_too_large() -> Self {
        Self::new(Kind::Argument, "exponent is too large")
    }
    pub fn cant_coerced_into(_: &Store, _: IdentId, v: Value, ty: &str) -> Self {
        Self::new(Kind::Type, format!("{v:?} can't be coerced into {ty}"))
    }
    pub fn cant_convert_into_float(_: &Store, v: Value) -> Self {
        Self::new(Kind::Type, format!("can't convert {v:?} into Float"))
    }
    pub fn no_implicit_conversion(_: &Store, v: Value, _: ClassId) -> Self {
        Self::new(Kind::Type, format!("no implicit conversion of {v:?}"))
    }
    pub fn float_out_of_range_of_integer(f: f64) -> Self {
        Self::new(Kind::FloatDomain, f)
    }
    pub fn method_not_found(_: &Store, id: IdentId, _: Value) -> Self {
        Self::new(Kind::NoMethod, id.name())
    }
    pub fn kind(&self) -> &MonorubyErrKind {
        &self.kind
    }
    pub fn message(&self) -> &str {
        &self.msg
    }
    pub fn show_error_message_and_all_loc(&self, _: &Store) {
        SHOWN.with_borrow_mut(|s| s.push(self.clone()));
    }
}

thread_local! {
    pub static SHOWN: RefCell<Vec<MonorubyErr>> = const { RefCell::new(Vec::new()) };
    static NAMES: RefCell<Vec<String>> = RefCell::new(OPS.iter().map(|s| s.to_string()).collect());
    static HEAP: RefCell<Vec<*mut ObjKind>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ClassId(pub u32);
pub const OBJECT_CLASS: ClassId = ClassId(1);
pub const INTEGER_CLASS: ClassId = ClassId(2);
pub const FLOAT_CLASS: ClassId = ClassId(3);
pub const COMPLEX_CLASS: ClassId = ClassId(4);
pub const RATIONAL_CLASS: ClassId = ClassId(5);
pub const OTHER_CLASS: ClassId = ClassId(6);
pub const NUMERIC_CLASS: ClassId = ClassId(7);

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct IdentId(u32);

const OPS: &[&str] =
    &["+", "-", "*", "/", "%", "**", "==", "!=", "===", ">=", ">", "<=", "<", "<=>", "&", "|", "^", "<<", ">>", "-@", "+@", "!", "~", "to_s", "[]"];
impl IdentId {
    pub const _ADD: IdentId = IdentId(0);
    pub const _SUB: IdentId = IdentId(1);
    pub const _MUL: IdentId = IdentId(2);
    pub const _DIV: IdentId = IdentId(3);
    pub const _REM: IdentId = IdentId(4);
    pub const _POW: IdentId = IdentId(5);
    pub const _EQ: IdentId = IdentId(6);
    pub const _NEQ: IdentId = IdentId(7);
    pub const _TEQ: IdentId = IdentId(8);
    pub const _GE: IdentId = IdentId(9);
    pub const _GT: IdentId = IdentId(10);
    pub const _LE: IdentId = IdentId(11);
    pub const _LT: IdentId = IdentId(12);
    pub const _CMP: IdentId = IdentId(13);
    pub const _BAND: IdentId = IdentId(14);
    pub const _BOR: IdentId = IdentId(15);
    pub const _BXOR: IdentId = IdentId(16);
    pub const _SHL: IdentId = IdentId(17);
    pub const _SHR: IdentId = IdentId(18);
    pub const _UMINUS: IdentId = IdentId(19);
    pub const _UPLUS: IdentId = IdentId(20);
    pub const _NOT: IdentId = IdentId(21);
    pub const _BNOT: IdentId = IdentId(22);
    pub const TO_S: IdentId = IdentId(23);
    pub const _INDEX: IdentId = IdentId(24);
    pub fn get_id(name: &str) -> IdentId {
        NAMES.with_borrow_mut(|n| {
            let i = n.iter().position(|s| s == name).unwrap_or_else(|| {
                n.push(name.to_string());
                n.len() - 1
            });
            IdentId(i as u32)
        })
    }
    pub fn name(self) -> String {
        NAMES.with_borrow(|n| n[self.0 as usize].clone())
    }
    pub fn compare(&self, o: &IdentId) -> std::cmp::Ordering {
        self.name().cmp(&o.name())
    }
}
impl std::fmt::Debug for IdentId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, ":{}", self.name())
    }
}

/// What a scripted method does.
#[derive(Clone, Debug)]
pub enum Act {
    Give(Value),
    Raise(MonorubyErr),
    Do(usize),
}

#[derive(Clone, Debug)]
pub struct Str(pub Vec<u8>, pub u8);
impl PartialEq for Str {
    fn eq(&self, o: &Str) -> bool {
        self.0 == o.0
    }
}
impl Str {
    pub fn compatible_encoding(&self, o: &Str) -> Option<u8> {
        (self.1 == o.1 || self.0.is_ascii() && o.0.is_ascii()).then_some(self.1)
    }
}

pub enum ObjKind {
    Float(f64),
    Big(BigInt),
    Str(Str),
    Ary(Vec<Value>),
    Range(RangeInner),
    Complex(rvalue::complex::ComplexInner),
    Rational(rvalue::rational::RationalInner),
    Class(ClassId),
    /// An object with scripted methods; the flag says whether it is a
    /// Numeric.
    Custom(Vec<(IdentId, Act)>, bool),
}

#[derive(Clone, Copy, Debug)]
pub struct RangeInner {
    pub start: Value,
    pub end: Value,
    pub excl: bool,
}
impl RangeInner {
    pub fn start(&self) -> Value {
        self.start
    }
    pub fn end(&self) -> Value {
        self.end
    }
    pub fn exclude_end(&self) -> bool {
        self.excl
    }
}

/// bit 0: Integer; 2, 4, 6: nil, true, false; low byte 0x0c: Symbol; else a
/// heap object.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct Value(u64);

const NIL: u64 = 2;
const TRUE: u64 = 4;
const FALSE: u64 = 6;

pub enum RV<'a> {
    Nil,
    Bool(bool),
    Fixnum(i64),
    Float(f64),
    BigInt(&'a BigInt),
    String(&'a Str),
    Symbol(IdentId),
    Complex(&'a num::complex::Complex<Real>),
    Object,
}

pub fn reset_heap() {
    HEAP.with_borrow_mut(|h| h.drain(..).for_each(|p| drop(unsafe { Box::from_raw(p) })));
    SHOWN.with_borrow_mut(|s| s.clear());
}

fn alloc(k: ObjKind) -> Value {
    let p = Box::into_raw(Box::new(k));
    HEAP.with_borrow_mut(|h| h.push(p));
    Value(p as u64)
}

impl Value {
    pub fn nil() -> Value {
        Value(NIL)
    }
    pub fn bool(b: bool) -> Value {
        Value(if b { TRUE } else { FALSE })
    }
    pub fn integer(i: i64) -> Value {
        if i >= -(1 << 62) && i < 1 << 62 { Value((i << 1) as u64 | 1) } else { alloc(ObjKind::Big(BigInt::from(i))) }
    }
    pub fn fixnum(i: i64) -> Value {
        Value::integer(i)
    }
    pub fn bigint(b: BigInt) -> Value {
        match b.to_i64() {
            Some(i) => Value::integer(i),
            None => alloc(ObjKind::Big(b)),
        }
    }
    pub fn float(f: f64) -> Value {
        alloc(ObjKind::Float(f))
    }
    pub fn symbol(id: IdentId) -> Value {
        Value((id.0 as u64) << 8 | 0x0c)
    }
    pub fn string(s: String) -> Value {
        alloc(ObjKind::Str(Str(s.into_bytes(), 0)))
    }
    pub fn string_from_str(s: &str) -> Value {
        Value::string(s.to_string())
    }
    pub fn string_in(s: &[u8], enc: u8) -> Value {
        alloc(ObjKind::Str(Str(s.to_vec(), enc)))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        alloc(ObjKind::Ary(v))
    }
    pub fn array2(a: Value, b: Value) -> Value {
        alloc(ObjKind::Ary(vec![a, b]))
    }
    pub fn range(start: Value, end: Value, excl: bool) -> Value {
        alloc(ObjKind::Range(RangeInner { start, end, excl }))
    }
    pub fn complex(re: impl Into<Real>, im: impl Into<Real>) -> Value {
        alloc(ObjKind::Complex(rvalue::complex::ComplexInner::new(re.into(), im.into())))
    }
    pub fn complex_from(c: num::complex::Complex<Real>) -> Value {
        alloc(ObjKind::Complex(c.into()))
    }
    pub fn rational(n: impl Into<BigInt>, d: impl Into<BigInt>) -> Value {
        alloc(ObjKind::Rational(rvalue::rational::RationalInner::new(n, d)))
    }
    pub fn rational_from_inner(r: rvalue::rational::RationalInner) -> Value {
        alloc(ObjKind::Rational(r))
    }
    pub fn custom(methods: Vec<(&str, Act)>, numeric: bool) -> Value {
        alloc(ObjKind::Custom(methods.into_iter().map(|(n, a)| (IdentId::get_id(n), a)).collect(), numeric))
    }
    pub fn class_obj(c: ClassId) -> Value {
        alloc(ObjKind::Class(c))
    }
    pub fn obj(&self) -> Option<&ObjKind> {
        if self.0 & 1 == 1 || self.0 & 0xff == 0x0c || self.0 <= FALSE { None } else { Some(unsafe { &*(self.0 as *const ObjKind) }) }
    }
    pub fn id(&self) -> u64 {
        self.0
    }
    pub fn unpack(&self) -> RV<'_> {
        match self.0 {
            NIL => RV::Nil,
            TRUE => RV::Bool(true),
            FALSE => RV::Bool(false),
            v if v & 1 == 1 => RV::Fixnum(v as i64 >> 1),
            v if v & 0xff == 0x0c => RV::Symbol(IdentId((v >> 8) as u32)),
            _ => match self.obj().unwrap() {
                ObjKind::Float(f) => RV::Float(*f),
                ObjKind::Big(b) => RV::BigInt(b),
                ObjKind::Str(s) => RV::String(s),
                ObjKind::Complex(c) => RV::Complex(c),
                _ => RV::Object,
            },
        }
    }
    pub fn class(&self) -> ClassId {
        match self.unpack() {
            RV::Fixnum(_) | RV::BigInt(_) => INTEGER_CLASS,
            RV::Float(_) => FLOAT_CLASS,
            RV::Complex(_) => COMPLEX_CLASS,
            _ if self.try_rational().is_some() => RATIONAL_CLASS,
            _ => OTHER_CLASS,
        }
    }
    pub fn is_nil(&self) -> bool {
        self.0 == NIL
    }
    pub fn as_bool(&self) -> bool {
        self.0 != NIL && self.0 != FALSE
    }
    pub fn is_packed_value(&self) -> bool {
        self.obj().is_none()
    }
    pub fn is_integer(&self) -> bool {
        matches!(self.unpack(), RV::Fixnum(_) | RV::BigInt(_))
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        match self.unpack() {
            RV::Fixnum(i) => Some(i),
            _ => None,
        }
    }
    pub fn try_float(&self) -> Option<f64> {
        match self.unpack() {
            RV::Float(f) => Some(f),
            _ => None,
        }
    }
    pub fn as_big(&self) -> Option<BigInt> {
        match self.unpack() {
            RV::Fixnum(i) => Some(BigInt::from(i)),
            RV::BigInt(b) => Some(b.clone()),
            _ => None,
        }
    }
    pub fn try_rational(&self) -> Option<&rvalue::rational::RationalInner> {
        match self.obj()? {
            ObjKind::Rational(r) => Some(r),
            _ => None,
        }
    }
    pub fn try_complex(&self) -> Option<&rvalue::complex::ComplexInner> {
        match self.obj()? {
            ObjKind::Complex(c) => Some(c),
            _ => None,
        }
    }
    pub fn as_complex(&self) -> &rvalue::complex::ComplexInner {
        self.try_complex().unwrap()
    }
    pub fn try_array_ty(&self) -> Option<Vec<Value>> {
        match self.obj()? {
            ObjKind::Ary(a) => Some(a.clone()),
            _ => None,
        }
    }
    pub fn is_range(&self) -> Option<RangeInner> {
        match self.obj()? {
            ObjKind::Range(r) => Some(*r),
            _ => None,
        }
    }
    pub fn is_class_or_module(&self) -> Option<ClassId> {
        match self.obj()? {
            ObjKind::Class(c) => Some(*c),
            _ => None,
        }
    }
    pub fn as_class_id(&self) -> ClassId {
        self.is_class_or_module().unwrap()
    }
    pub fn is_kind_of(&self, _: &Store, c: ClassId) -> bool {
        match self.obj() {
            Some(ObjKind::Custom(_, numeric)) => c == NUMERIC_CLASS && *numeric,
            _ => matches!(self.class(), INTEGER_CLASS | FLOAT_CLASS | COMPLEX_CLASS | RATIONAL_CLASS) && c == NUMERIC_CLASS,
        }
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        format!("{:?}", self.class())
    }
    pub fn to_s(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn inspect(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn debug(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn dup(&self) -> Value {
        *self
    }
    pub fn deep_copy(&self) -> Value {
        *self
    }
    pub fn mark(&self, _: &mut Allocator<RValue>) {}
    pub fn eql(&self, o: &Value, _: &mut Executor, _: &mut Globals) -> Result<bool> {
        Ok(same(*self, *o))
    }
    pub fn coerce_to_int(&self, vm: &mut Executor, globals: &mut Globals) -> Result<Value> {
        match self.unpack() {
            RV::Fixnum(_) | RV::BigInt(_) => return Ok(*self),
            RV::Float(f) => return Value::coerce_f64_to_int(f),
            _ => {}
        }
        match vm.invoke_method_if_exists(globals, IdentId::get_id("to_int"), *self, &[], None, None)? {
            Some(v) if v.is_integer() => Ok(v),
            _ => Err(MonorubyErr::typeerr("no implicit conversion into Integer")),
        }
    }
    pub fn coerce_to_int_i64(&self, vm: &mut Executor, globals: &mut Globals) -> Result<i64> {
        match self.coerce_to_int(vm, globals)?.unpack() {
            RV::Fixnum(i) => Ok(i),
            RV::BigInt(b) => b.to_i64().ok_or_else(|| MonorubyErr::rangeerr("bignum too big to convert into 'long'")),
            _ => unreachable!(),
        }
    }
    pub fn coerce_f64_to_int(f: f64) -> Result<Value> {
        match <BigInt as num::FromPrimitive>::from_f64(f.trunc()) {
            Some(b) => Ok(Value::bigint(b)),
            None => Err(MonorubyErr::float_out_of_range_of_integer(f)),
        }
    }
}

/// Same kind of value with the same contents (any NaN equals any NaN).
pub fn same(a: Value, b: Value) -> bool {
    if a == b {
        return true;
    }
    match (a.unpack(), b.unpack()) {
        (RV::Float(x), RV::Float(y)) => x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan(),
        (RV::BigInt(x), RV::BigInt(y)) => x == y,
        (RV::Complex(x), RV::Complex(y)) => same(x.re.get(), y.re.get()) && same(x.im.get(), y.im.get()),
        _ => match (a.obj(), b.obj()) {
            (Some(ObjKind::Rational(x)), Some(ObjKind::Rational(y))) => x == y,
            _ => false,
        },
    }
}

impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.unpack() {
            RV::Nil => write!(f, "nil"),
            RV::Bool(b) => write!(f, "{b}"),
            RV::Fixnum(i) => write!(f, "{i}"),
            RV::Float(x) => write!(f, "{x:e}f"),
            RV::BigInt(b) => write!(f, "{b}"),
            RV::String(s) => write!(f, "{:?}", String::from_utf8_lossy(&s.0)),
            RV::Symbol(id) => write!(f, "{id:?}"),
            RV::Complex(c) => write!(f, "Complex({:?}, {:?})", c.re.get(), c.im.get()),
            RV::Object => match self.obj().unwrap() {
                ObjKind::Ary(a) => write!(f, "{a:?}"),
                ObjKind::Rational(r) => write!(f, "{}", r.inspect()),
                ObjKind::Range(r) => write!(f, "({:?}..{}{:?})", r.start, if r.excl { "." } else { "" }, r.end),
                ObjKind::Custom(m, n) => write!(f, "#<{} {m:?}>", if *n { "numeric" } else { "object" }),
                _ => write!(f, "#<class>"),
            },
        }
    }
}

pub struct RValue;
pub struct Allocator<T>(std::marker::PhantomData<T>);
pub trait GC<T> {
    fn mark(&self, alloc: &mut Allocator<T>);
}
pub mod rubymap {
    pub trait RubyEql<A, B, E> {
        fn eql(&self, other: &Self, a: &mut A, b: &mut B) -> std::result::Result<bool, E>;
    }
}
pub use rubymap::RubyEql;

#[derive(Default)]
pub struct Store {
    pub redefined: Vec<(ClassId, IdentId)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FuncId(pub u32);

impl Store {
    pub fn basic_op_redefined(&self) -> bool {
        !self.redefined.is_empty()
    }
    pub fn basic_op_redefined_for(&self, c: ClassId, op: IdentId) -> bool {
        self.redefined.contains(&(c, op))
    }
    pub fn custom_neq(&self, c: ClassId, _: u32) -> Option<FuncId> {
        self.redefined.contains(&(c, IdentId::_NEQ)).then_some(FuncId(IdentId::_NEQ.0))
    }
    pub fn no_to_str(&self, _: ClassId, _: u32) -> bool {
        true
    }
    pub fn get_constant_noautoload(&self, _: ClassId, id: IdentId) -> Option<Value> {
        (id.name() == "Numeric").then(|| Value::class_obj(NUMERIC_CLASS))
    }
    pub fn check_method(&self, v: Value, id: IdentId) -> Option<FuncId> {
        match v.obj() {
            Some(ObjKind::Custom(m, _)) => m.iter().any(|e| e.0 == id).then_some(FuncId(id.0)),
            _ => Some(FuncId(id.0)),
        }
    }
}

pub struct Globals {
    pub store: Store,
    pub main_object: Value,
    pub exit_trap_handler: Option<Value>,
    pub at_exit_handlers: Vec<Value>,
    pub finalizers: Vec<(u64, Value)>,
    pub verbose: Value,
    pub stderr: Value,
}
impl Default for Globals {
    fn default() -> Self {
        Globals {
            store: Store::default(),
            main_object: Value::nil(),
            exit_trap_handler: None,
            at_exit_handlers: vec![],
            finalizers: vec![],
            verbose: Value::nil(),
            stderr: Value::nil(),
        }
    }
}
impl std::ops::Deref for Globals {
    type Target = Store;
    fn deref(&self) -> &Store {
        &self.store
    }
}
impl Globals {
    pub fn class_version() -> u32 {
        1
    }
    pub fn get_gvar(&self, id: IdentId) -> Option<Value> {
        match id.name().as_str() {
            "$VERBOSE" => Some(self.verbose),
            "$stderr" => Some(self.stderr),
            _ => None,
        }
    }
}

/// One call made by the code under test.
#[derive(Clone, Debug)]
pub struct Call {
    pub recv: Value,
    pub id: IdentId,
    pub args: Vec<Value>,
    /// The visibility flag, where the call carries one.
    pub fcall: Option<bool>,
}

#[derive(Default)]
pub struct Executor {
    pub calls: Vec<Call>,
    pub error: Option<MonorubyErr>,
    pub errinfo: Option<Value>,
    pub temps: Vec<Value>,
    /// What every redefined operator answers.
    pub answer: Option<Act>,
    pub depth: usize,
    /// What `Act::Do` does.
    pub hook: Option<fn(&mut Executor, &mut Globals, usize, &[Value]) -> Result<Value>>,
}

impl Executor {
    pub fn set_error(&mut self, e: MonorubyErr) {
        self.error = Some(e);
    }
    pub fn take_error(&mut self) -> MonorubyErr {
        self.error.take().expect("an operation failed without an error")
    }
    pub fn err_divide_by_zero(&mut self) {
        self.set_error(MonorubyErr::divide_by_zero());
    }
    pub fn take_ex_obj(&mut self, _: &mut Globals) -> Value {
        let e = self.take_error();
        match e.kind {
            MonorubyErrKind::Scripted(n) => Value::integer(n as i64),
            _ => Value::string(e.msg),
        }
    }
    pub fn set_errinfo(&mut self, v: Value) {
        self.errinfo = Some(v);
    }
    pub fn with_temp_scope<T>(&mut self, f: impl FnOnce(&mut Executor) -> T) -> T {
        let n = self.temps.len();
        let r = f(self);
        self.temps.truncate(n);
        r
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temps.push(v);
    }

    fn dispatch(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value], fcall: Option<bool>) -> Result<Option<Value>> {
        self.calls.push(Call { recv, id, args: args.to_vec(), fcall });
        if let Some(ObjKind::Custom(m, _)) = recv.obj() {
            return match m.iter().find(|e| e.0 == id) {
                Some((_, Act::Give(v))) => Ok(Some(*v)),
                Some((_, Act::Raise(e))) => Err(e.clone()),
                Some((_, Act::Do(n))) => {
                    let (f, n) = (self.hook.expect("no hook"), *n);
                    f(self, g, n, args).map(Some)
                }
                None => Ok(None),
            };
        }
        if g.store.redefined.contains(&(recv.class(), id)) {
            return match self.answer.clone().expect("no answer scripted") {
                Act::Give(v) => Ok(Some(v)),
                Act::Raise(e) => Err(e),
                Act::Do(_) => unreachable!(),
            };
        }
        if recv.class() == OTHER_CLASS {
            // nil, a String, a Symbol: only the default ==
            return Ok((id == IdentId::_EQ).then(|| Value::bool(recv == args[0])));
        }
        if id.name() == "coerce" || recv.class() == RATIONAL_CLASS || recv.class() == COMPLEX_CLASS {
            // those methods are elsewhere; the call itself is what is judged
            return Ok(match id {
                IdentId::_EQ => Some(Value::bool(same(recv, args[0]))),
                _ => self.answer.clone().and_then(|a| match a {
                    Act::Give(v) => Some(v),
                    _ => None,
                }),
            });
        }
        self.depth += 1;
        if self.depth > 50 {
            return Err(MonorubyErr::new(MonorubyErrKind::Scripted(u32::MAX), "operator dispatch does not come to an end"));
        }
        let r = builtin(self, g, id, recv, args);
        self.depth -= 1;
        match r {
            Some(Some(v)) => Ok(Some(v)),
            Some(None) => Err(self.take_error()),
            None => Ok(None),
        }
    }
    pub fn invoke_method_if_exists(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value], _: Option<Value>, _: Option<Value>) -> Result<Option<Value>> {
        self.dispatch(g, id, recv, args, None)
    }
    pub fn invoke_method_inner(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value], _: Option<Value>, _: Option<Value>) -> Result<Value> {
        self.dispatch(g, id, recv, args, None)?.ok_or_else(|| MonorubyErr::method_not_found(&g.store, id, recv))
    }
    pub fn invoke_method_simple(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value]) -> Option<Value> {
        match self.invoke_method_inner(g, id, recv, args, None, None) {
            Ok(v) => Some(v),
            Err(e) => {
                self.set_error(e);
                None
            }
        }
    }
    pub fn invoke_method(&mut self, g: &mut Globals, id: IdentId, fcall: bool, recv: Value, args: &[Value], _: Option<Value>, _: Option<Value>) -> Option<Value> {
        match self.dispatch(g, id, recv, args, Some(fcall)) {
            Ok(Some(v)) => Some(v),
            Ok(None) => {
                self.set_error(MonorubyErr::method_not_found(&g.store, id, recv));
                None
            }
            Err(e) => {
                self.set_error(e);
                None
            }
        }
    }
    pub fn invoke_eq(&mut self, g: &mut Globals, lhs: Value, rhs: Value) -> Result<bool> {
        Ok(self.invoke_method_inner(g, IdentId::_EQ, lhs, &[rhs], None, None)?.as_bool())
    }
    pub fn invoke_eq_raw_vis(&mut self, g: &mut Globals, lhs: Value, rhs: Value, fcall: bool) -> Result<Value> {
        self.dispatch(g, IdentId::_EQ, lhs, &[rhs], Some(fcall))?.ok_or_else(|| MonorubyErr::method_not_found(&g.store, IdentId::_EQ, lhs))
    }
    pub fn find_method(&mut self, g: &mut Globals, recv: Value, id: IdentId, _: bool) -> Result<FuncId> {
        g.store.check_method(recv, id).ok_or_else(|| MonorubyErr::method_not_found(&g.store, id, recv))
    }
    pub fn invoke_func_inner(&mut self, g: &mut Globals, f: FuncId, recv: Value, args: &[Value], _: Option<Value>, _: Option<Value>) -> Result<Value> {
        self.invoke_method_inner(g, IdentId(f.0), recv, args, None, None)
    }
    pub fn cfp(&self) -> Cfp {
        Cfp
    }
}

/// The builtin method of that name, as a real lookup would reach it.
fn builtin(vm: &mut Executor, g: &mut Globals, id: IdentId, a: Value, args: &[Value]) -> Option<Option<Value>> {
    use executor::op::*;
    let b = *args.first()?;
    if matches!(id, IdentId::_BAND | IdentId::_BOR | IdentId::_BXOR) && a.as_big().is_none() {
        return None;
    }
    Some(match id {
        IdentId::_ADD => add_values_raw(vm, g, a, b, false),
        IdentId::_SUB => sub_values_raw(vm, g, a, b, false),
        IdentId::_MUL => mul_values_raw(vm, g, a, b, false),
        IdentId::_DIV => div_values_raw(vm, g, a, b, false),
        IdentId::_REM => rem_values_raw(vm, g, a, b, false),
        IdentId::_POW => pow_values_raw(vm, g, a, b, false),
        IdentId::_GE => cmp_ge_values_raw(vm, g, a, b, false),
        IdentId::_GT => cmp_gt_values_raw(vm, g, a, b, false),
        IdentId::_LE => cmp_le_values_raw(vm, g, a, b, false),
        IdentId::_LT => cmp_lt_values_raw(vm, g, a, b, false),
        IdentId::_BAND => bitand_values(vm, g, a, b, false),
        IdentId::_BOR => bitor_values(vm, g, a, b, false),
        IdentId::_BXOR => bitxor_values(vm, g, a, b, false),
        // only ever asked how a number relates to zero
        IdentId::_CMP => {
            let a = match a.unpack() {
                RV::Float(f) => f,
                _ => a.as_big()?.to_string().parse().unwrap(),
            };
            let b: f64 = b.as_big()?.to_string().parse().unwrap();
            Some(match a.partial_cmp(&b) {
                Some(o) => Value::integer(o as i64),
                None => Value::nil(),
            })
        }
        IdentId::_EQ => match vm.eq_values_vis_raw(g, a, b, true) {
            Ok(v) => Some(v),
            Err(e) => {
                vm.set_error(e);
                None
            }
        },
        _ => return None,
    })
}

// The rest of the interpreter that file mentions, never reached from here.
#[derive(Clone, Copy)]
pub struct Cfp;
#[derive(Clone, Copy)]
pub struct Lfp;
pub struct FuncInfo;
pub struct Meta;
pub struct ISeqInfo {
    pub sourcemap: Vec<Loc>,
    pub loc: Loc,
    pub sourceinfo: SourceInfo,
}
#[derive(Clone, Copy)]
pub struct Loc;
pub struct SourceInfo;
#[derive(Clone, Copy)]
pub struct ISeqId;
pub struct BcIndex;
impl BcIndex {
    pub fn to_usize(&self) -> usize {
        unreachable!()
    }
}
impl Cfp {
    pub fn prev(&self) -> Option<Cfp> {
        None
    }
    pub fn lfp(&self) -> Lfp {
        Lfp
    }
    pub fn caller_pc_slot(&self) -> usize {
        0
    }
}
impl Lfp {
    pub fn func_id(&self) -> FuncId {
        unreachable!()
    }
}
impl FuncInfo {
    pub fn is_iseq(&self) -> Option<ISeqId> {
        unreachable!()
    }
    pub fn meta(&self) -> Meta {
        unreachable!()
    }
}
impl Meta {
    pub fn is_svar_transparent(&self) -> bool {
        unreachable!()
    }
}
impl ISeqInfo {
    pub fn contains_pc(&self, _: crate::bytecode::BytecodePtr) -> bool {
        unreachable!()
    }
    pub fn get_pc_index(&self, _: Option<crate::bytecode::BytecodePtr>) -> BcIndex {
        unreachable!()
    }
}
impl SourceInfo {
    pub fn file_name(&self) -> &str {
        unreachable!()
    }
    pub fn get_line(&self, _: &Loc) -> usize {
        unreachable!()
    }
}
impl std::ops::Index<FuncId> for Store {
    type Output = FuncInfo;
    fn index(&self, _: FuncId) -> &FuncInfo {
        unreachable!()
    }
}
impl std::ops::Index<ISeqId> for Store {
    type Output = ISeqInfo;
    fn index(&self, _: ISeqId) -> &ISeqInfo {
        unreachable!()
    }
}

#[path = "/repo/monoruby/src/value/numeric.rs"]
pub mod numeric;
pub use numeric::*;

pub mod rvalue {
    use super::*;
    #[path = "/repo/monoruby/src/value/rvalue/complex.rs"]
    pub mod complex;
    #[path = "/repo/monoruby/src/value/rvalue/rational.rs"]
    pub mod rational;
}

#[path = "/repo/monoruby/src/executor"]
pub mod executor {
    use super::*;
    pub mod op;
}
