//! Just enough of an interpreter around the real string, packing and
//! formatting code: immediate and heap values, a heap that can be swept,
//! hashes, symbols and a method table with the handful of conversions those
//! files call.  Nothing here is under test.

#![allow(dead_code, unused)]

pub use num::BigInt;
use num::ToPrimitive;
pub use plain_attr::{monoruby_builtin, monoruby_object};
use std::cell::{Cell, RefCell};
pub use std::mem::ManuallyDrop;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

pub const STRING_INLINE_CAP: usize = 32;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Argument,
    Range,
    Runtime,
    Type,
    Key,
    Compat,
    NoMethod,
    Frozen,
    ZeroDiv,
    Float,
    Other,
}

#[derive(Clone, Debug)]
pub struct MonorubyErr {
    pub kind: Kind,
    pub msg: String,
}

macro_rules! errs {
    ($($f:ident $k:ident),*) => {$(
        pub fn $f(msg: impl ToString) -> MonorubyErr { MonorubyErr { kind: Kind::$k, msg: msg.to_string() } }
    )*};
}
impl MonorubyErr {
    errs!(argumenterr Argument, rangeerr Range, runtimeerr Runtime, typeerr Type, indexerr Other, floatdomainerr Float);
    pub fn divide_by_zero() -> Self {
        MonorubyErr { kind: Kind::ZeroDiv, msg: "divided by 0".into() }
    }
    pub fn keyerr_with(msg: impl ToString, _: Value, _: Value) -> Self {
        MonorubyErr { kind: Kind::Key, msg: msg.to_string() }
    }
    pub fn incompatible_encoding(_: &Store, a: rvalue::Encoding, b: rvalue::Encoding) -> Self {
        MonorubyErr { kind: Kind::Compat, msg: format!("{a:?} and {b:?}") }
    }
    pub fn encoding_compatibility_error_with_store(_: &Store, msg: impl ToString) -> Self {
        MonorubyErr { kind: Kind::Compat, msg: msg.to_string() }
    }
    pub fn method_not_found(_: &Store, id: IdentId, _: Value) -> Self {
        MonorubyErr { kind: Kind::NoMethod, msg: format!("{id:?}") }
    }
    pub fn cant_convert_into_float(_: &Globals, v: Value) -> Self {
        MonorubyErr { kind: Kind::Type, msg: format!("can't convert {v:?} into Float") }
    }
    pub fn cant_convert_error_f(_: &Globals, v: Value, _: Value) -> Self {
        MonorubyErr { kind: Kind::Type, msg: format!("can't convert {v:?} into Float") }
    }
}

#[derive(Default)]
pub struct Store {
    pub id: u8,
}

#[derive(Default)]
pub struct Globals {
    pub store: Store,
    pub verbose: bool,
    pub funcs: Vec<(String, BuiltinFn)>,
}

pub type BuiltinFn = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;

#[derive(Clone, Copy)]
pub struct BytecodePtr;

#[derive(Clone, Copy)]
pub struct Lfp(*const Value, usize);

impl Lfp {
    pub fn new(args: &[Value]) -> Lfp {
        Lfp(args.as_ptr(), args.len())
    }
    pub fn arg(&self, i: usize) -> Value {
        assert!(i < self.1);
        unsafe { *self.0.add(i) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ClassId(u32);
pub const STRING_CLASS: ClassId = ClassId(1);

impl std::ops::Deref for Globals {
    type Target = Store;
    fn deref(&self) -> &Store {
        &self.store
    }
}

#[derive(Default)]
pub struct Executor {
    pub warnings: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct IdentId(u32);

thread_local! {
    static NAMES: RefCell<Vec<String>> = RefCell::new(vec!["to_s".into(), "inspect".into(), "to_f".into()]);
    static HEAP: RefCell<Vec<*mut Obj>> = const { RefCell::new(Vec::new()) };
    static BARRIERS: RefCell<Vec<(Value, Value)>> = const { RefCell::new(Vec::new()) };
}

impl IdentId {
    pub const TO_S: IdentId = IdentId(0);
    pub const INSPECT: IdentId = IdentId(1);
    pub const TO_F: IdentId = IdentId(2);
    pub fn get_id(name: &str) -> IdentId {
        NAMES.with_borrow_mut(|n| {
            let i = n.iter().position(|s| s == name).unwrap_or_else(|| {
                n.push(name.to_string());
                n.len() - 1
            });
            IdentId(i as u32)
        })
    }
    pub fn name(self) -> String {
        NAMES.with_borrow(|n| n[self.0 as usize].clone())
    }
}

pub enum ObjKind {
    Float(f64),
    Big(BigInt),
    Str(rvalue::RStringInner),
    Ary(Vec<Value>),
    Hash(Vec<(Value, Value)>, Value),
    /// An object of a user class: what `to_s` and `inspect` give, and the
    /// number it converts to, if any.
    Custom { to_s: Option<Value>, inspect: Option<Value>, int: Option<Value>, str: Option<Value> },
}

pub struct Obj {
    pub kind: ObjKind,
    frozen: bool,
    marked: bool,
    pub live: bool,
}

/// bit 0: Integer; 2, 4, 6: nil, true, false; low byte 0x0c: Symbol; else a
/// heap object.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Value(u64);

const NIL: u64 = 2;
const TRUE: u64 = 4;
const FALSE: u64 = 6;

pub enum RV<'a> {
    Nil,
    Bool(bool),
    Fixnum(i64),
    Float(f64),
    BigInt(&'a BigInt),
    String(&'a rvalue::RStringInner),
    Symbol(IdentId),
    Object,
}

#[derive(Clone, Debug)]
pub enum IntegerBase {
    Fixnum(i64),
    BigInt(BigInt),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RoundHalf {
    Up,
    Down,
    Even,
}

pub mod heap {
    use super::*;

    pub fn alloc(kind: ObjKind) -> Value {
        let p = Box::into_raw(Box::new(Obj { kind, frozen: false, marked: false, live: true }));
        HEAP.with_borrow_mut(|h| h.push(p));
        Value(p as u64)
    }

    pub fn len() -> usize {
        HEAP.with_borrow(|h| h.len())
    }

    /// Free everything that cannot be reached from the roots.
    pub fn collect(roots: &[Value]) -> usize {
        fn mark(v: Value) {
            if let Some(o) = v.obj_mut() {
                if std::mem::replace(&mut o.marked, true) {
                    return;
                }
                match &o.kind {
                    ObjKind::Str(s) => {
                        if let Some(r) = s.shared_root() {
                            mark(r)
                        }
                    }
                    ObjKind::Ary(a) => a.iter().for_each(|v| mark(*v)),
                    ObjKind::Hash(h, d) => {
                        h.iter().for_each(|(k, v)| {
                            mark(*k);
                            mark(*v)
                        });
                        mark(*d)
                    }
                    ObjKind::Custom { to_s, inspect, int, str } => [to_s, inspect, int, str].into_iter().flatten().for_each(|v| mark(*v)),
                    _ => {}
                }
            }
        }
        roots.iter().for_each(|v| mark(*v));
        let dead: Vec<*mut Obj> = HEAP.with_borrow_mut(|h| {
            let all = std::mem::take(h);
            let (keep, dead): (Vec<_>, Vec<_>) = all.into_iter().partition(|&p| unsafe { (*p).marked });
            for &p in &keep {
                unsafe { (*p).marked = false };
            }
            *h = keep;
            dead
        });
        for &p in &dead {
            unsafe {
                (*p).live = false;
                drop(Box::from_raw(p));
            }
        }
        dead.len()
    }

    pub fn reset() {
        collect(&[]);
        BARRIERS.with_borrow_mut(|b| b.clear());
    }

    pub fn take_barriers() -> Vec<(Value, Value)> {
        BARRIERS.with_borrow_mut(std::mem::take)
    }
}

impl Value {
    pub fn nil() -> Value {
        Value(NIL)
    }
    pub fn bool(b: bool) -> Value {
        Value(if b { TRUE } else { FALSE })
    }
    pub fn integer(i: i64) -> Value {
        if i >= -(1 << 62) && i < 1 << 62 {
            Value((i << 1) as u64 | 1)
        } else {
            heap::alloc(ObjKind::Big(BigInt::from(i)))
        }
    }
    pub fn bigint(b: BigInt) -> Value {
        match b.to_i64() {
            Some(i) => Value::integer(i),
            None => heap::alloc(ObjKind::Big(b)),
        }
    }
    pub fn integer_from_u64(u: u64) -> Value {
        Value::bigint(BigInt::from(u))
    }
    pub fn float(f: f64) -> Value {
        heap::alloc(ObjKind::Float(f))
    }
    pub fn symbol_from_str(s: &str) -> Value {
        Value((IdentId::get_id(s).0 as u64) << 8 | 0x0c)
    }
    pub fn string(s: String) -> Value {
        Value::string_from_inner(rvalue::RStringInner::from_string(s))
    }
    pub fn string_from_str(s: &str) -> Value {
        Value::string_from_inner(rvalue::RStringInner::from_str(s))
    }
    pub fn bytes(b: Vec<u8>) -> Value {
        Value::string_from_inner(rvalue::RStringInner::bytes_from_vec(b))
    }
    pub fn string_from_inner(s: rvalue::RStringInner) -> Value {
        heap::alloc(ObjKind::Str(s))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        heap::alloc(ObjKind::Ary(v))
    }
    pub fn hash(m: RubyMap) -> Value {
        Value::hash_from(m.0, Value::nil())
    }
    pub fn expect_string(&self, _: &Store) -> Result<String> {
        match self.is_rstring_inner() {
            Some(s) => Ok(s.check_utf8()?.to_string()),
            None => Err(MonorubyErr::typeerr("no implicit conversion into String")),
        }
    }
    pub fn hash_from(v: Vec<(Value, Value)>, default: Value) -> Value {
        heap::alloc(ObjKind::Hash(v, default))
    }

    pub fn obj(&self) -> Option<&Obj> {
        self.obj_mut().map(|o| &*o)
    }
    fn obj_mut<'a>(self) -> Option<&'a mut Obj> {
        if self.0 & 1 == 1 || self.0 & 0xff == 0x0c || self.0 <= FALSE {
            None
        } else {
            let o = unsafe { &mut *(self.0 as *mut Obj) };
            Some(o)
        }
    }
    pub fn is_nil(&self) -> bool {
        self.0 == NIL
    }
    pub fn as_bool(&self) -> bool {
        self.0 != NIL && self.0 != FALSE
    }
    pub fn is_packed_value(&self) -> bool {
        self.obj().is_none()
    }
    pub fn is_integer(&self) -> bool {
        matches!(self.unpack(), RV::Fixnum(_) | RV::BigInt(_))
    }
    pub fn unpack(&self) -> RV<'_> {
        match self.0 {
            NIL => RV::Nil,
            TRUE => RV::Bool(true),
            FALSE => RV::Bool(false),
            v if v & 1 == 1 => RV::Fixnum(v as i64 >> 1),
            v if v & 0xff == 0x0c => RV::Symbol(IdentId((v >> 8) as u32)),
            _ => match &self.obj().unwrap().kind {
                ObjKind::Float(f) => RV::Float(*f),
                ObjKind::Big(b) => RV::BigInt(b),
                ObjKind::Str(s) => RV::String(s),
                _ => RV::Object,
            },
        }
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        match self.unpack() {
            RV::Fixnum(i) => Some(i),
            _ => None,
        }
    }
    pub fn try_float(&self) -> Option<f64> {
        match self.unpack() {
            RV::Float(i) => Some(i),
            _ => None,
        }
    }
    pub fn as_big(&self) -> Option<BigInt> {
        match self.unpack() {
            RV::Fixnum(i) => Some(BigInt::from(i)),
            RV::BigInt(b) => Some(b.clone()),
            _ => None,
        }
    }
    pub fn is_rstring_inner(&self) -> Option<&rvalue::RStringInner> {
        match &self.obj()?.kind {
            ObjKind::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_rstring_inner(&self) -> &rvalue::RStringInner {
        self.is_rstring_inner().unwrap()
    }
    pub fn as_rstring_inner_mut(&mut self) -> &mut rvalue::RStringInner {
        match &mut self.obj_mut().unwrap().kind {
            ObjKind::Str(s) => s,
            _ => unreachable!(),
        }
    }
    pub fn is_str(&self) -> Option<&str> {
        self.is_rstring_inner().and_then(|s| s.check_utf8().ok())
    }
    pub fn as_array(&self) -> &[Value] {
        match &self.obj().unwrap().kind {
            ObjKind::Ary(v) => v,
            _ => panic!("not an Array: {self:?}"),
        }
    }
    pub fn try_array(&self) -> Option<&[Value]> {
        match &self.obj()?.kind {
            ObjKind::Ary(v) => Some(v),
            _ => None,
        }
    }
    pub fn try_array_ty(&self) -> Option<Vec<Value>> {
        self.try_array().map(|a| a.to_vec())
    }
    pub fn try_hash_ty(&self) -> Option<Hashmap> {
        match &self.obj()?.kind {
            ObjKind::Hash(..) => Some(Hashmap(*self)),
            _ => None,
        }
    }
    pub fn is_frozen(&self) -> bool {
        self.obj().is_none_or(|o| o.frozen)
    }
    pub fn set_frozen(&mut self) {
        self.obj_mut().unwrap().frozen = true;
    }
    pub fn ensure_not_frozen(&self, _: &Store) -> Result<()> {
        if self.is_frozen() {
            return Err(MonorubyErr { kind: Kind::Frozen, msg: "can't modify frozen".into() });
        }
        Ok(())
    }
    pub fn write_barrier(&self, child: Value) {
        BARRIERS.with_borrow_mut(|b| b.push((*self, child)));
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        "Object".into()
    }
    pub fn id(&self) -> u64 {
        self.0
    }

    pub fn to_s(&self, _: &Store) -> String {
        match self.unpack() {
            RV::Nil => String::new(),
            RV::Bool(b) => b.to_string(),
            RV::Fixnum(i) => i.to_string(),
            RV::Float(f) => format!("{f:?}"),
            RV::BigInt(b) => b.to_string(),
            RV::String(s) => String::from_utf8_lossy(s.as_bytes()).into_owned(),
            RV::Symbol(id) => id.name(),
            RV::Object => "#<Object>".into(),
        }
    }
    pub fn inspect(&self, st: &Store) -> String {
        match self.unpack() {
            RV::Nil => "nil".into(),
            RV::String(s) => format!("\"{}\"", s.inspect()),
            RV::Symbol(id) => format!(":{}", id.name()),
            _ => self.to_s(st),
        }
    }
    pub fn coerce_to_s(&self, vm: &mut Executor, globals: &mut Globals) -> Result<String> {
        let v = vm.invoke_method_inner(globals, IdentId::TO_S, *self, &[], None, None)?;
        Ok(v.to_s(&globals.store))
    }
    pub fn coerce_to_integer(&self, _: &mut Executor, _: &mut Globals) -> Result<IntegerBase> {
        match self.unpack() {
            RV::Fixnum(i) => Ok(IntegerBase::Fixnum(i)),
            RV::BigInt(b) => Ok(IntegerBase::BigInt(b.clone())),
            _ => match self.obj().map(|o| &o.kind) {
                Some(ObjKind::Custom { int: Some(v), .. }) => Ok(match v.unpack() {
                    RV::Fixnum(i) => IntegerBase::Fixnum(i),
                    RV::BigInt(b) => IntegerBase::BigInt(b.clone()),
                    _ => unreachable!(),
                }),
                _ => Err(MonorubyErr::typeerr("can't convert into Integer")),
            },
        }
    }
    pub fn coerce_to_int_i64(&self, vm: &mut Executor, globals: &mut Globals) -> Result<i64> {
        match self.coerce_to_integer(vm, globals)? {
            IntegerBase::Fixnum(i) => Ok(i),
            IntegerBase::BigInt(b) => b.to_i64().ok_or_else(|| MonorubyErr::rangeerr("bignum too big to convert into 'long'")),
        }
    }
    pub fn coerce_to_pack_u64(&self, vm: &mut Executor, globals: &mut Globals) -> Result<u64> {
        Ok(match self.coerce_to_integer(vm, globals)? {
            IntegerBase::Fixnum(i) => i as u64,
            IntegerBase::BigInt(b) => b.to_u64_wrapping(),
        })
    }
    pub fn coerce_to_float(&self, _: &mut Executor, _: &mut Globals) -> Result<f64> {
        match self.unpack() {
            RV::Fixnum(i) => Ok(i as f64),
            RV::Float(f) => Ok(f),
            RV::BigInt(b) => Ok(b.to_f64().unwrap()),
            _ => Err(MonorubyErr::typeerr("can't convert into Float")),
        }
    }
    pub fn coerce_to_char(&self, vm: &mut Executor, globals: &mut Globals) -> Result<Option<char>> {
        let i = self.coerce_to_int_i64(vm, globals)?;
        u32::try_from(i).ok().and_then(char::from_u32).map(Some).ok_or_else(|| MonorubyErr::argumenterr("invalid character"))
    }
    pub fn coerce_to_rstring(&self, _: &mut Executor, _: &mut Globals) -> Result<&rvalue::RStringInner> {
        match self.obj().map(|o| &o.kind) {
            Some(ObjKind::Str(s)) => Ok(s),
            Some(ObjKind::Custom { str: Some(v), .. }) => {
                let v: &Value = v;
                Ok(v.as_rstring_inner())
            }
            _ => Err(MonorubyErr::typeerr("no implicit conversion into String")),
        }
    }
}

impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.unpack() {
            RV::Nil => write!(f, "nil"),
            RV::Bool(b) => write!(f, "{b}"),
            RV::Fixnum(i) => write!(f, "{i}"),
            RV::Float(x) => write!(f, "{x:?}f"),
            RV::BigInt(b) => write!(f, "{b}big"),
            RV::String(s) => write!(f, "{:?}{}", s.encoding(), show(s.as_bytes())),
            RV::Symbol(id) => write!(f, ":{}", id.name()),
            RV::Object => match &self.obj().unwrap().kind {
                ObjKind::Ary(a) => write!(f, "{a:?}"),
                ObjKind::Hash(h, _) => write!(f, "{h:?}"),
                _ => write!(f, "#<object>"),
            },
        }
    }
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for (i, c) in b.iter().enumerate() {
        if i == 120 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.extend(std::ascii::escape_default(*c).map(|c| c as char));
    }
    s.push('"');
    s
}

#[derive(Clone, Copy, Debug)]
pub struct Hashmap(Value);

impl Hashmap {
    fn parts(&self) -> (&Vec<(Value, Value)>, Value) {
        match &self.0.obj().unwrap().kind {
            ObjKind::Hash(h, d) => (h, *d),
            _ => unreachable!(),
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = (Value, Value)> + '_ {
        self.parts().0.iter().copied()
    }
    pub fn get(&self, k: Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Value>> {
        Ok(self.parts().0.iter().find(|e| same_key(e.0, k)).map(|e| e.1))
    }
    pub fn index(&self, vm: &mut Executor, g: &mut Globals, k: Value) -> Result<Value> {
        let d = self.parts().1;
        Ok(self.get(k, vm, g)?.unwrap_or(d))
    }
    pub fn len(&self) -> usize {
        self.parts().0.len()
    }
}
impl From<Hashmap> for Value {
    fn from(h: Hashmap) -> Value {
        h.0
    }
}

/// A hash being built.
#[derive(Default)]
pub struct RubyMap(Vec<(Value, Value)>);

impl RubyMap {
    pub fn insert(&mut self, k: Value, v: Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Value>> {
        if let Some(e) = self.0.iter_mut().find(|e| same_key(e.0, k)) {
            return Ok(Some(std::mem::replace(&mut e.1, v)));
        }
        self.0.push((k, v));
        Ok(None)
    }
}

pub fn same_key(a: Value, b: Value) -> bool {
    a == b
        || match (a.is_rstring_inner(), b.is_rstring_inner()) {
            (Some(x), Some(y)) => x.as_bytes() == y.as_bytes(),
            _ => false,
        }
}

#[derive(Clone, Copy)]
pub struct FuncId(IdentId);

impl Globals {
    pub fn define_builtin_class_func(&mut self, _: ClassId, name: &str, f: BuiltinFn, _: usize) {
        self.funcs.push((name.to_string(), f));
    }
    pub fn check_method(&self, v: Value, id: IdentId) -> Option<FuncId> {
        if let Some(ObjKind::Custom { to_s, inspect, .. }) = v.obj().map(|o| &o.kind) {
            match id {
                IdentId::TO_S => to_s.as_ref()?,
                IdentId::INSPECT => inspect.as_ref()?,
                _ => return None,
            };
        }
        Some(FuncId(id))
    }
    pub fn get_gvar(&self, id: IdentId) -> Option<Value> {
        Some(Value::bool(self.verbose && id.name() == "$VERBOSE"))
    }
}

impl Executor {
    pub fn invoke_func_inner(&mut self, g: &mut Globals, f: FuncId, recv: Value, _: &[Value], _: Option<Value>, _: Option<Value>) -> Result<Value> {
        self.invoke_method_inner(g, f.0, recv, &[], None, None)
    }
    pub fn invoke_method_inner(&mut self, g: &mut Globals, id: IdentId, recv: Value, _: &[Value], _: Option<Value>, _: Option<Value>) -> Result<Value> {
        if let Some(ObjKind::Custom { to_s, inspect, .. }) = recv.obj().map(|o| &o.kind) {
            return match id {
                IdentId::TO_S => *to_s,
                IdentId::INSPECT => *inspect,
                _ => None,
            }
            .ok_or_else(|| MonorubyErr::method_not_found(&g.store, id, recv));
        }
        Ok(match id {
            IdentId::TO_S => match recv.is_rstring_inner() {
                Some(_) => recv,
                None => Value::string(recv.to_s(&g.store)),
            },
            IdentId::INSPECT => Value::string(recv.inspect(&g.store)),
            IdentId::TO_F => Value::float(recv.coerce_to_float(self, g)?),
            _ => return Err(MonorubyErr::method_not_found(&g.store, id, recv)),
        })
    }
    pub fn ruby_warn(&mut self, _: &mut Globals, _: &str) -> Result<()> {
        self.warnings += 1;
        Ok(())
    }
}

#[path = "/repo/monoruby/src/value/rvalue"]
pub mod rvalue {
    use super::*;
    pub const RVALUE_OFFSET_KIND: usize = 0;
    pub mod string;
    pub use string::*;
}
pub use rvalue::Encoding;
