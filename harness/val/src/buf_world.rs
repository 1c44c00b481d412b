//! Just enough of an interpreter around the real byte-buffer class: values,
//! strings as plain bytes, blocks, and the table of methods the class
//! registers.  Nothing here is under test.

#![allow(dead_code, unused)]

pub use crate::value::rvalue::IoBufferInner;
pub use num::{BigInt, ToPrimitive};
use std::cell::RefCell;
use std::collections::HashMap;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ClassId(pub u32);
pub const IO_BUFFER_CLASS: ClassId = ClassId(1);
pub const IO_CLASS: ClassId = ClassId(2);
pub const STRING_CLASS: ClassId = ClassId(3);
pub const INTEGER_CLASS: ClassId = ClassId(4);
pub const FLOAT_CLASS: ClassId = ClassId(5);
pub const OBJECT_CLASS: ClassId = ClassId(6);
/// The error classes of the buffer itself.
pub const ERRORS: [&str; 5] = ["AllocationError", "AccessError", "LockedError", "InvalidatedError", "MaskError"];

#[derive(Clone, Debug, PartialEq)]
pub enum MonorubyErrKind {
    Argument,
    Type,
    Range,
    Runtime,
    LocalJump,
    NoMemory,
    Errno,
    Other(ClassId),
    Scripted(u32),
}
use MonorubyErrKind as Kind;

#[derive(Clone, Debug, PartialEq)]
pub struct MonorubyErr {
    pub kind: Kind,
    pub msg: String,
}
impl MonorubyErr {
    pub fn new(kind: Kind, msg: impl ToString) -> Self {
        MonorubyErr { kind, msg: msg.to_string() }
    }
    pub fn argumenterr(msg: impl ToString) -> Self {
        Self::new(Kind::Argument, msg)
    }
    pub fn typeerr(msg: impl ToString) -> Self {
        Self::new(Kind::Type, msg)
    }
    pub fn rangeerr(msg: impl ToString) -> Self {
        Self::new(Kind::Range, msg)
    }
    pub fn runtimeerr(msg: impl ToString) -> Self {
        Self::new(Kind::Runtime, msg)
    }
    pub fn localjumperr(msg: impl ToString) -> Self {
        Self::new(Kind::LocalJump, msg)
    }
    pub fn no_implicit_conversion(_: &Store, _: Value, _: ClassId) -> Self {
        Self::new(Kind::Type, "no implicit conversion")
    }
    pub fn errno_with_msg(_: &Store, e: &std::io::Error, msg: &str) -> Self {
        Self::new(Kind::Errno, format!("{e} - {msg}"))
    }
    pub fn kind(&self) -> &Kind {
        &self.kind
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ObjTy(pub u8);
impl ObjTy {
    pub const IO_BUFFER: ObjTy = ObjTy(1);
    pub const IO: ObjTy = ObjTy(2);
    pub const STRING: ObjTy = ObjTy(3);
    pub const ARRAY: ObjTy = ObjTy(4);
    pub const BIGNUM: ObjTy = ObjTy(5);
    pub const OBJECT: ObjTy = ObjTy(6);
    pub const CLASS: ObjTy = ObjTy(7);
}

#[derive(Debug)]
pub struct RStringInner {
    pub bytes: Vec<u8>,
    pub enc: Option<crate::value::Encoding>,
}
impl RStringInner {
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes
    }
    pub fn len(&self) -> usize {
        self.bytes.len()
    }
    pub fn is_empty(&self) -> bool {
        self.bytes.is_empty()
    }
    pub fn set_byte(&mut self, i: usize, b: u8) {
        self.bytes[i] = b;
    }
    pub fn set_encoding(&mut self, e: crate::value::Encoding) {
        self.enc = Some(e);
    }
}
impl std::ops::Deref for RStringInner {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.bytes
    }
}

pub struct IoInner(pub i32);
impl IoInner {
    pub fn fileno(&self) -> Result<i32> {
        Ok(self.0)
    }
}

pub enum ObjKind {
    Buffer(IoBufferInner),
    Io(IoInner),
    Str(RStringInner),
    Array(Vec<Value>),
    Big(BigInt),
    Float(f64),
    /// An object with `fileno` and nothing else.
    Fileno(i32),
    /// Answers to_int with the number, after the executor's hook ran.
    Number(i64),
    Enumerator(IdentId, Value, Vec<Value>),
    Class(ClassId),
}
pub struct RValue {
    pub kind: ObjKind,
    pub frozen: bool,
    pub class: ClassId,
}
impl RValue {
    pub fn ty(&self) -> ObjTy {
        match &self.kind {
            ObjKind::Buffer(_) => ObjTy::IO_BUFFER,
            ObjKind::Io(_) => ObjTy::IO,
            ObjKind::Str(_) => ObjTy::STRING,
            ObjKind::Array(_) => ObjTy::ARRAY,
            ObjKind::Big(_) => ObjTy::BIGNUM,
            ObjKind::Class(_) => ObjTy::CLASS,
            _ => ObjTy::OBJECT,
        }
    }
}

thread_local! {
    static NAMES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static HEAP: RefCell<Vec<*mut RValue>> = const { RefCell::new(Vec::new()) };
}
pub fn reset_heap() {
    for p in HEAP.take() {
        drop(unsafe { Box::from_raw(p) });
    }
}
fn alloc(kind: ObjKind) -> Value {
    let p = Box::into_raw(Box::new(RValue { kind, frozen: false, class: OBJECT_CLASS }));
    HEAP.with_borrow_mut(|h| h.push(p));
    Value(p as u64)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct IdentId(pub u32);
impl IdentId {
    pub fn get_id(name: &str) -> IdentId {
        NAMES.with_borrow_mut(|n| {
            IdentId(match n.iter().position(|x| x == name) {
                Some(i) => i,
                None => {
                    n.push(name.to_string());
                    n.len() - 1
                }
            } as u32)
        })
    }
    pub fn get_name(self) -> String {
        NAMES.with_borrow(|n| n[self.0 as usize].clone())
    }
}

/// Fixnums odd; nil 4, false 12, true 20; symbols tagged 2; objects aligned.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Value(u64);
pub enum RV<'a> {
    Nil,
    Bool(bool),
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
    Symbol(IdentId),
    Object(&'a RValue),
}

impl Value {
    pub fn nil() -> Value {
        Value(4)
    }
    pub fn bool(b: bool) -> Value {
        Value(if b { 20 } else { 12 })
    }
    pub fn integer(i: i64) -> Value {
        if i << 1 >> 1 == i { Value((i << 1) as u64 | 1) } else { Value::bigint(BigInt::from(i)) }
    }
    pub fn integer_from_u64(u: u64) -> Value {
        match i64::try_from(u) {
            Ok(i) => Value::integer(i),
            Err(_) => Value::bigint(BigInt::from(u)),
        }
    }
    pub fn bigint(b: BigInt) -> Value {
        match b.to_i64() {
            Some(i) if i << 1 >> 1 == i => Value::integer(i),
            _ => alloc(ObjKind::Big(b)),
        }
    }
    pub fn float(f: f64) -> Value {
        alloc(ObjKind::Float(f))
    }
    pub fn symbol(id: IdentId) -> Value {
        Value((id.0 as u64) << 3 | 2)
    }
    pub fn bytes(b: Vec<u8>) -> Value {
        alloc(ObjKind::Str(RStringInner { bytes: b, enc: None }))
    }
    pub fn string(s: String) -> Value {
        Value::bytes(s.into_bytes())
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        alloc(ObjKind::Array(v))
    }
    pub fn new_io_buffer(i: IoBufferInner) -> Value {
        let mut v = alloc(ObjKind::Buffer(i));
        v.change_class(IO_BUFFER_CLASS);
        v
    }
    pub fn io(fd: i32) -> Value {
        alloc(ObjKind::Io(IoInner(fd)))
    }
    pub fn with_fileno(fd: i32) -> Value {
        alloc(ObjKind::Fileno(fd))
    }
    pub fn number(i: i64) -> Value {
        alloc(ObjKind::Number(i))
    }
    pub fn change_class(&mut self, c: ClassId) {
        self.rv_mut().class = c;
    }
    pub fn rv(&self) -> Option<&RValue> {
        (self.0 & 7 == 0 && self.0 != 0).then(|| unsafe { &*(self.0 as *const RValue) })
    }
    #[allow(clippy::mut_from_ref)]
    pub fn rv_mut(&mut self) -> &mut RValue {
        assert!(self.0 & 7 == 0);
        unsafe { &mut *(self.0 as *mut RValue) }
    }
    pub fn try_rvalue(&self) -> Option<&RValue> {
        self.rv()
    }
    pub fn id(&self) -> u64 {
        self.0
    }
    pub fn is_nil(&self) -> bool {
        self.0 == 4
    }
    pub fn unpack(&self) -> RV<'_> {
        match self.0 {
            4 => RV::Nil,
            12 => RV::Bool(false),
            20 => RV::Bool(true),
            x if x & 1 == 1 => RV::Fixnum(x as i64 >> 1),
            x if x & 7 == 2 => RV::Symbol(IdentId((x >> 3) as u32)),
            _ => match &self.rv().unwrap().kind {
                ObjKind::Big(b) => RV::BigInt(b),
                ObjKind::Float(f) => RV::Float(*f),
                _ => RV::Object(self.rv().unwrap()),
            },
        }
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        match self.unpack() {
            RV::Fixnum(i) => Some(i),
            _ => None,
        }
    }
    pub fn try_float(&self) -> Option<f64> {
        match self.unpack() {
            RV::Float(f) => Some(f),
            _ => None,
        }
    }
    pub fn as_big(&self) -> Option<BigInt> {
        match self.unpack() {
            RV::Fixnum(i) => Some(BigInt::from(i)),
            RV::BigInt(b) => Some(b.clone()),
            _ => None,
        }
    }
    pub fn try_symbol_or_string(&self) -> Option<IdentId> {
        match self.unpack() {
            RV::Symbol(id) => Some(id),
            _ => std::str::from_utf8(self.is_rstring()?.as_bytes()).ok().map(IdentId::get_id),
        }
    }
    pub fn is_rstring(&self) -> Option<&RStringInner> {
        match &self.rv()?.kind {
            ObjKind::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_rstring_inner(&self) -> Option<&RStringInner> {
        self.is_rstring()
    }
    pub fn as_rstring_inner(&self) -> &RStringInner {
        self.is_rstring().expect("a String")
    }
    pub fn as_rstring_inner_mut(&mut self) -> &mut RStringInner {
        match &mut self.rv_mut().kind {
            ObjKind::Str(s) => s,
            _ => panic!("a String was expected"),
        }
    }
    pub fn is_io_buffer(&self) -> bool {
        self.rv().is_some_and(|r| r.ty() == ObjTy::IO_BUFFER)
    }
    pub fn as_io_buffer_inner(&self) -> &IoBufferInner {
        match &self.rv().expect("a buffer").kind {
            ObjKind::Buffer(b) => b,
            _ => panic!("a buffer was expected"),
        }
    }
    pub fn as_io_buffer_inner_mut(&mut self) -> &mut IoBufferInner {
        match &mut self.rv_mut().kind {
            ObjKind::Buffer(b) => b,
            _ => panic!("a buffer was expected"),
        }
    }
    pub fn as_io_inner(&self) -> &IoInner {
        match &self.rv().expect("an IO").kind {
            ObjKind::Io(b) => b,
            _ => panic!("an IO was expected"),
        }
    }
    pub fn as_array(&self) -> Option<&[Value]> {
        match &self.rv()?.kind {
            ObjKind::Array(b) => Some(b),
            _ => None,
        }
    }
    pub fn is_frozen(&self) -> bool {
        self.rv().is_none_or(|r| r.frozen)
    }
    pub fn is_class(&self) -> Option<Class> {
        match &self.rv()?.kind {
            ObjKind::Class(c) => Some(Class(*c)),
            _ => None,
        }
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        "Thing".to_string()
    }
    pub fn mark(&self, alloc: &mut crate::alloc::Allocator<RValue>) {
        alloc.marked.push(self.0);
    }
    pub fn coerce_to_int(&self, vm: &mut Executor, g: &mut Globals) -> Result<Value> {
        match self.unpack() {
            RV::Fixnum(_) | RV::BigInt(_) => Ok(*self),
            RV::Float(f) if f.is_finite() && f.abs() < 1e18 => Ok(Value::integer(f as i64)),
            RV::Float(_) => Err(MonorubyErr::rangeerr("float out of range")),
            RV::Object(RValue { kind: ObjKind::Number(i), .. }) => {
                let i = *i;
                if let Some(mut f) = vm.on_to_int.take() {
                    f(vm, g);
                }
                Ok(Value::integer(i))
            }
            _ => Err(MonorubyErr::typeerr("no implicit conversion into Integer")),
        }
    }
    pub fn coerce_to_int_i64(&self, vm: &mut Executor, g: &mut Globals) -> Result<i64> {
        let v = self.coerce_to_int(vm, g)?;
        match v.unpack() {
            RV::Fixnum(i) => Ok(i),
            RV::BigInt(b) => b.to_i64().ok_or_else(|| MonorubyErr::rangeerr("bignum too big to convert into 'long'")),
            _ => unreachable!(),
        }
    }
    pub fn coerce_to_f64(&self, vm: &mut Executor, g: &mut Globals) -> Result<f64> {
        match self.unpack() {
            RV::Float(f) => Ok(f),
            RV::Fixnum(i) => Ok(i as f64),
            RV::BigInt(b) => Ok(b.to_string().parse().unwrap()),
            RV::Object(RValue { kind: ObjKind::Number(_), .. }) => Ok(self.coerce_to_int_i64(vm, g)? as f64),
            _ => Err(MonorubyErr::typeerr("no implicit conversion into Float")),
        }
    }
    pub fn coerce_to_rstring(&self, _: &mut Executor, _: &mut Globals) -> Result<&'static RStringInner> {
        match self.is_rstring() {
            Some(s) => Ok(unsafe { &*(s as *const RStringInner) }),
            None => Err(MonorubyErr::typeerr("no implicit conversion into String")),
        }
    }
}
impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.unpack() {
            RV::Nil => write!(f, "nil"),
            RV::Bool(b) => write!(f, "{b}"),
            RV::Fixnum(i) => write!(f, "{i}"),
            RV::BigInt(b) => write!(f, "{b}"),
            RV::Float(x) => write!(f, "{x:e}f"),
            RV::Symbol(id) => write!(f, ":{}", id.get_name()),
            RV::Object(r) => match &r.kind {
                ObjKind::Str(s) => write!(f, "{:?}", String::from_utf8_lossy(&s.bytes)),
                ObjKind::Array(a) => write!(f, "{a:?}"),
                ObjKind::Number(i) => write!(f, "#<to_int {i}>"),
                ObjKind::Buffer(_) => write!(f, "#<buffer {:x}>", self.0 & 0xffff),
                ObjKind::Enumerator(..) => write!(f, "#<enumerator>"),
                _ => write!(f, "#<object>"),
            },
        }
    }
}

#[derive(Clone, Copy)]
pub struct Class(ClassId);
impl Class {
    pub fn id(&self) -> ClassId {
        self.0
    }
}

#[derive(Clone, Copy)]
pub struct BytecodePtr;
#[derive(Clone, Copy)]
pub struct BlockHandler;
pub struct ProcData;

#[derive(Clone, Copy)]
pub struct Lfp {
    recv: Value,
    args: *const Value,
    len: usize,
    block: bool,
}
impl Lfp {
    pub fn new(recv: Value, args: &[Value], block: bool) -> Lfp {
        Lfp { recv, args: args.as_ptr(), len: args.len(), block }
    }
    pub fn self_val(&self) -> Value {
        self.recv
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        (i < self.len).then(|| unsafe { *self.args.add(i) })
    }
    pub fn arg(&self, i: usize) -> Value {
        self.try_arg(i).expect("argument missing")
    }
    pub fn block(&self) -> Option<BlockHandler> {
        self.block.then_some(BlockHandler)
    }
}

pub type BuiltinFn = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;
pub type Block = Box<dyn FnMut(&mut Executor, &mut Globals, &[Value]) -> Result<Value>>;

#[derive(Default)]
pub struct Executor {
    pub block: Option<Block>,
    pub on_to_int: Option<Box<dyn FnMut(&mut Executor, &mut Globals)>>,
    pub temps: Vec<Value>,
}
impl Executor {
    pub fn with_temp_scope<T>(&mut self, f: impl FnOnce(&mut Executor) -> T) -> T {
        let n = self.temps.len();
        let r = f(self);
        self.temps.truncate(n);
        r
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temps.push(v);
    }
    pub fn invoke_block_once(&mut self, g: &mut Globals, _: BlockHandler, args: &[Value]) -> Result<Value> {
        let mut b = self.block.take().expect("a block");
        let r = b(self, g, args);
        self.block = Some(b);
        r
    }
    pub fn get_block_data(&mut self, _: &mut Globals, _: BlockHandler) -> Result<ProcData> {
        Ok(ProcData)
    }
    pub fn invoke_block(&mut self, g: &mut Globals, _: &ProcData, args: &[Value]) -> Result<Value> {
        self.invoke_block_once(g, BlockHandler, args)
    }
    pub fn generate_enumerator(&mut self, id: IdentId, recv: Value, args: Vec<Value>, _: BytecodePtr) -> Result<Value> {
        Ok(alloc(ObjKind::Enumerator(id, recv, args)))
    }
    pub fn invoke_method_inner(&mut self, _: &mut Globals, id: IdentId, recv: Value, _: &[Value], _: Option<Value>, _: Option<Value>) -> Result<Value> {
        match (id.get_name().as_str(), &recv.rv().expect("an object").kind) {
            ("fileno", ObjKind::Fileno(fd)) => Ok(Value::integer(*fd as i64)),
            (n, _) => panic!("unexpected call of {n}"),
        }
    }
}

#[derive(Default)]
pub struct ClassInfo {
    pub alloc: Option<extern "C" fn(ClassId, &mut Globals) -> Value>,
}
impl ClassInfo {
    pub fn set_alloc_func(&mut self, f: extern "C" fn(ClassId, &mut Globals) -> Value) {
        self.alloc = Some(f);
    }
}
#[derive(Default)]
pub struct Store {
    pub class: ClassInfo,
}
impl Store {
    pub fn get_constant_noautoload(&self, c: ClassId, id: IdentId) -> Option<Value> {
        assert!(c == IO_BUFFER_CLASS);
        let i = ERRORS.iter().position(|n| *n == id.get_name())?;
        Some(alloc(ObjKind::Class(ClassId(100 + i as u32))))
    }
    pub fn check_method(&self, v: Value, id: IdentId) -> Option<u32> {
        match &v.rv()?.kind {
            ObjKind::Fileno(_) if id.get_name() == "fileno" => Some(0),
            _ => None,
        }
    }
}
impl std::ops::Index<ClassId> for Store {
    type Output = ClassInfo;
    fn index(&self, _: ClassId) -> &ClassInfo {
        &self.class
    }
}
impl std::ops::IndexMut<ClassId> for Store {
    fn index_mut(&mut self, _: ClassId) -> &mut ClassInfo {
        &mut self.class
    }
}

#[derive(Default)]
pub struct Globals {
    pub store: Store,
    pub funcs: HashMap<String, (BuiltinFn, usize, usize)>,
    pub class_funcs: HashMap<String, (BuiltinFn, usize, usize)>,
    pub consts: HashMap<String, Value>,
}
impl std::ops::Deref for Globals {
    type Target = Store;
    fn deref(&self) -> &Store {
        &self.store
    }
}
impl Globals {
    pub fn object_class(&self) -> Class {
        Class(OBJECT_CLASS)
    }
    pub fn define_builtin_class(&mut self, _: &str, _: ClassId, _: Class, _: ClassId, _: ObjTy) -> Class {
        Class(IO_BUFFER_CLASS)
    }
    pub fn set_constant_by_str(&mut self, _: ClassId, n: &str, v: Value) {
        self.consts.insert(n.to_string(), v);
    }
    pub fn define_builtin_func(&mut self, _: ClassId, n: &str, f: BuiltinFn, k: usize) {
        self.funcs.insert(n.to_string(), (f, k, k));
    }
    pub fn define_builtin_func_with(&mut self, _: ClassId, n: &str, f: BuiltinFn, min: usize, max: usize, _: bool) {
        self.funcs.insert(n.to_string(), (f, min, max));
    }
    pub fn define_private_builtin_func_with(&mut self, c: ClassId, n: &str, f: BuiltinFn, min: usize, max: usize, r: bool) {
        self.define_builtin_func_with(c, n, f, min, max, r);
    }
    pub fn define_builtin_class_func(&mut self, _: ClassId, n: &str, f: BuiltinFn, k: usize) {
        self.class_funcs.insert(n.to_string(), (f, k, k));
    }
    pub fn define_builtin_class_func_with(&mut self, _: ClassId, n: &str, f: BuiltinFn, min: usize, max: usize, _: bool) {
        self.class_funcs.insert(n.to_string(), (f, min, max));
    }
}
