//! Just enough of an interpreter around the real hash class: values, scripted
//! objects that answer `hash`, `eql?` and conversions, blocks, and the table of
//! methods the class registers.  Nothing here is under test.

#![allow(dead_code, unused, clippy::all)]

pub use crate::value::rvalue::{Array, ArrayInner};
use crate::value::rvalue::{copy_of, drop_body, hash_ref, hash_ref_mut, split};
pub use crate::value::rvalue::{HashBody, HashRef, HashRefMut, Hashmap, HashmapInner};
pub use crate::value::{CodeRange, Encoding, RStringInner};
pub use num::{BigInt, ToPrimitive};
pub use std::collections::{HashMap, HashSet};
use std::cell::{Cell, RefCell};

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ClassId(pub u32);
pub const ARRAY_CLASS: ClassId = ClassId(1);
pub const SUB_CLASS: ClassId = ClassId(2);
pub const SET_CLASS: ClassId = ClassId(77);
pub const YIELDER_FUNCID: FuncId = FuncId(1);
pub const STRING_CLASS: ClassId = ClassId(3);
pub const INTEGER_CLASS: ClassId = ClassId(4);
pub const FLOAT_CLASS: ClassId = ClassId(5);
pub const OBJECT_CLASS: ClassId = ClassId(6);
pub const BASIC_OBJECT_CLASS: ClassId = ClassId(7);
pub const RANDOM_CLASS: ClassId = ClassId(8);
pub const HASH_CLASS: ClassId = ClassId(9);
/// The singleton class of one array, whose real class is the subclass.
pub const SINGLETON_CLASS: ClassId = ClassId(10);

#[derive(Clone, Debug, PartialEq)]
pub enum MonorubyErrKind {
    Argument,
    Type,
    Range,
    Index,
    Runtime,
    LocalJump,
    Frozen,
    Encoding,
    NotMethod { name: Option<IdentId> },
    Key,
    Io,
    Scripted(u32),
}
pub use MonorubyErrKind as Kind;

#[derive(Clone, Debug, PartialEq)]
pub struct MonorubyErr {
    pub kind: Kind,
    pub msg: String,
}
impl MonorubyErr {
    pub fn new(kind: Kind, msg: impl ToString) -> Self {
        MonorubyErr { kind, msg: msg.to_string() }
    }
    pub fn kind(&self) -> &Kind {
        &self.kind
    }
    pub fn argumenterr(msg: impl ToString) -> Self {
        Self::new(Kind::Argument, msg)
    }
    pub fn typeerr(msg: impl ToString) -> Self {
        Self::new(Kind::Type, msg)
    }
    pub fn rangeerr(msg: impl ToString) -> Self {
        Self::new(Kind::Range, msg)
    }
    pub fn indexerr(msg: impl ToString) -> Self {
        Self::new(Kind::Index, msg)
    }
    pub fn runtimeerr(msg: impl ToString) -> Self {
        Self::new(Kind::Runtime, msg)
    }
    pub fn index_too_small(a: i64, b: i64) -> Self {
        Self::new(Kind::Index, format!("index {a} too small for array; minimum: {b}"))
    }
    pub fn negative_argument() -> Self {
        Self::argumenterr("argument must be non-negative")
    }
    pub fn negative_array_size() -> Self {
        Self::argumenterr("negative array size")
    }
    pub fn no_block_given() -> Self {
        Self::new(Kind::LocalJump, "no block given")
    }
    pub fn wrong_number_of_arg(_: usize, n: usize) -> Self {
        Self::argumenterr(format!("wrong number of arguments (given {n})"))
    }
    pub fn wrong_number_of_arg_range(n: usize, _: std::ops::RangeInclusive<usize>) -> Self {
        Self::argumenterr(format!("wrong number of arguments (given {n})"))
    }
    pub fn wrong_number_of_arg_min(n: usize, _: usize) -> Self {
        Self::argumenterr(format!("wrong number of arguments (given {n})"))
    }
    pub fn no_implicit_conversion(_: &Store, _: Value, _: ClassId) -> Self {
        Self::typeerr("no implicit conversion")
    }
    pub fn cant_convert_error_ary(_: &Store, _: Value, _: Value) -> Self {
        Self::typeerr("can't convert to Array")
    }
    pub fn cant_modify_frozen(_: &Store, _: Value) -> Self {
        Self::new(Kind::Frozen, "can't modify frozen Array")
    }
    pub fn incompatible_encoding(_: &Store, _: Encoding, _: Encoding) -> Self {
        Self::new(Kind::Encoding, "incompatible character encodings")
    }
    pub fn method_not_found(_: &Store, id: IdentId, _: Value) -> Self {
        Self::new(Kind::NotMethod { name: Some(id) }, "undefined method")
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ObjTy(pub u8);
impl ObjTy {
    pub const ARRAY: ObjTy = ObjTy(1);
    pub const STRING: ObjTy = ObjTy(2);
    pub const HASH: ObjTy = ObjTy(3);
    pub const BIGNUM: ObjTy = ObjTy(4);
    pub const FLOAT: ObjTy = ObjTy(5);
    pub const RANGE: ObjTy = ObjTy(6);
    pub const OBJECT: ObjTy = ObjTy(7);
    pub const CLASS: ObjTy = ObjTy(8);
    pub const REGEXP: ObjTy = ObjTy(9);
    pub const ENUMERATOR: ObjTy = ObjTy(10);
    pub const PROC: ObjTy = ObjTy(12);
    pub const ARITHMETIC_SEQUENCE: ObjTy = ObjTy(11);
}

pub struct RangeInner {
    pub a: Value,
    pub b: Value,
    pub excl: bool,
}
impl RangeInner {
    pub fn start(&self) -> Value {
        self.a
    }
    pub fn end(&self) -> Value {
        self.b
    }
    pub fn exclude_end(&self) -> bool {
        self.excl
    }
}

/// A regular expression is a text to be found, nothing more.
#[derive(Clone)]
pub struct RegexpInner(pub String);
impl RegexpInner {
    pub fn match_pred(re: &RegexpInner, s: &str, _: usize) -> Result<bool> {
        Ok(s.contains(&re.0))
    }
}

/// What the object does when asked for a method it does not define.
#[derive(Clone, Copy, Debug)]
pub enum Missing {
    Gives(Value),
    NoMethod,
    Raises,
}

/// An object whose answers are scripted.  Two of them are equal when their
/// keys are.
#[derive(Clone, Debug, Default)]
pub struct Thing {
    pub key: i64,
    pub to_int: Option<i64>,
    pub to_ary: Option<Value>,
    pub to_hash: Option<Value>,
    pub to_proc: Option<Value>,
    pub to_str: Option<Value>,
    pub to_s: Option<Value>,
    pub each: Option<Vec<Value>>,
    pub call: Option<Value>,
    /// `rand(n)` answers the next of these, taken modulo n unless `wild`.
    pub rand: Option<Vec<i64>>,
    pub wild: bool,
    pub respond_to: Option<bool>,
    pub respond_to_missing: Option<bool>,
    pub missing: Option<Missing>,
    /// Never calls the script: comparisons of it are plain.
    pub quiet: bool,
}

pub enum Obj {
    Array(ArrayInner),
    Str(RStringInner),
    /// The body lies beside it.
    Hash,
    Proc { lambda: bool, arity: i64 },
    Big(BigInt),
    Float(f64),
    Range(RangeInner),
    Thing(Thing),
    Class(ClassId),
    Regexp(RegexpInner),
    Enumerator { id: IdentId, recv: Value, args: Vec<Value>, size: Option<Value> },
    Aseq,
    Random(RefCell<u64>),
}
pub union ObjKind {
    pub hash: std::mem::ManuallyDrop<HashBody>,
    words: [u64; 6],
}
#[repr(C)]
pub struct RValue {
    ty_flags: u8,
    pub frozen: bool,
    pub class: ClassId,
    /// Keeps the body away from the front.
    pub mark: u64,
    pub kind: ObjKind,
    pub obj: Obj,
}
pub const RVALUE_OFFSET_KIND: usize = std::mem::offset_of!(RValue, kind);
impl Drop for RValue {
    fn drop(&mut self) {
        if let Obj::Hash = self.obj {
            drop_body(self.ty_flags, unsafe { &mut self.kind.hash });
        }
    }
}
impl RValue {
    pub fn ty_flags_ptr(&self) -> std::ptr::NonNull<u8> {
        std::ptr::NonNull::new((self as *const RValue as *mut RValue).cast::<u8>().wrapping_add(std::mem::offset_of!(RValue, ty_flags))).unwrap()
    }
    pub fn flags(&self) -> u8 {
        unsafe { *self.ty_flags_ptr().as_ptr() }
    }
    pub fn ty(&self) -> ObjTy {
        match &self.obj {
            Obj::Array(_) => ObjTy::ARRAY,
            Obj::Str(_) => ObjTy::STRING,
            Obj::Hash => ObjTy::HASH,
            Obj::Big(_) => ObjTy::BIGNUM,
            Obj::Float(_) => ObjTy::FLOAT,
            Obj::Range(_) => ObjTy::RANGE,
            Obj::Class(_) => ObjTy::CLASS,
            Obj::Regexp(_) => ObjTy::REGEXP,
            Obj::Enumerator { .. } => ObjTy::ENUMERATOR,
            Obj::Aseq => ObjTy::ARITHMETIC_SEQUENCE,
            Obj::Proc { .. } => ObjTy::PROC,
            _ => ObjTy::OBJECT,
        }
    }
}

thread_local! {
    static NAMES: RefCell<Vec<String>> = RefCell::new(PRESET.iter().map(|s| s.to_string()).collect());
    static HEAP: RefCell<Vec<*mut RValue>> = const { RefCell::new(Vec::new()) };
    static LIVE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    /// Blocks take two arguments.
    pub static PAIRWISE: Cell<bool> = const { Cell::new(false) };
    /// How many digests immediate keys have.
    pub static COARSE: Cell<u64> = const { Cell::new(!0) };
    /// Objects of which the collector was told that they were stored into.
    pub static TOLD: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
}
/// How many objects have been made so far.
pub fn heap_mark() -> usize {
    HEAP.with_borrow(|h| h.len())
}
/// Was it there before the mark was taken?
pub fn older(v: Value, mark: usize) -> bool {
    HEAP.with_borrow(|h| h[..mark].iter().any(|p| *p as u64 == v.bits()))
}
pub fn reset_heap() {
    LIVE.with_borrow_mut(|l| l.clear());
    for p in HEAP.take() {
        drop(unsafe { Box::from_raw(p) });
    }
}
/// Everything that cannot be reached from the roots stops existing; accesses
/// to it are caught.  Returns how many objects went.
pub fn collect(roots: &[Value]) -> usize {
    let mut seen: HashSet<u64> = HashSet::new();
    let mut todo: Vec<Value> = roots.to_vec();
    while let Some(v) = todo.pop() {
        if v.is_packed_value() || !v.sound() || !seen.insert(v.bits()) {
            continue;
        }
        match &v.rv().unwrap().obj {
            Obj::Array(a) => todo.extend(a.iter()),
            Obj::Hash => todo.extend(v.hash_children()),
            Obj::Range(r) => todo.extend([r.start(), r.end()]),
            Obj::Thing(t) => {
                todo.extend([t.to_ary, t.to_hash, t.to_proc, t.to_str, t.to_s, t.call].into_iter().flatten());
                todo.extend(t.each.iter().flatten());
                if let Some(Missing::Gives(v)) = t.missing {
                    todo.push(v);
                }
            }
            Obj::Enumerator { recv, args, size, .. } => {
                todo.push(*recv);
                todo.extend(args);
                todo.extend(size);
            }
            _ => {}
        }
    }
    LIVE.with_borrow_mut(|l| {
        let n = l.len();
        l.retain(|x| {
            let keep = seen.contains(x);
            // Elements of an array that is gone are gone as well.
            if !keep && let Obj::Array(a) = unsafe { &mut (*(*x as *mut RValue)).obj } {
                a.truncate(0);
            }
            // So is the storage of a hash.
            let r = unsafe { &mut *(*x as *mut RValue) };
            if !keep && let Obj::Hash = r.obj {
                drop_body(r.ty_flags, unsafe { &mut r.kind.hash });
                r.obj = Obj::Aseq;
                r.kind.words = [0xdead_beef_0008; 6];
            }
            keep
        });
        n - l.len()
    })
}
/// Does it exist, with everything in it?
pub fn sound_through(v: Value, depth: usize) -> bool {
    v.sound()
        && (depth == 0
            || match v.rv().map(|r| &r.obj) {
                Some(Obj::Array(a)) => a.iter().all(|v| sound_through(*v, depth - 1)),
                Some(Obj::Hash) => v.hash_children().iter().all(|v| sound_through(*v, depth - 1)),
                _ => true,
            })
}
/// A new object like it.
pub fn fresh_copy(v: Value) -> Value {
    match v.rv().map(|r| &r.obj) {
        Some(Obj::Array(a)) => Value::array_from_vec(a.iter().map(|v| fresh_copy(*v)).collect()),
        Some(Obj::Str(s)) => Value::string_from_inner(s.clone()),
        Some(Obj::Float(f)) => Value::float(*f),
        Some(Obj::Thing(t)) => Value::thing(t.clone()),
        Some(Obj::Hash) if !v.is_frozen() => v.dup(),
        _ => v,
    }
}
fn alloc_class(kind: Obj, class: ClassId) -> Value {
    let words = ObjKind { words: [0; 6] };
    let p = Box::into_raw(Box::new(RValue { ty_flags: 0, frozen: false, class, mark: !0, kind: words, obj: kind }));
    HEAP.with_borrow_mut(|h| h.push(p));
    LIVE.with_borrow_mut(|l| l.insert(p as u64));
    raw(p as u64)
}
fn alloc(kind: Obj) -> Value {
    alloc_class(kind, OBJECT_CLASS)
}

const PRESET: [&str; 18] =
    ["to_ary", "<=>", "==", "+", "inspect", "to_s", "to_str", "each", "respond_to_missing?", "method_missing", "to_proc", "eql?", "hash", "default", "to_hash", "to_a", "allocate", "initialize"];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct IdentId(pub u32);
impl IdentId {
    pub const TO_ARY: IdentId = IdentId(0);
    pub const _CMP: IdentId = IdentId(1);
    pub const _EQ: IdentId = IdentId(2);
    pub const _ADD: IdentId = IdentId(3);
    pub const INSPECT: IdentId = IdentId(4);
    pub const TO_S: IdentId = IdentId(5);
    pub const TO_STR: IdentId = IdentId(6);
    pub const EACH: IdentId = IdentId(7);
    pub const RESPOND_TO_MISSING_: IdentId = IdentId(8);
    pub const METHOD_MISSING: IdentId = IdentId(9);
    pub const TO_PROC: IdentId = IdentId(10);
    pub const EQL_: IdentId = IdentId(11);
    pub const HASH: IdentId = IdentId(12);
    pub const DEFAULT: IdentId = IdentId(13);
    pub const TO_HASH: IdentId = IdentId(14);
    pub const TO_A: IdentId = IdentId(15);
    pub const ALLOCATE: IdentId = IdentId(16);
    pub const INITIALIZE: IdentId = IdentId(17);
    pub fn get_id(name: &str) -> IdentId {
        NAMES.with_borrow_mut(|n| {
            IdentId(match n.iter().position(|x| x == name) {
                Some(i) => i,
                None => {
                    n.push(name.to_string());
                    n.len() - 1
                }
            } as u32)
        })
    }
    pub fn get_name(self) -> String {
        NAMES.with_borrow(|n| n[self.0 as usize].clone())
    }
}

/// Fixnums odd; nil 4, false 12, true 20; symbols tagged 2; objects aligned.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct Value(std::num::NonZeroU64);
fn raw(x: u64) -> Value {
    Value(std::num::NonZeroU64::new(x).expect("a value"))
}
impl Default for Value {
    fn default() -> Value {
        Value::nil()
    }
}
pub enum RV<'a> {
    Nil,
    Bool(bool),
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
    Symbol(IdentId),
    Object(&'a RValue),
}

impl Value {
    pub fn nil() -> Value {
        raw(4)
    }
    pub fn bool(b: bool) -> Value {
        raw(if b { 20 } else { 12 })
    }
    pub fn i32(i: i32) -> Value {
        Value::integer(i as i64)
    }
    pub fn integer(i: i64) -> Value {
        if i << 1 >> 1 == i { raw((i << 1) as u64 | 1) } else { alloc_class(Obj::Big(BigInt::from(i)), INTEGER_CLASS) }
    }
    pub fn bigint(b: BigInt) -> Value {
        match b.to_i64() {
            Some(i) => Value::integer(i),
            None => alloc_class(Obj::Big(b), INTEGER_CLASS),
        }
    }
    pub fn from_hash_digest(h: u64) -> Value {
        Value::integer(h as i64 >> 2)
    }
    pub fn float(f: f64) -> Value {
        alloc_class(Obj::Float(f), FLOAT_CLASS)
    }
    pub fn symbol(id: IdentId) -> Value {
        raw((id.0 as u64) << 3 | 2)
    }
    pub fn string(s: String) -> Value {
        Value::string_from_inner(RStringInner::from_str_scanned(&s))
    }
    pub fn string_from_str(s: &str) -> Value {
        Value::string(s.to_string())
    }
    pub fn string_from_inner(s: RStringInner) -> Value {
        alloc_class(Obj::Str(s), STRING_CLASS)
    }
    pub fn hash(m: RubyMap<Value, Value>) -> Value {
        Value::hash_from_inner(HashmapInner::new(m))
    }
    pub fn hash_from_inner(h: HashmapInner) -> Value {
        Value::hash_in_class(h, HASH_CLASS)
    }
    pub fn hash_in_class(h: HashmapInner, class: ClassId) -> Value {
        let (flags, body) = split(h);
        Value::hash_of(flags, body, class)
    }
    fn hash_of(flags: u8, body: HashBody, class: ClassId) -> Value {
        let mut v = alloc_class(Obj::Hash, class);
        let r = v.rv_mut();
        r.ty_flags = flags;
        r.kind.hash = std::mem::ManuallyDrop::new(body);
        v
    }
    pub fn hash_with_capacity(n: usize) -> Value {
        Value::hash_from_inner(HashmapInner::with_capacity(n))
    }
    pub fn hash_with_class_and_default(c: ClassId, d: Value) -> Value {
        Value::hash_in_class(HashmapInner::new_with_default(RubyMap::default(), d), c)
    }
    pub fn proc(lambda: bool, arity: i64) -> Value {
        alloc(Obj::Proc { lambda, arity })
    }
    pub fn is_proc(&self) -> Option<Proc> {
        (self.ty() == Some(ObjTy::PROC)).then_some(Proc(*self))
    }
    pub fn hash_children(&self) -> Vec<Value> {
        let mut a = crate::alloc::Allocator::default();
        crate::alloc::GC::mark(&self.as_hashmap_inner(), &mut a);
        a.seen
    }
    pub fn try_hash_ty(&self) -> Option<Hashmap> {
        (self.ty() == Some(ObjTy::HASH)).then(|| Hashmap::new_unchecked(*self))
    }
    pub fn as_hash(&self) -> Hashmap {
        self.try_hash_ty().expect("a Hash")
    }
    pub fn as_hash_mut(self, s: &Store) -> Result<Hashmap> {
        self.ensure_not_frozen(s)?;
        Ok(self.as_hash())
    }
    pub fn as_hashmap_inner(&self) -> HashRef<'_> {
        assert!(self.ty() == Some(ObjTy::HASH));
        hash_ref(self.rv().unwrap())
    }
    pub fn as_hashmap_inner_mut(&mut self) -> HashRefMut<'_> {
        assert!(self.ty() == Some(ObjTy::HASH));
        hash_ref_mut(self.rv_mut())
    }
    pub fn coerce_to_hash(&self, vm: &mut Executor, g: &mut Globals) -> Result<Hashmap> {
        if let Some(h) = self.try_hash_ty() {
            return Ok(h);
        }
        match self.as_thing().and_then(|t| t.to_hash) {
            Some(h) => {
                vm.called(g, "to_hash", *self, &[])?;
                let h = if vm.fresh { fresh_copy(h) } else { h };
                h.try_hash_ty().ok_or_else(|| MonorubyErr::typeerr("can't convert to Hash"))
            }
            None => Err(MonorubyErr::typeerr("no implicit conversion into Hash")),
        }
    }
    pub fn coerce_to_i64(&self, _: &Store) -> Result<i64> {
        self.try_fixnum().ok_or_else(|| MonorubyErr::typeerr("not an Integer"))
    }
    /// Strings are copied and frozen before they become keys.
    pub fn frozen_hash_key(self) -> Value {
        match self.is_rstring_inner() {
            Some(s) if !self.is_frozen() => {
                let mut v = Value::string_from_inner(s.clone());
                v.set_frozen();
                v
            }
            _ => self,
        }
    }
    pub fn change_class(&mut self, c: ClassId) {
        self.rv_mut().class = c;
    }
    pub fn is_str(&self) -> Option<&str> {
        self.is_rstring_inner().and_then(|s| s.check_utf8().ok())
    }
    pub fn as_rstring_inner(&self) -> &RStringInner {
        self.is_rstring_inner().expect("a String")
    }
    pub fn expect_string(&self, _: &Store) -> Result<String> {
        self.is_str().map(|s| s.to_string()).ok_or_else(|| MonorubyErr::typeerr("no implicit conversion into String"))
    }
    pub fn ruby_hash_packed<H: std::hash::Hasher>(&self, h: &mut H) {
        // Few different digests, so that keys meet.
        h.write_u64(self.bits() % COARSE.get());
    }
    pub fn mark(&self, a: &mut crate::alloc::Allocator<RValue>) {
        a.seen.push(*self);
    }
    pub fn range(a: Value, b: Value, excl: bool) -> Value {
        alloc(Obj::Range(RangeInner { a, b, excl }))
    }
    pub fn thing(t: Thing) -> Value {
        alloc(Obj::Thing(t))
    }
    pub fn class_obj(c: ClassId) -> Value {
        alloc(Obj::Class(c))
    }
    pub fn regexp(s: &str) -> Value {
        alloc(Obj::Regexp(RegexpInner(s.to_string())))
    }
    pub fn aseq() -> Value {
        alloc(Obj::Aseq)
    }
    pub fn random(seed: u64) -> Value {
        alloc_class(Obj::Random(RefCell::new(seed)), RANDOM_CLASS)
    }

    pub fn array(a: ArrayInner) -> Value {
        Value::array_with_class(a, ARRAY_CLASS)
    }
    pub fn array_with_class(a: ArrayInner, class: ClassId) -> Value {
        alloc_class(Obj::Array(a), class)
    }
    pub fn array_empty() -> Value {
        Value::array(ArrayInner::new())
    }
    pub fn array_empty_with_class(c: ClassId) -> Value {
        Value::array_with_class(ArrayInner::new(), c)
    }
    pub fn array1(a: Value) -> Value {
        Value::array_from_vec(vec![a])
    }
    pub fn array2(a: Value, b: Value) -> Value {
        Value::array_from_vec(vec![a, b])
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        Value::array(ArrayInner::from_vec(v))
    }
    pub fn array_from_slice(v: &[Value]) -> Value {
        Value::array_from_vec(v.to_vec())
    }
    pub fn array_from_iter(it: impl Iterator<Item = Value>) -> Value {
        Value::array(it.collect())
    }
    pub fn array_with_capacity(n: usize) -> Value {
        Value::array(ArrayInner::with_capacity(n))
    }

    pub fn bits(&self) -> u64 {
        self.0.get()
    }
    pub fn id(&self) -> u64 {
        self.bits()
    }
    /// Whether this is a value at all: a stale read can give anything.
    pub fn sound(&self) -> bool {
        match self.bits() {
            4 | 12 | 20 => true,
            x if x & 1 == 1 => true,
            x if x & 7 == 2 => NAMES.with_borrow(|n| ((x >> 3) as usize) < n.len()),
            x => LIVE.with_borrow(|l| l.contains(&x)),
        }
    }
    pub fn rv(&self) -> Option<&'static RValue> {
        (self.bits() & 7 == 0).then(|| {
            assert!(self.sound(), "a stale or torn value {:x} was used", self.bits());
            unsafe { &*(self.bits() as *const RValue) }
        })
    }
    pub fn try_rvalue(&self) -> Option<&RValue> {
        self.rv()
    }
    pub fn rvalue(&self) -> &RValue {
        self.rv().unwrap()
    }
    pub fn rv_mut(&mut self) -> &mut RValue {
        assert!(self.bits() & 7 == 0 && self.sound());
        unsafe { &mut *(self.bits() as *mut RValue) }
    }
    pub fn rvalue_mut(&mut self) -> &mut RValue {
        self.rv_mut()
    }
    pub fn ty(&self) -> Option<ObjTy> {
        Some(self.rv()?.ty())
    }
    pub fn is_packed_value(&self) -> bool {
        self.bits() & 7 != 0
    }
    pub fn is_nil(&self) -> bool {
        self.bits() == 4
    }
    pub fn as_bool(&self) -> bool {
        self.bits() != 4 && self.bits() != 12
    }
    pub fn unpack(&self) -> RV<'_> {
        match self.bits() {
            4 => RV::Nil,
            12 => RV::Bool(false),
            20 => RV::Bool(true),
            x if x & 1 == 1 => RV::Fixnum(x as i64 >> 1),
            x if x & 7 == 2 => RV::Symbol(IdentId((x >> 3) as u32)),
            _ => match &self.rv().unwrap().obj {
                Obj::Big(b) => RV::BigInt(b),
                Obj::Float(f) => RV::Float(*f),
                _ => RV::Object(self.rv().unwrap()),
            },
        }
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        (self.bits() & 1 == 1).then_some(self.bits() as i64 >> 1)
    }
    pub fn is_fixnum(&self) -> bool {
        self.try_fixnum().is_some()
    }
    pub fn try_float(&self) -> Option<f64> {
        match self.unpack() {
            RV::Float(f) => Some(f),
            _ => None,
        }
    }
    pub fn try_symbol(&self) -> Option<IdentId> {
        match self.unpack() {
            RV::Symbol(f) => Some(f),
            _ => None,
        }
    }
    pub fn as_thing(&self) -> Option<&'static Thing> {
        match &self.rv()?.obj {
            Obj::Thing(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_rstring_inner(&self) -> Option<&RStringInner> {
        match &self.rv()?.obj {
            Obj::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_rstring(&self) -> Option<&RStringInner> {
        self.is_rstring_inner()
    }
    pub fn is_range(&self) -> Option<&'static RangeInner> {
        match &self.rv()?.obj {
            Obj::Range(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_regex(&self) -> Option<RegexpInner> {
        match &self.rv()?.obj {
            Obj::Regexp(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn is_class(&self) -> Option<Class> {
        match &self.rv()?.obj {
            Obj::Class(c) => Some(Class(*c)),
            _ => None,
        }
    }
    pub fn as_class_id(&self) -> ClassId {
        self.is_class().expect("a class").0
    }
    pub fn class(&self) -> ClassId {
        self.rv().map_or(INTEGER_CLASS, |r| r.class)
    }
    pub fn real_class(&self, _: &Store) -> Class {
        Class(match self.class() {
            SINGLETON_CLASS => SUB_CLASS,
            c => c,
        })
    }
    pub fn is_kind_of(&self, _: &Store, c: ClassId) -> bool {
        self.class() == c
    }
    pub fn is_frozen(&self) -> bool {
        self.rv().is_none_or(|r| r.frozen)
    }
    pub fn set_frozen(&mut self) {
        self.rv_mut().frozen = true;
    }
    pub fn ensure_not_frozen(&self, s: &Store) -> Result<()> {
        if self.is_frozen() { Err(MonorubyErr::cant_modify_frozen(s, *self)) } else { Ok(()) }
    }
    pub fn dup(&self) -> Value {
        let c = self.real_class(&Store::default()).id();
        match self.try_hash_ty() {
            Some(h) => {
                let (flags, body) = copy_of(h.inner(), self.rv().unwrap().flags());
                Value::hash_of(flags, body, c)
            }
            None => Value::array_with_class(self.as_array_inner().clone(), c),
        }
    }
    pub fn write_barrier(&mut self, child: Value) {
        if !child.is_packed_value() {
            self.write_barrier_bulk();
        }
    }
    pub fn write_barrier_bulk(&mut self) {
        TOLD.with_borrow_mut(|t| t.insert(self.bits()));
    }

    pub fn as_array(&self) -> Array {
        self.try_array_ty().expect("an Array")
    }
    pub fn as_array_mut(self, s: &Store) -> Result<Array> {
        self.ensure_not_frozen(s)?;
        Ok(self.as_array())
    }
    pub fn as_array_inner(&self) -> &ArrayInner {
        match &self.rv().expect("an Array").obj {
            Obj::Array(a) => a,
            _ => panic!("an Array was expected"),
        }
    }
    pub fn as_array_inner_mut(&mut self) -> &mut ArrayInner {
        match &mut self.rv_mut().obj {
            Obj::Array(a) => a,
            _ => panic!("an Array was expected"),
        }
    }
    pub fn try_array_ty(&self) -> Option<Array> {
        (self.ty() == Some(ObjTy::ARRAY)).then(|| Array::wrap(*self))
    }
    pub fn is_array_ty(&self) -> bool {
        self.ty() == Some(ObjTy::ARRAY)
    }
    pub fn expect_array_ty(&self, s: &Store) -> Result<Array> {
        self.try_array_ty().ok_or_else(|| MonorubyErr::no_implicit_conversion(s, *self, ARRAY_CLASS))
    }

    pub fn coerce_to_int_i64(&self, vm: &mut Executor, g: &mut Globals) -> Result<i64> {
        match self.unpack() {
            RV::Fixnum(i) => Ok(i),
            RV::BigInt(b) => b.to_i64().ok_or_else(|| MonorubyErr::rangeerr("bignum too big to convert into 'long'")),
            RV::Float(f) if f.is_finite() && f.abs() < 1e18 => Ok(f as i64),
            RV::Float(_) => Err(MonorubyErr::rangeerr("float out of range")),
            _ => match self.as_thing().and_then(|t| t.to_int) {
                Some(i) => {
                    vm.called(g, "to_int", *self, &[])?;
                    Ok(i)
                }
                None => Err(MonorubyErr::typeerr("no implicit conversion into Integer")),
            },
        }
    }
    pub fn coerce_to_int(&self, vm: &mut Executor, g: &mut Globals) -> Result<Value> {
        self.coerce_to_int_i64(vm, g).map(Value::integer)
    }
    pub fn coerce_to_str(&self, vm: &mut Executor, g: &mut Globals) -> Result<String> {
        let v = match self.as_thing().and_then(|t| t.to_str) {
            Some(s) => {
                vm.called(g, "to_str", *self, &[])?;
                s
            }
            None => *self,
        };
        match v.is_rstring_inner().and_then(|s| s.check_utf8().ok()) {
            Some(s) => Ok(s.to_string()),
            None => Err(MonorubyErr::typeerr("no implicit conversion into String")),
        }
    }
    pub fn coerce_to_string(&self, vm: &mut Executor, g: &mut Globals) -> Result<String> {
        self.coerce_to_str(vm, g)
    }
    pub fn coerce_to_symbol_or_string(&self, vm: &mut Executor, g: &mut Globals) -> Result<IdentId> {
        match self.unpack() {
            RV::Symbol(id) => Ok(id),
            _ => Ok(IdentId::get_id(&self.coerce_to_str(vm, g)?)),
        }
    }
    pub fn coerce_to_array(&self, vm: &mut Executor, g: &mut Globals) -> Result<Array> {
        if let Some(a) = self.try_array_ty() {
            return Ok(a);
        }
        match self.as_thing().and_then(|t| t.to_ary) {
            Some(a) => {
                vm.called(g, "to_ary", *self, &[])?;
                let a = if vm.fresh { fresh_copy(a) } else { a };
                a.try_array_ty().ok_or_else(|| MonorubyErr::typeerr("can't convert to Array"))
            }
            None => Err(MonorubyErr::typeerr("no implicit conversion into Array")),
        }
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        "Thing".to_string()
    }
    pub fn to_s(&self, _: &Store) -> String {
        plain_to_s(*self)
    }
    pub fn inspect(&self, _: &Store) -> String {
        plain_to_s(*self)
    }
    pub fn debug(&self, _: &Store) -> String {
        plain_to_s(*self)
    }
    pub fn inspect_inner(&self, _: &Store, _: &mut HashSet<u64>) -> String {
        plain_to_s(*self)
    }
    pub fn eql(&self, o: &Value, vm: &mut Executor, g: &mut Globals) -> Result<bool> {
        vm.eql(g, *self, *o)
    }
    pub fn ruby_hash<H: std::hash::Hasher>(&self, h: &mut H, vm: &mut Executor, g: &mut Globals) -> Result<()> {
        let d = vm.digest(g, *self)?;
        h.write_u64(d);
        Ok(())
    }
    pub fn calculate_hash(&self, vm: &mut Executor, g: &mut Globals) -> Result<u64> {
        vm.digest(g, *self)
    }
}

/// Text of a value when no method of it may be called.
pub fn plain_to_s(v: Value) -> String {
    match v.unpack() {
        RV::Nil => String::new(),
        RV::Bool(b) => b.to_string(),
        RV::Fixnum(i) => i.to_string(),
        RV::BigInt(b) => b.to_string(),
        RV::Float(x) => format!("{x:?}"),
        RV::Symbol(id) => id.get_name(),
        RV::Object(r) => match &r.obj {
            Obj::Str(s) => String::from_utf8_lossy(s.as_bytes()).to_string(),
            Obj::Thing(t) => format!("#<{}>", t.key),
            Obj::Range(_) => "range".to_string(),
            Obj::Array(_) => "[array]".to_string(),
            _ => "#<object>".to_string(),
        },
    }
}

impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if !self.sound() {
            return write!(f, "#<stale {:x}>", self.bits());
        }
        match self.unpack() {
            RV::Nil => write!(f, "nil"),
            RV::Bool(b) => write!(f, "{b}"),
            RV::Fixnum(i) => write!(f, "{i}"),
            RV::BigInt(b) => write!(f, "{b}"),
            RV::Float(x) => write!(f, "{x:?}"),
            RV::Symbol(id) => write!(f, ":{}", id.get_name()),
            RV::Object(r) => match &r.obj {
                Obj::Str(s) => write!(f, "{:?}", String::from_utf8_lossy(s.as_bytes())),
                Obj::Array(a) => {
                    thread_local!(static DEPTH: Cell<u32> = const { Cell::new(0) });
                    let n = DEPTH.with(|d| d.replace(d.get() + 1));
                    let r = if n > 3 { write!(f, "[...]") } else { f.debug_list().entries(a.iter()).finish() };
                    DEPTH.with(|d| d.set(n));
                    r
                }
                Obj::Thing(t) => {
                    write!(f, "#<{}", t.key)?;
                    if let Some(i) = t.to_int { write!(f, " to_int {i}")? }
                    if let Some(a) = t.to_ary { write!(f, " to_ary {a:?}")? }
                    if let Some(a) = t.to_hash { write!(f, " to_hash {a:?}")? }
                    if let Some(a) = t.to_str { write!(f, " to_str {a:?}")? }
                    if let Some(a) = &t.rand { write!(f, " rand {a:?}")? }
                    if let Some(a) = &t.each { write!(f, " each {a:?}")? }
                    write!(f, ">")
                }
                Obj::Range(r) => write!(f, "({:?}{}{:?})", r.a, if r.excl { "..." } else { ".." }, r.b),
                Obj::Hash => {
                    thread_local!(static DEPTH: Cell<u32> = const { Cell::new(0) });
                    let n = DEPTH.with(|d| d.replace(d.get() + 1));
                    let r = if n > 2 { write!(f, "{{...}}") } else { f.debug_map().entries(self.as_hash().iter()).finish() };
                    DEPTH.with(|d| d.set(n));
                    r
                }
                Obj::Enumerator { id, args, .. } => write!(f, "#<enumerator {} {args:?}>", id.get_name()),
                _ => write!(f, "#<object>"),
            },
        }
    }
}

pub type RubyMap<K, V> = rubymap::RubyMap<K, V, Executor, Globals, MonorubyErr>;
pub type RubySet<K> = rubymap::RubySet<K, Executor, Globals, MonorubyErr>;
pub use rubymap::{RubyEql, RubyHash};
impl RubyHash<Executor, Globals, MonorubyErr> for Value {
    fn ruby_hash<H: std::hash::Hasher>(&self, state: &mut H, e: &mut Executor, g: &mut Globals) -> Result<()> {
        if self.is_packed_value() {
            self.ruby_hash_packed(state);
        } else if let Some(s) = self.is_rstring_inner() {
            std::hash::Hash::hash(s, state);
        } else if let Some(a) = self.try_array_ty() {
            for i in 0..a.len() {
                a[i].ruby_hash(state, e, g)?;
            }
        } else if let Some(h) = self.try_hash_ty() {
            h.inner().ruby_hash(state, e, g)?;
        } else {
            let d = e.digest(g, *self)?;
            state.write_u64(d);
        }
        Ok(())
    }
}
impl RubyEql<Executor, Globals, MonorubyErr> for Value {
    fn eql(&self, other: &Self, e: &mut Executor, g: &mut Globals) -> Result<bool> {
        if self == other {
            return Ok(true);
        }
        e.eql(g, *self, *other)
    }
}

#[derive(Clone, Copy)]
pub struct Class(pub ClassId);
impl Class {
    pub fn id(&self) -> ClassId {
        self.0
    }
}
#[derive(Clone, Copy)]
pub struct BytecodePtr;
pub struct ProcData(Option<FuncId>);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FuncId(pub u32);
pub struct MethodEntry(FuncId);
impl MethodEntry {
    pub fn func_id(&self) -> Option<FuncId> {
        Some(self.0)
    }
}

#[derive(Clone, Copy)]
pub struct Lfp {
    recv: Value,
    args: *const Option<Value>,
    len: usize,
    block: bool,
}
impl Lfp {
    pub fn new(recv: Value, args: &[Option<Value>], block: bool) -> Lfp {
        Lfp { recv, args: args.as_ptr(), len: args.len(), block }
    }
    pub fn self_val(&self) -> Value {
        self.recv
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        if i < self.len { unsafe { *self.args.add(i) } } else { None }
    }
    pub fn arg(&self, i: usize) -> Value {
        self.try_arg(i).expect("argument missing")
    }
    pub fn block(&self) -> Option<BlockHandler> {
        self.block.then_some(BlockHandler(if PAIRWISE.get() { Shape::Other(Some(FuncId::of(false, 2))) } else { Shape::Plain }))
    }
    pub fn iter(&self) -> impl Iterator<Item = Value> {
        let me = *self;
        (0..self.len).filter_map(move |i| me.try_arg(i))
    }
    pub fn expect_block(&self) -> Result<BlockHandler> {
        self.block().ok_or_else(MonorubyErr::no_block_given)
    }
    pub fn expect_no_block(&self) -> Result<()> {
        Ok(())
    }
}

pub type BuiltinFn = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;
pub type Block = Box<dyn FnMut(&mut Executor, &mut Globals, &[Value]) -> Result<Value>>;
pub type Inside = Box<dyn FnMut(&mut Executor, &mut Globals, &[Value])>;
pub type OnCall = Box<dyn FnMut(&mut Executor, &mut Globals, &str, Value, &[Value]) -> Result<()>>;

#[derive(Default)]
pub struct Executor {
    pub block: Option<Block>,
    /// Runs whenever a scripted object is asked anything.
    pub on_call: Option<OnCall>,
    pub temps: Vec<Value>,
    pub warnings: Vec<String>,
    pub rand_pos: usize,
    pub error: Option<MonorubyErr>,
    pub depth: usize,
    /// Receivers and arguments of the calls under way.
    pub frames: Vec<Value>,
    /// Runs inside every call of a block or a scripted object.
    pub inside: Option<Inside>,
    /// Conversions answer new objects.
    pub fresh: bool,
    /// Inside a `hash` or `eql?`.
    pub probing: bool,
    /// The block of the method that asks about it.
    pub caller: Option<Shape>,
    pub on_proc: Option<OnProc>,
}
impl Executor {
    /// Something else runs, with these values on its frame.
    fn enter(&mut self, g: &mut Globals, recv: Value, args: &[Value]) {
        if let Some(mut f) = self.inside.take() {
            let n = self.frames.len();
            self.frames.push(recv);
            self.frames.extend_from_slice(args);
            f(self, g, args);
            self.frames.truncate(n);
            self.inside = Some(f);
        }
    }
    pub fn called(&mut self, g: &mut Globals, name: &str, recv: Value, args: &[Value]) -> Result<()> {
        if recv.as_thing().is_some_and(|t| t.quiet) {
            return Ok(());
        }
        self.probing = ["hash", "eql?"].contains(&name);
        self.enter(g, recv, args);
        self.probing = false;
        if let Some(mut f) = self.on_call.take() {
            let r = f(self, g, name, recv, args);
            self.on_call = Some(f);
            r?;
        }
        Ok(())
    }
    pub fn temp_len(&self) -> usize {
        self.temps.len()
    }
    pub fn temp_at(&self, i: usize) -> Value {
        self.temps[i]
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temps.push(v);
    }
    pub fn temp_pop(&mut self) -> Value {
        self.temps.pop().expect("a temporary")
    }
    pub fn temp_clear(&mut self, n: usize) {
        self.temps.truncate(n);
    }
    pub fn temp_array_new(&mut self, _: impl Into<Option<usize>>) {
        self.temps.push(Value::array_empty());
    }
    pub fn temp_array_push(&mut self, v: Value) {
        self.temps.last().unwrap().as_array().push(v);
    }
    pub fn temp_array_extend_from_slice(&mut self, v: &[Value]) {
        self.temps.last().unwrap().as_array().extend_from_slice(v);
    }
    pub fn temp_hash_insert(&mut self, g: &mut Globals, k: Value, v: Value) -> Result<()> {
        let h = *self.temps.last().unwrap();
        h.as_hash().insert(k, v, self, g)
    }
    pub fn with_temp_scope<T>(&mut self, f: impl FnOnce(&mut Executor) -> T) -> T {
        let n = self.temps.len();
        let r = f(self);
        self.temps.truncate(n);
        r
    }
    pub fn take_error(&mut self) -> MonorubyErr {
        self.error.take().expect("an error")
    }
    pub fn set_error(&mut self, e: MonorubyErr) {
        self.error = Some(e);
    }
    pub fn ruby_warn_caller(&mut self, _: &mut Globals, m: &str) -> Result<()> {
        self.warnings.push(m.to_string());
        Ok(())
    }
    pub fn ruby_warn(&mut self, _: &mut Globals, m: &str) -> Result<()> {
        self.warnings.push(m.to_string());
        Ok(())
    }
    pub fn warn_deprecated(&mut self, _: &mut Globals, m: &str) -> Result<()> {
        self.warnings.push(m.to_string());
        Ok(())
    }
    pub fn get_block_data(&mut self, _: &mut Globals, bh: BlockHandler) -> Result<ProcData> {
        Ok(ProcData(if let Shape::Other(f) = bh.0 { f } else { None }))
    }
    pub fn invoke_block(&mut self, g: &mut Globals, _: &ProcData, args: &[Value]) -> Result<Value> {
        self.invoke_block_once(g, BlockHandler(Shape::Plain), args)
    }
    pub fn invoke_block_once(&mut self, g: &mut Globals, _: BlockHandler, args: &[Value]) -> Result<Value> {
        self.enter(g, Value::nil(), args);
        let mut b = self.block.take().expect("a block");
        let r = b(self, g, args);
        self.block = Some(b);
        r
    }
    pub fn invoke_block_iter1(&mut self, g: &mut Globals, bh: BlockHandler, it: impl Iterator<Item = Value>) -> Result<()> {
        for v in it {
            self.invoke_block_once(g, bh, &[v])?;
        }
        Ok(())
    }
    pub fn generate_enumerator(&mut self, id: IdentId, recv: Value, args: Vec<Value>, _: BytecodePtr) -> Result<Value> {
        Ok(alloc(Obj::Enumerator { id, recv, args, size: None }))
    }
    pub fn generate_enumerator_with_size(&mut self, id: IdentId, recv: Value, args: Vec<Value>, _: BytecodePtr, size: Option<Value>) -> Result<Value> {
        Ok(alloc(Obj::Enumerator { id, recv, args, size }))
    }
    pub fn get_qualified_constant(&mut self, g: &mut Globals, _: ClassId, _: &[&str]) -> Result<Value> {
        Ok(g.random_class())
    }
    pub fn find_method(&mut self, g: &mut Globals, v: Value, id: IdentId, _: bool) -> Result<FuncId> {
        Ok(FuncId(id.0))
    }
    pub fn invoke_func_inner(&mut self, g: &mut Globals, f: FuncId, recv: Value, args: &[Value], _: Option<Value>, _: Option<Value>) -> Result<Value> {
        self.dispatch(g, IdentId(f.0 % 10000), recv, args)
    }
    pub fn invoke_method_inner(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value], _: Option<BlockHandler>, _: Option<Value>) -> Result<Value> {
        self.dispatch(g, id, recv, args)
    }
    pub fn invoke_method_inner_vis(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value], _: Option<Value>, _: Option<Value>, _: bool) -> Result<Value> {
        self.dispatch(g, id, recv, args)
    }
    pub fn invoke_method_if_exists(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value], _: Option<Value>, _: Option<Value>) -> Result<Option<Value>> {
        match g.check_method(recv, id) {
            Some(_) => self.dispatch(g, id, recv, args).map(Some),
            None => Ok(None),
        }
    }
    pub fn invoke_eq(&mut self, g: &mut Globals, a: Value, b: Value) -> Result<bool> {
        self.eq_values_bool(g, a, b)
    }
    pub fn ne_values_bool(&mut self, g: &mut Globals, a: Value, b: Value) -> Result<bool> {
        Ok(!self.eq_values_bool(g, a, b)?)
    }
    pub fn eq_values(&mut self, g: &mut Globals, a: Value, b: Value) -> Result<Value> {
        self.eq_values_bool(g, a, b).map(Value::bool)
    }
    pub fn eq_values_bool(&mut self, g: &mut Globals, a: Value, b: Value) -> Result<bool> {
        if let (Some(x), Some(y)) = (num_of(a), num_of(b)) {
            return Ok(x == y);
        }
        if let (Some(x), Some(y)) = (a.try_array_ty(), b.try_array_ty()) {
            if x.len() != y.len() {
                return Ok(false);
            }
            // A call, whose frame holds both.
            let n = self.frames.len();
            self.frames.extend([a, b]);
            let mut r = Ok(true);
            for i in 0..x.len() {
                r = self.eq_values_bool(g, x[i], y[i]);
                if !matches!(r, Ok(true)) {
                    break;
                }
            }
            self.frames.truncate(n);
            return r;
        }
        if a.ty() == Some(ObjTy::HASH) {
            return Ok(self.dispatch(g, IdentId::_EQ, a, &[b])?.as_bool());
        }
        // Whichever side is scripted is asked.
        if a.as_thing().is_some() {
            self.called(g, "==", a, &[b])?;
        } else if b.as_thing().is_some() {
            self.called(g, "==", b, &[a])?;
        }
        Ok(plain_eq(a, b))
    }
    pub fn eql(&mut self, g: &mut Globals, a: Value, b: Value) -> Result<bool> {
        if let (Some(x), Some(y)) = (a.try_array_ty(), b.try_array_ty()) {
            if x.len() != y.len() {
                return Ok(false);
            }
            for i in 0..x.len() {
                if !self.eql(g, x[i], y[i])? {
                    return Ok(false);
                }
            }
            return Ok(true);
        }
        if let (Some(x), Some(y)) = (a.try_hash_ty(), b.try_hash_ty()) {
            return x.inner().eql(&y.inner(), self, g);
        }
        if a.as_thing().is_some() {
            self.called(g, "eql?", a, &[b])?;
        }
        Ok(plain_eql(a, b))
    }
    /// A digest that follows `eql?`; arrays mix their elements in order.
    pub fn digest(&mut self, g: &mut Globals, v: Value) -> Result<u64> {
        if let Some(a) = v.try_array_ty() {
            self.depth += 1;
            if self.depth > 8 {
                self.depth -= 1;
                return Ok(7);
            }
            let mut h = 17u64;
            let mut i = 0;
            while i < a.len() {
                match self.digest(g, a[i]) {
                    Ok(d) => h = h.wrapping_mul(31).wrapping_add(d),
                    Err(e) => {
                        self.depth -= 1;
                        return Err(e);
                    }
                }
                i += 1;
            }
            self.depth -= 1;
            return Ok(h);
        }
        if v.ty() == Some(ObjTy::HASH) {
            return Ok(self.dispatch(g, IdentId::HASH, v, &[])?.bits());
        }
        if v.as_thing().is_some() {
            self.called(g, "hash", v, &[])?;
        }
        Ok(match v.unpack() {
            RV::Float(f) => f.to_bits() ^ 5,
            RV::BigInt(b) => b.to_string().len() as u64,
            RV::Object(RValue { obj: Obj::Thing(t), .. }) => t.key as u64 % 3,
            RV::Object(RValue { obj: Obj::Str(s), .. }) => s.as_bytes().iter().fold(9, |h, b| h * 3 + *b as u64),
            _ => v.bits() % 5,
        })
    }
    pub fn compare_values_inner(&mut self, g: &mut Globals, a: Value, b: Value) -> Result<Option<std::cmp::Ordering>> {
        if let (Some(x), Some(y)) = (num_of(a), num_of(b)) {
            return Ok(x.partial_cmp(&y));
        }
        if a.as_thing().is_some() {
            self.called(g, "<=>", a, &[b])?;
        }
        Ok(plain_cmp(a, b))
    }
    pub fn compare_values(&mut self, g: &mut Globals, a: Value, b: Value) -> Result<std::cmp::Ordering> {
        self.compare_values_inner(g, a, b)?.ok_or_else(|| MonorubyErr::argumenterr("comparison failed"))
    }

    pub fn dispatch(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value]) -> Result<Value> {
        let name = id.get_name();
        let no_method = || Err(MonorubyErr::new(Kind::NotMethod { name: Some(id) }, format!("undefined method {name}")));
        if recv.ty() == Some(ObjTy::HASH) {
            if name == "warn" {
                self.warnings.push("warned".to_string());
                return Ok(Value::nil());
            }
            let own = if recv.class() == SET_CLASS { &g.set_funcs } else { &g.funcs };
            let Some(&(f, ar)) = own.get(&name) else {
                return no_method();
            };
            let n = self.frames.len();
            self.frames.push(recv);
            self.frames.extend_from_slice(args);
            let mut all: Vec<_> = args.iter().take(ar.max).map(|v| Some(*v)).collect();
            all.resize(ar.max, None);
            if ar.rest {
                all.push(Some(Value::array_from_slice(&args[ar.max..])));
                self.frames.extend(all.iter().flatten());
            }
            let r = f(self, g, Lfp::new(recv, &all, false), BytecodePtr);
            self.frames.truncate(n);
            return r;
        }
        if let Some(a) = recv.try_array_ty()
            && name == "dig"
        {
            let i = args[0].try_fixnum().ok_or_else(|| MonorubyErr::typeerr("not an index"))?;
            return Ok(a.get(i as usize).copied().unwrap_or_default());
        }
        match name.as_str() {
            "__zip_pull" => {
                let (src, n) = (args[0].as_thing().unwrap(), args[1].try_fixnum().unwrap() as usize);
                self.called(g, "each", args[0], &[])?;
                let all = src.each.as_ref().unwrap();
                return Ok(Value::array_from_vec(all[..n.min(all.len())].to_vec()));
            }
            "==" => return self.eq_values(g, recv, args[0]),
            "eql?" => return self.eql(g, recv, args[0]).map(Value::bool),
            "<=>" => return Ok(self.compare_values_inner(g, recv, args[0])?.map_or(Value::nil(), |o| Value::integer(o as i64))),
            "hash" => return Ok(Value::integer(self.digest(g, recv)? as i64 & 0xffff_ffff)),
            "+" | "*" | "-" => {
                if recv.as_thing().is_some() {
                    self.called(g, &name, recv, args)?;
                }
                return match plain_arith(&name, recv, args[0]) {
                    Some(v) => Ok(v),
                    None => Err(MonorubyErr::typeerr("can't be added")),
                };
            }
            "[]" if recv.ty() == Some(ObjTy::ARITHMETIC_SEQUENCE) => return Ok(Value::symbol(IdentId::get_id("aseq"))),
            _ => {}
        }
        let Some(t) = recv.as_thing() else {
            return match name.as_str() {
                "inspect" => Ok(Value::string(plain_inspect(recv))),
                "to_s" => Ok(match recv.is_rstring_inner() {
                    Some(_) => recv,
                    None => Value::string(plain_to_s(recv)),
                }),
                "respond_to?" => Ok(Value::bool(false)),
                _ => no_method(),
            };
        };
        if name == "to_a" && t.each.is_some() {
            self.called(g, "to_a", recv, &[])?;
            let l = t.each.as_ref().unwrap();
            let fresh = self.fresh;
            return Ok(Value::array_from_vec(l.iter().map(|v| if fresh { fresh_copy(*v) } else { *v }).collect()));
        }
        let answer = match name.as_str() {
            "inspect" => Some(Value::string(plain_inspect(recv))),
            "to_s" => t.to_s,
            "to_str" => t.to_str,
            "to_ary" => t.to_ary,
            "to_hash" => t.to_hash,
            "to_proc" => t.to_proc,
            "call" => t.call,
            "respond_to?" => Some(Value::bool(t.respond_to.unwrap_or(t.to_ary.is_some()))),
            "respond_to_missing?" => t.respond_to_missing.map(Value::bool),
            "method_missing" => match t.missing {
                Some(Missing::Gives(v)) => Some(v),
                Some(Missing::Raises) => {
                    self.called(g, &name, recv, args)?;
                    return Err(MonorubyErr::new(Kind::Scripted(77), "method_missing raised"));
                }
                Some(Missing::NoMethod) => {
                    self.called(g, &name, recv, args)?;
                    return Err(MonorubyErr::new(Kind::NotMethod { name: Some(IdentId::TO_ARY) }, "no to_ary"));
                }
                None => None,
            },
            "rand" => t.rand.as_ref().map(|seq| {
                let n = args[0].try_fixnum().unwrap();
                let v = seq[self.rand_pos % seq.len()];
                self.rand_pos += 1;
                Value::integer(if t.wild { v } else { v.rem_euclid(n) })
            }),
            _ => None,
        };
        match answer {
            Some(v) => {
                self.called(g, &name, recv, args)?;
                Ok(if name == "inspect" {
                    Value::string(plain_inspect(recv))
                } else if self.fresh {
                    fresh_copy(v)
                } else {
                    v
                })
            }
            None => no_method(),
        }
    }
}

pub fn num_of(v: Value) -> Option<f64> {
    match v.unpack() {
        RV::Fixnum(i) => Some(i as f64),
        RV::BigInt(b) => b.to_string().parse().ok(),
        RV::Float(f) => Some(f),
        _ => None,
    }
}
/// `==` of values that are not arrays, without asking anybody.
pub fn plain_eq(a: Value, b: Value) -> bool {
    if let (Some(x), Some(y)) = (num_of(a), num_of(b)) {
        return x == y;
    }
    if let (Some(x), Some(y)) = (a.as_thing(), b.as_thing()) {
        return x.key == y.key;
    }
    if let (Some(x), Some(y)) = (a.is_rstring_inner(), b.is_rstring_inner()) {
        return x.as_bytes() == y.as_bytes();
    }
    a == b
}
pub fn plain_eql(a: Value, b: Value) -> bool {
    match (a.unpack(), b.unpack()) {
        (RV::Float(x), RV::Float(y)) => a == b || x == y,
        (RV::Float(_), _) | (_, RV::Float(_)) => false,
        _ => plain_eq(a, b),
    }
}
pub fn plain_cmp(a: Value, b: Value) -> Option<std::cmp::Ordering> {
    if let (Some(x), Some(y)) = (num_of(a), num_of(b)) {
        return x.partial_cmp(&y);
    }
    if let (Some(x), Some(y)) = (a.as_thing(), b.as_thing()) {
        return Some(x.key.cmp(&y.key));
    }
    if let (Some(x), Some(y)) = (a.is_rstring_inner(), b.is_rstring_inner()) {
        return Some(x.as_bytes().cmp(y.as_bytes()));
    }
    (a == b).then_some(std::cmp::Ordering::Equal)
}
pub fn plain_arith(op: &str, a: Value, b: Value) -> Option<Value> {
    if let (Some(x), Some(y)) = (a.is_rstring_inner(), b.is_rstring_inner()) {
        return (op == "+").then(|| Value::string(plain_to_s(a) + &plain_to_s(b)));
    }
    let int = |v: Value| match v.unpack() {
        RV::Fixnum(i) => Some(BigInt::from(i)),
        RV::BigInt(b) => Some(b.clone()),
        _ => v.as_thing().map(|t| BigInt::from(t.key)),
    };
    if let (Some(x), Some(y)) = (int(a), int(b)) {
        return Some(Value::bigint(match op {
            "+" => x + y,
            "-" => x - y,
            _ => x * y,
        }));
    }
    let f = |v: Value| num_of(v).or(v.as_thing().map(|t| t.key as f64));
    let (x, y) = (f(a)?, f(b)?);
    Some(Value::float(match op {
        "+" => x + y,
        "-" => x - y,
        _ => x * y,
    }))
}
pub fn plain_inspect(v: Value) -> String {
    match v.unpack() {
        RV::Nil => "nil".to_string(),
        RV::Symbol(id) => format!(":{}", id.get_name()),
        _ => match v.is_rstring_inner() {
            Some(s) => format!("{:?}", String::from_utf8_lossy(s.as_bytes())),
            None => plain_to_s(v),
        },
    }
}

#[derive(Default)]
pub struct ClassInfo {
    pub alloc: Option<extern "C" fn(ClassId, &mut Globals) -> Value>,
}
impl ClassInfo {
    pub fn set_alloc_func(&mut self, f: extern "C" fn(ClassId, &mut Globals) -> Value) {
        self.alloc = Some(f);
    }
}
#[derive(Default)]
pub struct Store {
    pub class: ClassInfo,
    pub site: CallSiteInfo,
}
impl Store {
    pub fn set_hash_hash_fid(&mut self, _: FuncId) {}
    pub fn set_array_hash_fid(&mut self, _: FuncId) {}
    pub fn check_method_for_class(&self, _: ClassId, id: IdentId) -> Option<MethodEntry> {
        Some(MethodEntry(FuncId(10000 + id.0)))
    }
    pub fn check_method(&self, v: Value, id: IdentId) -> Option<FuncId> {
        let name = id.get_name();
        if matches!(name.as_str(), "respond_to?" | "respond_to_missing?" | "method_missing") {
            let own = v.as_thing().is_some_and(|t| match name.as_str() {
                "respond_to?" => t.respond_to.is_some(),
                "respond_to_missing?" => t.respond_to_missing.is_some(),
                _ => t.missing.is_some(),
            });
            return Some(FuncId(if own { id.0 } else { 10000 + id.0 }));
        }
        let has = match v.as_thing() {
            Some(t) => match name.as_str() {
                "to_ary" => t.to_ary.is_some(),
                "to_hash" => t.to_hash.is_some(),
                "to_proc" => t.to_proc.is_some(),
                "to_str" => t.to_str.is_some(),
                "to_s" => t.to_s.is_some(),
                "each" => t.each.is_some(),
                "call" => t.call.is_some(),
                "rand" => t.rand.is_some(),
                "to_int" => t.to_int.is_some(),
                _ => true,
            },
            None => match name.as_str() {
                "to_ary" => v.is_array_ty(),
                "to_hash" | "to_proc" => false,
                "to_str" => v.is_rstring_inner().is_some(),
                "each" => v.is_array_ty(),
                "call" | "rand" => false,
                _ => true,
            },
        };
        has.then_some(FuncId(id.0))
    }
}
impl std::ops::Index<ClassId> for Store {
    type Output = ClassInfo;
    fn index(&self, _: ClassId) -> &ClassInfo {
        &self.class
    }
}
impl std::ops::IndexMut<ClassId> for Store {
    fn index_mut(&mut self, _: ClassId) -> &mut ClassInfo {
        &mut self.class
    }
}
impl std::ops::Index<CallSiteId> for Store {
    type Output = CallSiteInfo;
    fn index(&self, _: CallSiteId) -> &CallSiteInfo {
        &self.site
    }
}

/// How a method takes its arguments.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Arity {
    pub min: usize,
    pub max: usize,
    pub rest: bool,
    pub kw: usize,
}
#[derive(Default)]
pub struct Globals {
    pub store: Store,
    pub funcs: HashMap<String, (BuiltinFn, Arity)>,
    pub class_funcs: HashMap<String, (BuiltinFn, Arity)>,
    pub env_funcs: HashMap<String, (BuiltinFn, Arity)>,
    pub set_funcs: HashMap<String, (BuiltinFn, Arity)>,
    pub set_class_funcs: HashMap<String, (BuiltinFn, Arity)>,
    pub env: Option<Value>,
    /// Helpers compiled code calls in place of methods.
    pub fast: HashMap<String, u64>,
    pub ofs: Option<Value>,
    pub random: Option<Value>,
    pub draws: Vec<u64>,
    pub next_draw: u64,
    /// Prescribed draws; zeros follow.
    pub script: Option<Vec<u64>>,
    pub limits: Vec<u64>,
}
impl std::ops::Deref for Globals {
    type Target = Store;
    fn deref(&self) -> &Store {
        &self.store
    }
}
impl Globals {
    pub fn current_enum_block_arity(&self) -> Option<i64> {
        None
    }
    pub fn ofs(&self) -> Value {
        self.ofs.unwrap_or_default()
    }
    pub fn random_class(&mut self) -> Value {
        *self.random.get_or_insert_with(|| Value::class_obj(RANDOM_CLASS))
    }
    pub fn random_ulong_limited(&mut self, limit: u64) -> u64 {
        if let Some(script) = &mut self.script {
            let i = self.limits.len();
            self.limits.push(limit);
            if i == script.len() {
                script.push(0);
            }
            return script[i];
        }
        self.next_draw = self.next_draw.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let d = if limit == u64::MAX { self.next_draw } else { (self.next_draw >> 33) % (limit + 1) };
        self.draws.push(d);
        d
    }
    fn def(&mut self, n: &str, f: BuiltinFn, min: usize, max: usize, rest: bool, kw: usize) -> FuncId {
        self.funcs.insert(n.to_string(), (f, Arity { min, max, rest, kw }));
        FuncId(0)
    }
    pub fn define_builtin_class_under_obj(&mut self, _: &str, _: ClassId, _: ObjTy) -> Class {
        Class(HASH_CLASS)
    }
    pub fn define_builtin_class_func(&mut self, _: ClassId, n: &str, f: BuiltinFn, k: usize) -> FuncId {
        self.class_funcs.insert(n.to_string(), (f, Arity { min: k, max: k, rest: false, kw: 0 }));
        FuncId(0)
    }
    pub fn define_builtin_class_func_with(&mut self, _: ClassId, n: &str, f: BuiltinFn, min: usize, max: usize, rest: bool) -> FuncId {
        self.class_funcs.insert(n.to_string(), (f, Arity { min, max, rest, kw: 0 }));
        FuncId(0)
    }
    pub fn define_builtin_class_func_rest(&mut self, _: ClassId, n: &str, f: BuiltinFn) -> FuncId {
        self.class_funcs.insert(n.to_string(), (f, Arity { min: 0, max: 0, rest: true, kw: 0 }));
        FuncId(0)
    }
    pub fn define_builtin_func(&mut self, _: ClassId, n: &str, f: BuiltinFn, k: usize) -> FuncId {
        self.def(n, f, k, k, false, 0)
    }
    pub fn define_private_builtin_func(&mut self, _: ClassId, n: &str, f: BuiltinFn, k: usize) -> FuncId {
        self.def(n, f, k, k, false, 0)
    }
    pub fn define_builtin_funcs(&mut self, _: ClassId, n: &str, more: &[&str], f: BuiltinFn, k: usize) -> FuncId {
        more.iter().for_each(|n| {
            self.def(n, f, k, k, false, 0);
        });
        self.def(n, f, k, k, false, 0)
    }
    pub fn define_builtin_func_rest(&mut self, _: ClassId, n: &str, f: BuiltinFn) -> FuncId {
        self.def(n, f, 0, 0, true, 0)
    }
    pub fn define_builtin_funcs_rest(&mut self, _: ClassId, n: &str, more: &[&str], f: BuiltinFn) -> FuncId {
        more.iter().for_each(|n| {
            self.def(n, f, 0, 0, true, 0);
        });
        self.def(n, f, 0, 0, true, 0)
    }
    pub fn define_builtin_func_with(&mut self, _: ClassId, n: &str, f: BuiltinFn, min: usize, max: usize, rest: bool) -> FuncId {
        self.def(n, f, min, max, rest, 0)
    }
    pub fn define_builtin_funcs_with(&mut self, _: ClassId, n: &str, more: &[&str], f: BuiltinFn, min: usize, max: usize, rest: bool) -> FuncId {
        more.iter().for_each(|n| {
            self.def(n, f, min, max, rest, 0);
        });
        self.def(n, f, min, max, rest, 0)
    }
    pub fn define_builtin_func_with_kw(&mut self, _: ClassId, n: &str, f: BuiltinFn, min: usize, max: usize, rest: bool, kw: &[&str], _: bool) -> FuncId {
        self.def(n, f, min, max, rest, kw.len())
    }
    fn inline(&mut self, name: &str, gen_: InlineGen, pos: usize) {
        let mut ir = AsmIr { found: Vec::new() };
        self.store.site.pos_num = pos;
        gen_(&mut AbstractState, &mut ir, &JitContext, &self.store, CallSiteId, Some(HASH_CLASS), Some(INTEGER_CLASS));
        for p in ir.found {
            self.fast.insert(name.to_string(), p);
        }
    }
    pub fn define_builtin_inline_func(&mut self, c: ClassId, n: &str, f: BuiltinFn, i: InlineGen, k: usize) -> FuncId {
        self.inline(n, i, k);
        self.define_builtin_func(c, n, f, k)
    }
    pub fn define_builtin_inline_funcs(&mut self, c: ClassId, n: &str, m: &[&str], f: BuiltinFn, i: InlineGen, k: usize) -> FuncId {
        self.inline(n, i, k);
        self.define_builtin_funcs(c, n, m, f, k)
    }
    pub fn define_builtin_inline_func_with(&mut self, c: ClassId, n: &str, f: BuiltinFn, i: InlineGen, min: usize, max: usize, r: bool) -> FuncId {
        self.inline(n, i, max);
        self.define_builtin_func_with(c, n, f, min, max, r)
    }
    pub fn define_builtin_inline_funcs_with(&mut self, c: ClassId, n: &str, m: &[&str], f: BuiltinFn, i: InlineGen, min: usize, max: usize, r: bool) -> FuncId {
        self.inline(n, i, max);
        self.define_builtin_funcs_with(c, n, m, f, min, max, r)
    }
}

/// The compiler's side is reduced to which helpers it would call.
pub type InlineGen = fn(&mut AbstractState, &mut AsmIr, &JitContext, &Store, CallSiteId, Option<ClassId>, Option<ClassId>) -> bool;
pub mod jitgen {
    pub use super::{AbstractState, JitContext};
}
#[derive(Clone, Copy)]
pub struct CallSiteId;
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct SlotId(pub u16);
impl std::ops::Add<usize> for SlotId {
    type Output = SlotId;
    fn add(self, n: usize) -> SlotId {
        SlotId(self.0 + n as u16)
    }
}
#[derive(Clone, Copy, Default)]
pub struct CallSiteInfo {
    pub dst: Option<SlotId>,
    pub args: SlotId,
    pub recv: SlotId,
    pub pos_num: usize,
    pub block_fid: Option<FuncId>,
}
impl CallSiteInfo {
    pub fn is_simple(&self) -> bool {
        true
    }
}
#[derive(Clone, Copy)]
pub enum GP {
    Rax,
    Rdi,
    Rsi,
    Rdx,
    Rcx,
}
pub struct JitContext;
pub struct AbstractState;
pub struct Literal;
impl Literal {
    pub fn get(&self) -> i64 {
        2
    }
}
impl AbstractState {
    pub fn load(&mut self, _: &mut AsmIr, _: SlotId, _: GP) {}
    pub fn load_fixnum(&mut self, _: &mut AsmIr, _: SlotId, _: GP) {}
    pub fn get_using_fpr(&self, _: &mut AsmIr) -> u8 {
        0
    }
    pub fn def_reg2acc_class(&mut self, _: &mut AsmIr, _: GP, _: Option<SlotId>, _: ClassId) {}
    pub fn def_reg2acc_fixnum(&mut self, _: &mut AsmIr, _: GP, _: Option<SlotId>) {}
    pub fn def_reg2acc(&mut self, _: &mut AsmIr, _: GP, _: Option<SlotId>) {}
    pub fn array_integer_index(&mut self, _: &mut AsmIr, _: &Store, _: SlotId, _: SlotId, _: SlotId) {}
    pub fn array_integer_index_assign(&mut self, _: &mut AsmIr, _: &Store, _: SlotId, _: SlotId, _: SlotId) {}
    pub fn may_be_fixnum(&self, _: SlotId) -> bool {
        true
    }
    pub fn is_fixnum_literal(&self, _: SlotId) -> Option<Literal> {
        Some(Literal)
    }
}
pub struct AsmIr {
    found: Vec<u64>,
}
pub struct Emitter<'a>(&'a mut Vec<u64>);
impl AsmIr {
    pub fn inline(&mut self, f: impl FnOnce(&mut Emitter, (), (), ())) {
        f(&mut Emitter(&mut self.found), (), (), ());
    }
    pub fn fpr_save(&mut self, _: u8) {}
    pub fn fpr_restore(&mut self, _: u8) {}
    pub fn new_deopt(&mut self, _: &AbstractState) -> u8 {
        0
    }
    pub fn new_error(&mut self, _: &AbstractState) -> u8 {
        0
    }
    pub fn guard_frozen(&mut self, _: u8) {}
    pub fn handle_error(&mut self, _: u8) {}
}
#[macro_export]
macro_rules! inline_gen2 {
    ($f:expr) => {
        $f as $crate::world::InlineGen
    };
}

#[derive(Clone, Copy)]
pub struct Proc(Value);
impl Proc {
    pub fn as_val(self) -> Value {
        self.0
    }
    pub fn func_id(&self) -> FuncId {
        match self.0.rv().unwrap().obj {
            Obj::Proc { lambda, arity } => FuncId::of(lambda, arity),
            _ => panic!("a Proc was expected"),
        }
    }
    pub fn mark(&self, a: &mut crate::alloc::Allocator<RValue>) {
        self.0.mark(a);
    }
}
impl From<Proc> for Value {
    fn from(p: Proc) -> Value {
        p.0
    }
}
impl std::fmt::Debug for Proc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
pub mod proc {
    use super::*;
    pub fn proc_is_lambda(_: &Globals, p: &Proc) -> bool {
        matches!(p.0.rv().unwrap().obj, Obj::Proc { lambda: true, .. })
    }
    pub fn proc_arity_value(_: &Globals, p: &Proc) -> i64 {
        match p.0.rv().unwrap().obj {
            Obj::Proc { arity, .. } => arity,
            _ => panic!("a Proc was expected"),
        }
    }
}

/// What a block was made from.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Plain,
    Proc(Value),
    Proxy(FuncId),
    Method(FuncId, bool),
    Other(Option<FuncId>),
}
#[derive(Clone, Copy)]
pub struct BlockHandler(pub Shape);
pub struct BlockValue(Shape);
pub struct MethodInner(FuncId, bool);
impl BlockHandler {
    pub fn try_proc(&self) -> Option<Proc> {
        if let Shape::Proc(v) = self.0 { v.is_proc() } else { None }
    }
    pub fn try_proxy(&self) -> Option<(FuncId, ())> {
        if let Shape::Proxy(f) = self.0 { Some((f, ())) } else { None }
    }
    pub fn get(&self) -> BlockValue {
        BlockValue(self.0)
    }
}
impl BlockValue {
    pub fn is_method(&self) -> Option<MethodInner> {
        if let Shape::Method(f, m) = self.0 { Some(MethodInner(f, m)) } else { None }
    }
}
impl MethodInner {
    pub fn method_missing_name(&self) -> Option<IdentId> {
        self.1.then_some(IdentId(0))
    }
    pub fn func_id(&self) -> FuncId {
        self.0
    }
}
impl ProcData {
    pub fn func_id(&self) -> Option<FuncId> {
        self.0
    }
}
pub struct Cfp(Option<Shape>);
impl Cfp {
    pub fn prev(&self) -> Option<Cfp> {
        Some(Cfp(self.0))
    }
    pub fn lfp(&self) -> CallerLfp {
        CallerLfp(self.0)
    }
}
pub struct CallerLfp(Option<Shape>);
impl CallerLfp {
    pub fn yield_home(&self) -> &Self {
        self
    }
    pub fn block(&self) -> Option<BlockHandler> {
        self.0.map(BlockHandler)
    }
}
pub struct FuncInfo {
    block_style: bool,
    arity: i64,
}
impl FuncInfo {
    pub fn is_block_style(&self) -> bool {
        self.block_style
    }
    pub fn arity(&self) -> i64 {
        self.arity
    }
}
static INFOS: std::sync::LazyLock<Vec<FuncInfo>> =
    std::sync::LazyLock::new(|| (0..200).map(|i| FuncInfo { block_style: i < 100, arity: i % 100 - 50 }).collect());
impl FuncId {
    pub fn of(lambda: bool, arity: i64) -> FuncId {
        FuncId(20000 + lambda as u32 * 100 + (arity + 50) as u32)
    }
}
impl std::ops::Index<FuncId> for Store {
    type Output = FuncInfo;
    fn index(&self, f: FuncId) -> &FuncInfo {
        &INFOS[f.0 as usize - 20000]
    }
}
pub type OnProc = Box<dyn FnMut(&mut Executor, &mut Globals, Value, &[Value]) -> Result<Value>>;
impl Executor {
    pub fn cfp(&self) -> Cfp {
        Cfp(self.caller)
    }
    pub fn generate_proc(&mut self, _: &mut Globals, _: BlockHandler, _: BytecodePtr) -> Result<Proc> {
        Ok(Proc(Value::proc(false, 2)))
    }
    pub fn invoke_proc(&mut self, g: &mut Globals, p: &Proc, args: &[Value]) -> Result<Value> {
        self.enter(g, p.0, args);
        let mut f = self.on_proc.take().expect("no proc was expected to run");
        let r = f(self, g, p.0, args);
        self.on_proc = Some(f);
        r
    }
}
impl Globals {
    pub fn set_constant_by_str(&mut self, _: ClassId, _: &str, v: Value) {
        self.env = Some(v);
    }
    pub fn define_builtin_singleton_func(&mut self, _: Value, n: &str, f: BuiltinFn, k: usize) -> FuncId {
        self.env_funcs.insert(n.to_string(), (f, Arity { min: k, max: k, rest: false, kw: 0 }));
        FuncId(0)
    }
    pub fn define_builtin_singleton_func_with(&mut self, _: Value, n: &str, f: BuiltinFn, min: usize, max: usize, rest: bool) -> FuncId {
        self.env_funcs.insert(n.to_string(), (f, Arity { min, max, rest, kw: 0 }));
        FuncId(0)
    }
    pub fn define_private_builtin_func_with_kw(&mut self, _: ClassId, n: &str, f: BuiltinFn, min: usize, max: usize, rest: bool, kw: &[&str], _: bool) -> FuncId {
        self.def(n, f, min, max, rest, kw.len())
    }
    pub fn define_builtin_funcs_with_kw(&mut self, _: ClassId, n: &str, more: &[&str], f: BuiltinFn, min: usize, max: usize, rest: bool, kw: &[&str], _: bool) -> FuncId {
        for n in more {
            self.def(n, f, min, max, rest, kw.len());
        }
        self.def(n, f, min, max, rest, kw.len())
    }
}
impl AbstractState {
    pub fn def_rax2acc(&mut self, _: &mut AsmIr, _: Option<SlotId>) {}
}
impl Emitter<'_> {
    pub fn emit_call_2args(&mut self, p: u64) {
        self.0.push(p);
    }
    pub fn emit_hash_default_assign(&mut self, p: u64) {
        self.0.push(p);
    }
    pub fn emit_hash_index_assign(&mut self, p: u64) {
        self.0.push(p);
    }
}
impl AsmIr {
    pub fn hash_compare_by_identity(&mut self, _: GP, _: GP) {}
    pub fn hash_default(&mut self, _: GP, _: GP, _: bool) {}
    pub fn hash_len_fixnum(&mut self, _: GP, _: GP, _: rubymap::EntriesLayout, _: bool) {}
    pub fn hash_live_at(&mut self, _: rubymap::EntriesLayout) {}
    pub fn hash_entry_at(&mut self, _: bool, _: rubymap::EntriesLayout) {}
}
impl MonorubyErr {
    pub fn keyerr_with(msg: impl ToString, recv: Value, key: Value) -> Self {
        KEYERR.set(Some((recv, key)));
        MonorubyErr::new(Kind::Key, msg)
    }
    pub fn from_io_err(_: &Store, e: &std::io::Error, _: impl ToString) -> Self {
        MonorubyErr::new(Kind::Io, e)
    }
}
thread_local! {
    /// Receiver and key of the last key error.
    pub static KEYERR: Cell<Option<(Value, Value)>> = const { Cell::new(None) };
}
