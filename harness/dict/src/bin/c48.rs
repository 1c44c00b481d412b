//! Hashes against a model.
//!
//! The real hash class and its storage run between a small stand-in interpreter
//! and a plain list of pairs.  Every call is also made on the model: answer,
//! pairs in order, block calls and errors must agree, and after every call the
//! storage is looked at through every way in that there is.

#![allow(dead_code, unused_imports)]

#[path = "../hash_world.rs"]
pub mod world;

pub mod globals {
    pub use crate::world::Store;
}
pub mod alloc {
    /// What marking visited, and which objects count as young.
    pub struct Allocator<T> {
        pub seen: Vec<crate::world::Value>,
        pub young: Option<crate::world::Value>,
        what: std::marker::PhantomData<T>,
    }
    impl<T> Default for Allocator<T> {
        fn default() -> Self {
            Allocator { seen: vec![], young: None, what: std::marker::PhantomData }
        }
    }
    impl Allocator<crate::world::RValue> {
        pub fn is_old(&self, r: &crate::world::RValue) -> bool {
            self.young.is_none_or(|y| !std::ptr::eq(y.rv().unwrap(), r))
        }
    }
    pub trait GC<T: GCBox> {
        fn mark(&self, a: &mut Allocator<T>);
    }
    pub trait GCBox {}
    impl GCBox for crate::world::RValue {}
}
pub mod value {
    use crate::world::*;
    use std::cell::RefCell;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Encoding {
        Ascii8,
        Utf8,
        UsAscii,
        Latin1,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum CodeRange {
        SevenBit,
        Valid,
        Broken,
        Unknown,
    }
    impl Encoding {
        pub fn compatible(a: Encoding, ca: CodeRange, b: Encoding, cb: CodeRange) -> Option<Encoding> {
            if a == b || cb == CodeRange::SevenBit {
                Some(a)
            } else if ca == CodeRange::SevenBit {
                Some(b)
            } else {
                None
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct RStringInner {
        pub bytes: Vec<u8>,
        pub enc: Encoding,
    }
    impl RStringInner {
        pub fn from_encoding(b: &[u8], enc: Encoding) -> Self {
            RStringInner { bytes: b.to_vec(), enc }
        }
        pub fn from_encoding_scanned(b: &[u8], enc: Encoding) -> Self {
            RStringInner { bytes: b.to_vec(), enc }
        }
        pub fn from_str_scanned(s: &str) -> Self {
            RStringInner { bytes: s.as_bytes().to_vec(), enc: Encoding::Utf8 }
        }
        pub fn from_str(s: &str) -> Self {
            Self::from_str_scanned(s)
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.bytes
        }
        pub fn len(&self) -> usize {
            self.bytes.len()
        }
        pub fn is_empty(&self) -> bool {
            self.bytes.is_empty()
        }
        pub fn encoding(&self) -> Encoding {
            self.enc
        }
        pub fn code_range(&self) -> CodeRange {
            if self.bytes.is_ascii() {
                CodeRange::SevenBit
            } else if self.enc == Encoding::Utf8 && std::str::from_utf8(&self.bytes).is_err() || self.enc == Encoding::UsAscii {
                CodeRange::Broken
            } else {
                CodeRange::Valid
            }
        }
        pub fn check_utf8(&self) -> Result<&str> {
            std::str::from_utf8(&self.bytes).map_err(|_| MonorubyErr::argumenterr("invalid byte sequence"))
        }
    }
    thread_local! {
        static ONE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        static THREE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        static TWO: RefCell<HashSet<(u64, u64)>> = RefCell::new(HashSet::new());
    }
    pub fn guards_left() -> usize {
        ONE.with_borrow_mut(|s| std::mem::take(s)).len() + THREE.with_borrow_mut(|s| std::mem::take(s)).len() + TWO.with_borrow_mut(|s| std::mem::take(s)).len()
    }
    pub fn exec_recursive<F: FnOnce() -> Result<Value>>(id: u64, f: F, on: Value) -> Result<Value> {
        if !ONE.with_borrow_mut(|s| s.insert(id)) {
            return Ok(on);
        }
        let r = f();
        ONE.with_borrow_mut(|s| s.remove(&id));
        r
    }
    pub fn exec_recursive_outer_unregistered<T, F: FnOnce() -> Result<T>>(f: F, _: T) -> Result<T> {
        f()
    }
    thread_local! {
        static HIT: RefCell<bool> = const { RefCell::new(false) };
    }
    /// A cycle anywhere below makes the outermost call answer `on`.
    pub fn exec_recursive_outer<T, F: FnOnce() -> Result<T>>(id: u64, f: F, on: T) -> Result<T> {
        let outermost = THREE.with_borrow(|s| s.is_empty());
        if !THREE.with_borrow_mut(|s| s.insert(id)) {
            HIT.set(true);
            return Ok(on);
        }
        let r = f();
        THREE.with_borrow_mut(|s| s.remove(&id));
        if outermost && HIT.replace(false) { r.map(|_| on) } else { r }
    }
    pub fn exec_recursive_paired<F: FnOnce() -> Result<Value>>(a: u64, b: u64, f: F, on: Value) -> Result<Value> {
        if !TWO.with_borrow_mut(|s| s.insert((a, b))) {
            return Ok(on);
        }
        let r = f();
        TWO.with_borrow_mut(|s| s.remove(&(a, b)));
        r
    }
    pub fn escape_unicode_noncompat_component(_: &RStringInner) -> Option<String> {
        None
    }
    pub const TRUE_VALUE: u64 = 20;
    pub const FALSE_VALUE: u64 = 12;
    pub fn symbol_hash_label(id: IdentId, _: bool) -> String {
        id.get_name()
    }
    pub fn escape_nonascii_to_u(s: &str) -> String {
        s.to_string()
    }
    pub mod rvalue {
        use crate::world::*;
        mod array {
            use super::monoruby_object;
            include!("/repo/monoruby/src/value/rvalue/array.rs");
            impl Clone for Array {
                fn clone(&self) -> Self {
                    *self
                }
            }
            impl Copy for Array {}
            impl Array {
                pub fn wrap(v: Value) -> Self {
                    Array(v)
                }
                pub fn as_val(&self) -> Value {
                    self.0
                }
            }
            impl std::ops::Deref for Array {
                type Target = ArrayInner;
                fn deref(&self) -> &ArrayInner {
                    // The object outlives the handle, as in the interpreter.
                    unsafe { &*(self.0.as_array_inner() as *const ArrayInner) }
                }
            }
            impl std::ops::DerefMut for Array {
                fn deref_mut(&mut self) -> &mut ArrayInner {
                    self.0.write_barrier_bulk();
                    unsafe { &mut *(self.0.as_array_inner_mut() as *mut ArrayInner) }
                }
            }
            impl From<Array> for Value {
                fn from(a: Array) -> Value {
                    a.0
                }
            }
            impl std::fmt::Debug for Array {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.0.fmt(f)
                }
            }
        }
        mod hash {
            use crate::alloc;
            include!("/repo/monoruby/src/value/rvalue/hash.rs");
            pub fn drop_body(flags: u8, b: &mut HashBody) {
                unsafe { drop_hash_body(flags, b) }
            }
            pub fn split(h: HashmapInner) -> (u8, HashBody) {
                h.into_parts()
            }
            pub fn hash_ref(r: &RValue) -> HashRef<'_> {
                unsafe { HashRef::from_rvalue(r) }
            }
            pub fn hash_ref_mut(r: &mut RValue) -> HashRefMut<'_> {
                unsafe { HashRefMut::from_rvalue(r) }
            }
            /// What copying the object copies: the body and part of the flags.
            pub fn copy_of(h: HashRef<'_>, flags: u8) -> (u8, HashBody) {
                (sanitize_dup_flags(flags), h.clone_body())
            }
        }
        pub use array::*;
        pub use hash::*;
        use plain_attr::monoruby_object;
    }
}
pub mod executor {
    pub mod op {
        use crate::world::*;
        #[path = "/repo/monoruby/src/executor/op/sort.rs"]
        mod sort;
        pub(crate) use sort::*;
        pub fn add_values(vm: &mut Executor, g: &mut Globals, a: Value, b: Value, _: bool) -> Option<Value> {
            vm.dispatch(g, IdentId::_ADD, a, &[b]).map_err(|e| vm.set_error(e)).ok()
        }
        pub fn cmp_teq_values_bool(vm: &mut Executor, g: &mut Globals, a: Value, b: Value) -> Result<bool> {
            if let Some(re) = a.is_regex() {
                if let Some(s) = b.as_thing().and_then(|t| t.to_str) {
                    vm.called(g, "to_str", b, &[])?;
                    return Ok(plain_to_s(s).contains(&re.0));
                }
                return Ok((b.is_rstring_inner().is_some() || b.try_symbol().is_some()) && plain_to_s(b).contains(&re.0));
            }
            vm.eq_values_bool(g, a, b)
        }
    }
}
pub mod builtins {
    use crate::executor;
    use crate::executor::op::{self, cmp_teq_values_bool};
    use crate::inline_gen2;
    use crate::value::rvalue;
    use crate::world::*;
    pub use crate::value::rvalue::hash_entries_layout;
    pub use crate::world::proc;
    use plain_attr::monoruby_builtin;
    pub mod encoding {
        pub fn inspect_escape_nonascii(_: &mut crate::world::Globals) -> bool {
            false
        }
    }
    #[path = "/repo/monoruby/src/builtins/hash.rs"]
    pub mod hash;
    pub fn init(g: &mut Globals) {
        hash::init(g);
    }
}
use num::BigInt;
use std::cell::RefCell;
use std::rc::Rc;
use vh::{Case, Verdict, vbail, vcheck};
use world::*;

// ---------------------------------------------------------------- the model

type Pairs = Vec<(Value, Value)>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dflt {
    No,
    Val(Value),
    Proc(Value),
}
/// What a hash must hold.
#[derive(Clone, Debug)]
struct Table {
    pairs: Pairs,
    ident: bool,
    dflt: Dflt,
    class: ClassId,
    r2k: bool,
    /// Traversals under way, and the positions as they were when the first began.
    walks: u32,
    slots: Vec<Option<(Value, Value)>>,
    frozen: bool,
}
impl Table {
    fn new(ident: bool) -> Table {
        Table { pairs: vec![], ident, dflt: Dflt::No, class: HASH_CLASS, r2k: false, walks: 0, slots: vec![], frozen: false }
    }
    fn of(pairs: Pairs, ident: bool) -> Table {
        Table { pairs, ..Table::new(ident) }
    }
    fn at(&self, k: Value) -> Option<usize> {
        self.pairs.iter().position(|(x, _)| if self.ident { *x == k } else { m_eql(*x, k) })
    }
    fn get(&self, k: Value) -> Option<Value> {
        self.at(k).map(|i| self.pairs[i].1)
    }
    fn store(&mut self, k: Value, v: Value) -> Result<()> {
        match self.at(k) {
            Some(i) => {
                let key = self.pairs[i].0;
                self.pairs[i].1 = v;
                for s in self.slots.iter_mut().flatten().filter(|s| s.0 == key) {
                    s.1 = v;
                }
            }
            None if self.walks > 0 => return err(Kind::Runtime),
            None => self.pairs.push((k, v)),
        }
        Ok(())
    }
    /// Texts are copied before they become keys.
    fn put(&mut self, k: Value, v: Value) -> Result<()> {
        let k = if self.ident { k } else { key_copy(k) };
        self.store(k, v)
    }
    fn drop_at(&mut self, i: usize) -> (Value, Value) {
        let (k, v) = self.pairs.remove(i);
        for s in self.slots.iter_mut().filter(|s| s.is_some_and(|s| s.0 == k)) {
            *s = None;
        }
        (k, v)
    }
    fn keys(&self) -> Vec<Value> {
        self.pairs.iter().map(|p| p.0).collect()
    }
    fn values(&self) -> Vec<Value> {
        self.pairs.iter().map(|p| p.1).collect()
    }
}
thread_local! {
    /// Stand-ins for copies that the hash is going to make, and of what.
    static COPIES: RefCell<Vec<(Value, Value)>> = const { RefCell::new(vec![]) };
}
fn key_copy(k: Value) -> Value {
    if k.is_rstring_inner().is_none() || k.is_frozen() {
        return k;
    }
    let mut c = Value::string(plain_to_s(k));
    c.set_frozen();
    COPIES.with_borrow_mut(|l| l.push((c, k)));
    c
}
/// Is it the key the model means?
fn key_is(model: Value, real: Value) -> bool {
    match COPIES.with_borrow(|l| l.iter().find(|(c, _)| *c == model).map(|x| x.1)) {
        Some(orig) => real != orig && real.is_frozen() && real.is_rstring_inner().is_some() && plain_to_s(real) == plain_to_s(orig),
        None => ident(model, real),
    }
}

/// What a call must answer.
#[derive(Clone, Debug)]
enum Res {
    Me,
    Val(Value),
    /// A key of the receiver.
    Key(Value),
    Int(i64),
    Bool(bool),
    Text(String),
    List(Vec<Value>),
    Pair(Value, Value),
    PairList(Pairs),
    /// A new hash.
    Hash(Table),
    /// These pairs, in an order the comparison allows.
    Sorted(Pairs, u64),
    Lazy,
    Any,
}
use Res::*;
fn nil() -> Res {
    Val(Value::nil())
}
fn err<T>(k: Kind) -> Result<T> {
    Err(MonorubyErr::new(k, "model"))
}

/// How blocks answer: from a fixed set, by the look of their arguments.
#[derive(Clone, Debug)]
struct Sim {
    answers: Vec<Value>,
    salt: u64,
    raise_at: u32,
    calls: u32,
    compare: bool,
    trace: Vec<Vec<Value>>,
}
fn look(v: Value, depth: u32) -> u64 {
    match v.unpack() {
        RV::Float(f) => f.to_bits() ^ 3,
        RV::BigInt(b) => b.to_string().bytes().fold(5, |h, c| h * 7 + c as u64 & 0xffff_ffff),
        RV::Object(RValue { obj: Obj::Array(a), .. }) if depth < 4 => {
            a.iter().fold(11 + a.len() as u64, |h, x| h.wrapping_mul(0x9e37_79b9).wrapping_add(look(*x, depth + 1)))
        }
        RV::Object(RValue { obj: Obj::Str(s), .. }) => s.as_bytes().iter().fold(9u64, |h, b| h.wrapping_mul(31) + *b as u64),
        RV::Object(RValue { obj: Obj::Thing(t), .. }) => t.key as u64 ^ 0x55,
        RV::Object(_) => 2,
        _ => v.bits(),
    }
}
/// Where the pair belongs in a sorted list.
fn rank(pair: (Value, Value), salt: u64) -> u64 {
    let h = look(pair.0, 0).wrapping_mul(salt | 1) ^ look(pair.1, 0).wrapping_mul(0xff51_afd7_ed55_8ccd);
    (h ^ (h >> 29)).wrapping_mul(0xc4ce_b9fe_1a85_ec53) >> 61
}
fn as_pair(v: Value) -> (Value, Value) {
    let a = v.as_array();
    (a[0], a[1])
}
impl Sim {
    fn call(&mut self, args: &[Value]) -> Result<Value> {
        self.calls += 1;
        self.trace.push(args.iter().map(|v| frozen_view(*v)).collect());
        if self.calls == self.raise_at {
            return Err(MonorubyErr::new(Kind::Scripted(1), "scripted"));
        }
        if self.compare {
            let o = rank(as_pair(args[0]), self.salt).cmp(&rank(as_pair(args[1]), self.salt)) as i64;
            return Ok(match self.salt % 3 {
                0 => Value::integer(o),
                1 => Value::integer(o * 77),
                _ => Value::bigint(BigInt::from(o) * BigInt::from(i64::MAX) * BigInt::from(9)),
            });
        }
        let h = args.iter().fold(self.salt, |h, v| h.wrapping_mul(0xff51_afd7_ed55_8ccd).wrapping_add(look(*v, 0)));
        let h = (h ^ (h >> 31)).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        Ok(self.answers[(h >> 40) as usize % self.answers.len()])
    }
}
fn frozen_view(v: Value) -> Value {
    match v.try_array_ty() {
        Some(a) => Value::array_from_slice(&a),
        None => v,
    }
}
/// The same object; boxed numbers may be copies.
fn ident(a: Value, b: Value) -> bool {
    a == b
        || match (a.unpack(), b.unpack()) {
            (RV::Float(x), RV::Float(y)) => x == y,
            (RV::BigInt(x), RV::BigInt(y)) => x == y,
            _ => false,
        }
}
/// The same object, or lists of the same objects.
fn same(a: Value, b: Value) -> bool {
    ident(a, b)
        || key_is(a, b)
        || match (a.try_array_ty(), b.try_array_ty()) {
            (Some(x), Some(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(*p, *q)),
            _ => false,
        }
}
/// `==` or `eql?` all the way down; what contains itself is taken to be equal there.
fn rel(a: Value, b: Value, strict: bool, path: &mut Vec<(Value, Value)>) -> bool {
    if let (Some(x), Some(y)) = (a.try_array_ty(), b.try_array_ty()) {
        return x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| rel(*p, *q, strict, path));
    }
    if let (Some(x), Some(y)) = (a.try_hash_ty(), b.try_hash_ty()) {
        if path.contains(&(a, b)) {
            return true;
        }
        path.push((a, b));
        let of = |h: Hashmap| Table::of(h.iter().collect(), h.is_compare_by_identity());
        let r = tables_rel(&of(x), &of(y), strict, path);
        path.pop();
        return r;
    }
    if strict { a == b || plain_eql(a, b) } else { plain_eq(a, b) }
}
fn tables_rel(x: &Table, y: &Table, strict: bool, path: &mut Vec<(Value, Value)>) -> bool {
    x.pairs.len() == y.pairs.len() && (x.pairs.is_empty() || x.ident == y.ident) && inside(x, y, strict, path)
}
fn inside(x: &Table, y: &Table, strict: bool, path: &mut Vec<(Value, Value)>) -> bool {
    x.pairs.iter().all(|(k, v)| y.get(*k).is_some_and(|o| rel(*v, o, strict, path)))
}
fn m_eql(a: Value, b: Value) -> bool {
    rel(a, b, true, &mut vec![])
}
fn m_eq(a: Value, b: Value) -> bool {
    rel(a, b, false, &mut vec![])
}
fn m_inspect(v: Value, path: &mut Vec<Value>) -> String {
    let Some(h) = v.try_hash_ty() else { return plain_inspect(v) };
    if path.contains(&v) {
        return "{...}".to_string();
    }
    path.push(v);
    let l: Vec<_> = h
        .iter()
        .map(|(k, v)| match k.try_symbol() {
            Some(id) => format!("{}: {}", id.get_name(), m_inspect(v, path)),
            None => {
                let t = m_inspect(v, path);
                format!("{} => {t}", m_inspect(k, path))
            }
        })
        .collect();
    path.pop();
    format!("{{{}}}", l.join(", "))
}
/// Contains itself?
fn endless(v: Value, path: &mut Vec<Value>) -> bool {
    if path.contains(&v) {
        return true;
    }
    path.push(v);
    let r = match v.try_hash_ty() {
        Some(h) => h.iter().any(|(k, v)| endless(k, path) || endless(v, path)),
        None => v.try_array_ty().is_some_and(|a| a.iter().any(|v| endless(*v, path))),
    };
    path.pop();
    r
}

// ------------------------------------------------------ what each call means

struct Known {
    v: Value,
    t: Table,
}
/// Everything the model needs to follow one call.
struct Model<'a> {
    all: &'a mut Vec<Known>,
    sim: Option<&'a mut Sim>,
    procs: &'a mut Sim,
    proc_stores: bool,
}
fn list_of(v: Value) -> Vec<Value> {
    v.as_array().to_vec()
}
impl Model<'_> {
    fn find(&self, v: Value) -> Option<usize> {
        self.all.iter().position(|k| k.v == v)
    }
    fn table(&self, v: Value) -> Table {
        match self.find(v) {
            Some(i) => self.all[i].t.clone(),
            None => {
                let h = v.as_hash();
                Table::of(h.iter().collect(), h.is_compare_by_identity())
            }
        }
    }
    fn block(&mut self, args: &[Value]) -> Result<Value> {
        self.sim.as_mut().unwrap().call(args)
    }
    fn default(&mut self, me: usize, key: Value) -> Result<Value> {
        match self.all[me].t.dflt {
            Dflt::No => Ok(Value::nil()),
            Dflt::Val(v) => Ok(v),
            Dflt::Proc(p) => {
                let v = self.procs.call(&[p, self.all[me].v, key])?;
                if self.proc_stores {
                    if self.all[me].t.frozen {
                        return err(Kind::Frozen);
                    }
                    self.all[me].t.put(key, v)?;
                }
                Ok(v)
            }
        }
    }
    fn index(&mut self, me: usize, key: Value) -> Result<Value> {
        match self.all[me].t.get(key) {
            Some(v) => Ok(v),
            None => self.default(me, key),
        }
    }
    fn to_hash(&self, v: Value) -> Result<Table> {
        if v.try_hash_ty().is_some() {
            return Ok(self.table(v));
        }
        match v.as_thing().and_then(|t| t.to_hash) {
            Some(h) if h.try_hash_ty().is_some() => Ok(self.table(h)),
            _ => err(Kind::Type),
        }
    }
    fn dig(&mut self, v: Value, key: Value) -> Result<Value> {
        if v.try_hash_ty().is_some() {
            return match self.find(v) {
                Some(i) => self.index(i, key),
                None => Ok(self.table(v).get(key).unwrap_or_default()),
            };
        }
        if let Some(a) = v.try_array_ty() {
            return match key.try_fixnum() {
                Some(i) => Ok(a.get(i as usize).copied().unwrap_or_default()),
                None => err(Kind::Type),
            };
        }
        err(Kind::NotMethod { name: None })
    }

    fn call(&mut self, me: usize, name: &str, args: &[Value]) -> Result<Res> {
        let t = self.all[me].t.clone();
        let arg = args.first().copied();
        let with_block = self.sim.is_some();
        let change = ["[]=", "store", "delete", "clear", "replace", "shift", "merge!", "update", "initialize", "default=", "default_proc=", "compare_by_identity"];
        if t.frozen && change.contains(&name) {
            return err(Kind::Frozen);
        }
        let sifting = ["select!", "filter!", "reject!", "keep_if", "delete_if"].contains(&name);
        let lazily = sifting || ["each", "each_pair", "select", "filter", "reject"].contains(&name);
        if lazily && !with_block {
            return Ok(Lazy);
        }
        if sifting && t.frozen {
            return err(Kind::Frozen);
        }
        Ok(match name {
            "size" | "length" => Int(t.pairs.len() as i64),
            "empty?" => Bool(t.pairs.is_empty()),
            "keys" => List(t.keys()),
            "values" => List(t.values()),
            "__pairs" => PairList(t.pairs),
            "key?" | "has_key?" | "include?" | "member?" => Bool(t.at(args[0]).is_some()),
            "compare_by_identity?" => Bool(t.ident),
            "[]" => Val(self.index(me, args[0])?),
            "__get_or_key" => Val(t.get(args[0]).unwrap_or(args[0])),
            "fetch" => match t.get(args[0]) {
                Some(v) => Val(v),
                None if with_block => Val(self.block(&args[..1])?),
                None if args.len() > 1 => Val(args[1]),
                None => return err(Kind::Key),
            },
            "values_at" => {
                let mut out = vec![];
                for k in args {
                    out.push(self.index(me, *k)?);
                }
                List(out)
            }
            "dig" => {
                let Some(first) = arg else { return err(Kind::Argument) };
                let mut v = self.index(me, first)?;
                for k in &args[1..] {
                    if v.is_nil() {
                        break;
                    }
                    v = self.dig(v, *k)?;
                }
                Val(v)
            }
            "default" => match (arg, t.dflt) {
                (Some(k), Dflt::Proc(_)) => Val(self.default(me, k)?),
                (_, Dflt::Val(v)) => Val(v),
                _ => nil(),
            },
            "default_proc" => match t.dflt {
                Dflt::Proc(p) => Val(p),
                _ => nil(),
            },
            "default=" => {
                self.all[me].t.dflt = if args[0].is_nil() { Dflt::No } else { Dflt::Val(args[0]) };
                Val(args[0])
            }
            "default_proc=" => {
                let p = match args[0] {
                    v if v.is_nil() => {
                        self.all[me].t.dflt = Dflt::No;
                        return Ok(nil());
                    }
                    v if v.is_proc().is_some() => v,
                    v => match v.as_thing().and_then(|t| t.to_proc) {
                        Some(p) if p.is_proc().is_some() => p,
                        _ => return err(Kind::Type),
                    },
                };
                if let Obj::Proc { lambda: true, arity } = p.rv().unwrap().obj
                    && arity != 2
                {
                    return err(Kind::Type);
                }
                self.all[me].t.dflt = Dflt::Proc(p);
                Val(p)
            }
            "initialize" => {
                if with_block && arg.is_some() {
                    return err(Kind::Argument);
                }
                // The proc is made by the call; it is looked up afterwards.
                self.all[me].t.dflt = match arg {
                    _ if with_block => Dflt::Proc(Value::nil()),
                    Some(v) if !v.is_nil() => Dflt::Val(v),
                    _ => Dflt::No,
                };
                Me
            }
            "[]=" | "store" => {
                self.all[me].t.put(args[0], args[1])?;
                Val(args[1])
            }
            "delete" => match t.at(args[0]) {
                Some(i) => Val(self.all[me].t.drop_at(i).1),
                None if with_block => Val(self.block(args)?),
                None => nil(),
            },
            "shift" => match t.pairs.first() {
                Some((k, v)) => {
                    self.all[me].t.drop_at(0);
                    Pair(*k, *v)
                }
                None => nil(),
            },
            "clear" => {
                self.all[me].t.pairs.clear();
                Me
            }
            "compare_by_identity" => {
                if t.walks > 0 {
                    return err(Kind::Runtime);
                }
                self.all[me].t.ident = true;
                Me
            }
            "replace" => {
                if args[0] == self.all[me].v {
                    return Ok(Me);
                }
                let o = self.to_hash(args[0]);
                if t.walks > 0 {
                    return err(if o.is_ok() { Kind::Runtime } else { Kind::Scripted(55) });
                }
                let o = o?;
                let me = &mut self.all[me].t;
                me.pairs = o.pairs;
                me.ident = o.ident;
                Me
            }
            "each" | "each_pair" => {
                for (k, v) in t.pairs {
                    self.block(&[Value::array2(k, v)])?;
                }
                Me
            }
            "select" | "filter" | "reject" => {
                let mut out = Table::new(t.ident);
                for (k, v) in t.pairs {
                    if self.block(&[k, v])?.as_bool() != (name == "reject") {
                        out.pairs.push((k, v));
                    }
                }
                Hash(out)
            }
            _ if sifting => {
                let drop_if = ["reject!", "delete_if"].contains(&name);
                let mut gone = vec![];
                let mut failed = None;
                for (k, v) in &t.pairs {
                    match self.block(&[*k, *v]) {
                        Ok(b) if b.as_bool() == drop_if => gone.push(*k),
                        Ok(_) => {}
                        Err(e) => {
                            failed = Some(e);
                            break;
                        }
                    }
                }
                // When the block raises, what it had already rejected may or
                // may not be gone.
                if let Some(e) = failed {
                    return Err(e);
                }
                for k in &gone {
                    let i = self.all[me].t.pairs.iter().position(|p| p.0 == *k).unwrap();
                    self.all[me].t.drop_at(i);
                }
                if name.ends_with('!') && gone.is_empty() { nil() } else { Me }
            }
            "merge" | "merge!" | "update" => {
                let mut out = Table { walks: 0, slots: vec![], frozen: false, r2k: false, ..t.clone() };
                if out.class == SINGLETON_CLASS {
                    out.class = SUB_CLASS;
                }
                for a in args {
                    // A hash merged into itself stays as it is.
                    let o = self.to_hash(*a)?;
                    for (k, v) in o.pairs {
                        let cur = if name == "merge" { out.get(k) } else { self.all[me].t.get(k) };
                        let v = match cur {
                            Some(old) if with_block => self.block(&[k, old, v])?,
                            _ => v,
                        };
                        if name == "merge" { out.store(k, v)? } else { self.all[me].t.store(k, v)? }
                    }
                }
                if name == "merge" { Hash(out) } else { Me }
            }
            "invert" => {
                let mut out = Table::new(false);
                for (k, v) in t.pairs {
                    out.put(v, k)?;
                }
                Hash(out)
            }
            "to_h" if !with_block => Me,
            "to_h" => {
                let mut out = Table::new(false);
                for (k, v) in t.pairs {
                    let r = self.block(&[k, v])?;
                    match r.try_array_ty() {
                        Some(a) if a.len() == 2 => out.put(a[0], a[1])?,
                        // An array of another length: which error is left open.
                        Some(_) => return err(Kind::Scripted(55)),
                        None => return err(Kind::Type),
                    }
                }
                Hash(out)
            }
            "sort" if with_block => {
                let salt = self.sim.as_ref().unwrap().salt;
                Sorted(t.pairs, salt)
            }
            "sort" => {
                let mut l = t.pairs.clone();
                for (i, a) in l.iter().enumerate() {
                    for b in &l[..i] {
                        match plain_cmp(a.0, b.0) {
                            Some(std::cmp::Ordering::Equal) => return Ok(Any),
                            None => return Ok(Any),
                            _ => {}
                        }
                    }
                }
                l.sort_by(|a, b| plain_cmp(a.0, b.0).unwrap());
                PairList(l)
            }
            "assoc" | "rassoc" => {
                let hit = t.pairs.iter().find(|(k, v)| m_eq(args[0], if name == "assoc" { *k } else { *v }));
                hit.map_or(nil(), |p| Pair(p.0, p.1))
            }
            "key" => t.pairs.iter().find(|(_, v)| m_eq(*v, args[0])).map_or(nil(), |p| Key(p.0)),
            "==" | "===" | "eql?" => Bool(args[0].try_hash_ty().is_some() && rel(self.all[me].v, args[0], name == "eql?", &mut vec![])),
            "<" | "<=" | ">" | ">=" => {
                let o = self.to_hash(args[0])?;
                let (a, b) = if name.starts_with('<') { (&t, &o) } else { (&o, &t) };
                let (x, y) = (a.pairs.len(), b.pairs.len());
                Bool((x < y || x == y && name.ends_with('=')) && inside(a, b, false, &mut vec![]))
            }
            "inspect" | "to_s" => Text(m_inspect(self.all[me].v, &mut vec![])),
            "hash" => Any,
            "clone" | "dup" => Hash(Table {
                walks: 0,
                slots: vec![],
                frozen: false,
                r2k: false,
                class: if t.class == SINGLETON_CLASS { SUB_CLASS } else { t.class },
                ..t
            }),
            "__dup_table" => Hash(Table::of(t.pairs, t.ident)),
            "__new_hash_with_capacity" => Hash(Table::new(false)),
            "__block_splits_pair?" => Any,
            _ => unreachable!("{name}"),
        })
    }
    /// `Hash[...]`
    fn make(&mut self, args: &[Value], class: ClassId) -> Result<Res> {
        let mut out = Table { class, ..Table::new(false) };
        let mut from_list = |l: Vec<Value>| {
            for e in l {
                match e.try_array_ty().map(|a| a.to_vec()).as_deref() {
                    Some([k]) => out.put(*k, Value::nil())?,
                    Some([k, v]) => out.put(*k, *v)?,
                    _ => return err(Kind::Argument),
                }
            }
            Ok(())
        };
        match args {
            [a] => {
                if a.try_hash_ty().is_some() {
                    for (k, v) in self.table(*a).pairs {
                        out.store(k, v)?;
                    }
                } else if a.try_array_ty().is_some() {
                    from_list(list_of(*a))?;
                } else if let Some(h) = a.as_thing().and_then(|t| t.to_hash).filter(|h| h.try_hash_ty().is_some()) {
                    for (k, v) in self.table(h).pairs {
                        out.store(k, v)?;
                    }
                } else if let Some(l) = a.as_thing().and_then(|t| t.to_ary).filter(|l| l.is_array_ty()) {
                    from_list(list_of(l))?;
                } else {
                    return err(Kind::Argument);
                }
            }
            _ if args.len() % 2 == 1 => return err(Kind::Argument),
            _ => {
                for p in args.chunks(2) {
                    out.put(p[0], p[1])?;
                }
            }
        }
        Ok(Hash(out))
    }
}

// ------------------------------------------------------------- the machinery

/// Method, shapes of its arguments, kinds of block.
const METHODS: &[(&str, &[&str], &str)] = &[
    ("size", &[""], "n"), ("length", &[""], "n"), ("empty?", &[""], "n"), ("keys", &[""], "n"), ("values", &[""], "n"), ("__pairs", &[""], "n"),
    ("key?", &["k"], "n"), ("has_key?", &["k"], "n"), ("include?", &["k"], "n"), ("member?", &["k"], "n"), ("[]", &["k"], "n"), ("[]", &["k"], "n"),
    ("__get_or_key", &["k"], "n"), ("fetch", &["k", "kv"], "nb"), ("values_at", &["*k"], "n"), ("dig", &["", "k", "kk", "kkk", "ki"], "n"),
    ("default", &["", "k"], "n"), ("default_proc", &[""], "n"), ("default=", &["v", "z"], "n"), ("default_proc=", &["f", "f", "z", "v"], "n"),
    ("initialize", &["", "v"], "nb"), ("[]=", &["kv"], "n"), ("[]=", &["kv"], "n"), ("[]=", &["Kv"], "n"), ("[]=", &["Kv"], "n"), ("store", &["kv"], "n"),
    ("delete", &["k"], "nb"), ("delete", &["k"], "n"), ("shift", &[""], "n"), ("clear", &[""], "n"), ("compare_by_identity", &[""], "n"),
    ("compare_by_identity?", &[""], "n"), ("replace", &["h"], "n"), ("each", &[""], "nb"), ("each_pair", &[""], "nb"), ("select", &[""], "nb"),
    ("filter", &[""], "nb"), ("reject", &[""], "nb"), ("select!", &[""], "nb"), ("filter!", &[""], "nb"), ("reject!", &[""], "nb"),
    ("keep_if", &[""], "nb"), ("delete_if", &[""], "nb"), ("merge", &["*h"], "nb"), ("merge!", &["*h"], "nb"), ("update", &["*h"], "nb"),
    ("invert", &[""], "n"), ("to_h", &[""], "np"), ("sort", &[""], "nc"), ("assoc", &["k"], "n"), ("rassoc", &["v"], "n"), ("key", &["v"], "n"),
    ("==", &["m", "h", "v"], "n"), ("===", &["m"], "n"), ("eql?", &["m", "h", "v"], "n"), ("<", &["m", "h"], "n"), ("<=", &["m", "h"], "n"),
    (">", &["m", "h"], "n"), (">=", &["m", "h"], "n"), ("inspect", &[""], "n"), ("to_s", &[""], "n"), ("hash", &[""], "n"), ("clone", &[""], "n"),
    ("dup", &[""], "n"), ("__dup_table", &[""], "n"), ("__new_hash_with_capacity", &["i"], "n"),
];
/// What may happen to a hash while it is being walked.
const DURING: &[(&str, &[&str], &str)] = &[
    ("[]=", &["kv"], "n"), ("[]=", &["Kv"], "n"), ("delete", &["k"], "n"), ("delete", &["k"], "n"), ("shift", &[""], "n"), ("default=", &["v", "z"], "n"),
    ("default_proc=", &["f", "z"], "n"), ("merge!", &["h"], "nb"), ("reject!", &[""], "b"), ("select!", &[""], "b"), ("delete_if", &[""], "b"),
    ("replace", &["h"], "n"), ("compare_by_identity", &[""], "n"), ("fetch", &["k"], "b"), ("keys", &[""], "n"), ("merge", &["h"], "n"),
    ("size", &[""], "n"), ("[]", &["k"], "n"), ("dup", &[""], "n"), ("inspect", &[""], "n"), ("each", &[""], "b"), ("__dup_table", &[""], "n"),
];

struct World {
    vm: Executor,
    g: Globals,
}
struct Play {
    pool: Vec<Value>,
    all: Vec<Known>,
    theme: u64,
    quiet: bool,
    procs: Sim,
    proc_stores: bool,
    /// Scripted objects raise once this many calls have been made to them.
    fuse: Rc<RefCell<Option<u32>>>,
}

fn span(r: &mut vh::Rng, lo: i64, hi: i64) -> i64 {
    lo + r.below((hi - lo) as u64) as i64
}
fn thing(p: &Play, t: Thing) -> Value {
    Value::thing(Thing { quiet: p.quiet, ..t })
}
fn scalar(case: &mut Case, p: &Play, theme: u64) -> Value {
    let r = &mut case.rng;
    match theme {
        0 => match r.below(8) {
            0 => Value::symbol(IdentId::get_id(r.pick(&["x", "y", "zed"]))),
            1 => *r.pick(&[Value::nil(), Value::bool(true), Value::bool(false)]),
            _ => Value::integer(span(r, -2, 6)),
        },
        1 => {
            let mut s = Value::string_from_str(r.pick(&["", "a", "b", "ab", "c", "dd", "e"]));
            if r.chance(1, 3) {
                s.set_frozen();
            }
            s
        }
        2 => thing(p, Thing { key: span(r, 0, 9), ..Default::default() }),
        3 => match r.below(4) {
            0 => Value::float(*r.pick(&[0.5, 1.0, 2.0, 1e20])),
            1 => Value::bigint(BigInt::from(i64::MAX) * BigInt::from(span(r, 2, 5))),
            _ => Value::integer(span(r, -2, 5)),
        },
        5 => Value::integer(span(r, 0, 60)),
        _ => match r.below(8) {
            0 => Value::nil(),
            n => scalar(case, p, n % 4),
        },
    }
}
/// An equal one that is not the same object.
fn twin(case: &mut Case, v: Value) -> Value {
    match v.rv().map(|r| &r.obj) {
        Some(Obj::Str(_)) => Value::string(plain_to_s(v)),
        Some(Obj::Thing(t)) => Value::thing(t.clone()),
        Some(Obj::Float(f)) => Value::float(*f),
        Some(Obj::Array(a)) => Value::array_from_vec(a.iter().map(|v| twin(case, *v)).collect()),
        Some(Obj::Hash) if v.is_frozen() => {
            let mut l: Pairs = v.as_hash().iter().collect();
            case.rng.shuffle(&mut l);
            let mut h = build(&l, v.as_hash().is_compare_by_identity(), case.rng.chance(1, 3));
            h.set_frozen();
            h
        }
        _ => v,
    }
}
/// A hash with these pairs, small ones possibly in the large form.
fn build(l: &[(Value, Value)], ident: bool, large: bool) -> Value {
    let (mut vm, mut g) = (Executor::default(), Globals::default());
    let mut h = if large { HashmapInner::with_capacity(20) } else { HashmapInner::default() };
    if ident {
        h.compare_by_identity(&mut vm, &mut g).unwrap();
    }
    for (k, v) in l {
        h.insert(*k, *v, &mut vm, &mut g).unwrap();
    }
    Value::hash_from_inner(h)
}
fn key(case: &mut Case, p: &mut Play) -> Value {
    if !p.pool.is_empty() && case.rng.chance(3, 5) {
        let v = *case.rng.pick(&p.pool);
        return if case.rng.chance(1, 3) { twin(case, v) } else { v };
    }
    let v = match p.theme {
        4 => match case.rng.below(3) {
            0 => scalar(case, p, 0),
            1 => {
                let k = case.rng.us(3);
                Value::array_from_vec((0..k).map(|_| scalar(case, p, 9)).collect())
            }
            _ => {
                let k = case.rng.us(5);
                let quick = |case: &mut Case, p: &Play| {
                    let t = case.rng.below(2);
                    let mut v = scalar(case, p, t);
                    if v.is_rstring_inner().is_some() {
                        v.set_frozen();
                    }
                    v
                };
                let l: Pairs = (0..k).map(|_| (quick(case, p), quick(case, p))).collect();
                let mut h = build(&l, case.rng.chance(1, 8), false);
                h.set_frozen();
                h
            }
        },
        t => scalar(case, p, t),
    };
    if p.pool.len() < 24 {
        p.pool.push(v);
    }
    v
}
fn value(case: &mut Case, p: &mut Play) -> Value {
    match case.rng.below(10) {
        0 if !p.all.is_empty() => {
            let i = case.rng.us(p.all.len());
            p.all[i].v
        }
        1..=3 => key(case, p),
        4 => {
            let k = case.rng.us(3);
            Value::array_from_vec((0..k).map(|_| scalar(case, p, 9)).collect())
        }
        _ => scalar(case, p, 9),
    }
}
fn learn(p: &mut Play, v: Value, t: Table) {
    if p.all.len() < 14 {
        p.all.push(Known { v, t });
    }
}
/// A new hash, of a class and in a form of its own.
fn fresh_hash(case: &mut Case, p: &mut Play, most: usize) -> Value {
    let n = case.rng.us(most + 1);
    let ident = case.rng.chance(1, 6);
    let mut t = Table::new(ident);
    for _ in 0..n {
        let (k, v) = (key(case, p), value(case, p));
        let k = if !ident && k.is_rstring_inner().is_some() && !k.is_frozen() {
            let mut c = Value::string(plain_to_s(k));
            c.set_frozen();
            c
        } else {
            k
        };
        t.store(k, v).unwrap();
    }
    let mut v = build(&t.pairs, ident, case.rng.chance(1, 3));
    if case.rng.chance(1, 4) {
        t.class = *case.rng.pick(&[SUB_CLASS, SINGLETON_CLASS]);
        v.change_class(t.class);
    }
    learn(p, v, t);
    v
}
fn make_args(case: &mut Case, p: &mut Play, recv: usize, shape: &str) -> Vec<Value> {
    let mut out = Vec::new();
    let mut many = false;
    for ch in shape.chars() {
        if ch == '*' {
            many = true;
            continue;
        }
        let reps = if many { case.rng.us(4) } else { 1 };
        many = false;
        for _ in 0..reps {
            let t = &p.all[recv].t;
            let v = match ch {
                'k' => {
                    if !t.pairs.is_empty() && case.rng.chance(1, 2) {
                        let k = case.rng.pick(&t.pairs).0;
                        if case.rng.chance(1, 3) { twin(case, k) } else { k }
                    } else {
                        key(case, p)
                    }
                }
                'K' => key(case, p),
                'v' => {
                    if !t.pairs.is_empty() && case.rng.chance(1, 3) {
                        let v = case.rng.pick(&t.pairs).1;
                        if case.rng.chance(1, 3) { twin(case, v) } else { v }
                    } else {
                        value(case, p)
                    }
                }
                'z' => Value::nil(),
                'i' => Value::integer(span(&mut case.rng, -2, 12)),
                'f' => {
                    let f = Value::proc(case.rng.chance(1, 2), *case.rng.pick(&[2, 2, 2, 1, -1, 3]));
                    if case.rng.chance(1, 5) {
                        let f = if case.rng.chance(1, 3) { Value::integer(1) } else { f };
                        thing(p, Thing { key: 40, to_proc: Some(f), ..Default::default() })
                    } else {
                        f
                    }
                }
                'h' => match case.rng.below(8) {
                    0 => p.all[recv].v,
                    1..=3 => {
                        let i = case.rng.us(p.all.len());
                        p.all[i].v
                    }
                    4 => {
                        let i = case.rng.us(p.all.len());
                        let h = if case.rng.chance(1, 4) { Value::nil() } else { p.all[i].v };
                        thing(p, Thing { key: 41, to_hash: Some(h), ..Default::default() })
                    }
                    5 if case.rng.chance(1, 3) => scalar(case, p, 9),
                    _ => fresh_hash(case, p, 5),
                },
                // Nearly the receiver itself.
                'm' => {
                    let ident = if case.rng.chance(1, 8) { !t.ident } else { t.ident };
                    let mut l = t.pairs.clone();
                    case.rng.shuffle(&mut l);
                    if !l.is_empty() {
                        let i = case.rng.us(l.len());
                        match case.rng.below(8) {
                            0 => {
                                l.pop();
                            }
                            1 => l[i].1 = value(case, p),
                            2 => {
                                let mut k = key(case, p);
                                if k.is_rstring_inner().is_some() {
                                    k.set_frozen();
                                }
                                l.push((k, value(case, p)));
                            }
                            3 => l[i].1 = twin(case, l[i].1),
                            4 if !t.ident => {
                                l[i].0 = twin(case, l[i].0);
                                if l[i].0.is_rstring_inner().is_some() {
                                    l[i].0.set_frozen();
                                }
                            }
                            5 => {
                                if let Some(x) = l[i].1.try_fixnum() {
                                    l[i].1 = Value::float(x as f64);
                                }
                            }
                            _ => {}
                        }
                    }
                    let mut t = Table::new(ident);
                    for (k, v) in l {
                        t.store(k, v).unwrap();
                    }
                    let v = build(&t.pairs, ident, case.rng.chance(1, 4));
                    learn(p, v, t);
                    v
                }
                _ => unreachable!(),
            };
            out.push(v);
        }
    }
    out
}
fn make_block(case: &mut Case, p: &mut Play, kind: char) -> Option<Sim> {
    let mut answers = vec![Value::nil(), Value::bool(false), Value::bool(true), Value::integer(1)];
    match kind {
        'n' => return None,
        'p' => {
            answers.clear();
            for _ in 0..6 {
                let k = if case.rng.chance(1, 25) { case.rng.us(4) } else { 2 };
                let a = Value::array_from_vec((0..k).map(|_| key(case, p)).collect());
                answers.push(if case.rng.chance(1, 25) { Value::integer(5) } else { a });
            }
        }
        _ => {
            for _ in 0..3 {
                answers.push(value(case, p));
            }
        }
    }
    let raise_at = if case.rng.chance(1, 7) { 1 + case.rng.below(6) as u32 } else { 0 };
    Some(Sim { answers, salt: case.rng.next() | 1, raise_at, calls: 0, compare: kind == 'c', trace: vec![] })
}

/// Lays the arguments out as the method was declared to take them.
fn layout(name: &str, ar: Arity, args: &[Value]) -> Vec<Option<Value>> {
    if args.len() < ar.min || !ar.rest && args.len() > ar.max {
        CRASH.with_borrow_mut(|c| {
            c.get_or_insert(format!("{name} does not take {} arguments", args.len()));
        });
    }
    let mut out: Vec<Option<Value>> = args.iter().take(ar.max).map(|v| Some(*v)).collect();
    out.resize(ar.max, None);
    if ar.rest {
        out.push(Some(Value::array_from_slice(args.get(ar.max..).unwrap_or(&[]))));
    }
    out.resize(out.len() + ar.kw, None);
    out
}
fn plain_call(w: &mut World, name: &str, recv: Value, args: &[Value], block: bool) -> Result<Value> {
    let Some(&(f, ar)) = w.g.funcs.get(name) else {
        eprintln!("method {name} is not there");
        std::process::exit(3);
    };
    let args = layout(name, ar, args);
    guarded(name, || f(&mut w.vm, &mut w.g, Lfp::new(recv, &args, block), BytecodePtr))
}
/// The way compiled code takes.
fn fast_call(w: &mut World, name: &str, recv: Value, args: &[Value]) -> Result<Value> {
    let addr = w.g.fast[name];
    let World { vm, g } = w;
    guarded(name, || {
        let r = unsafe {
            if args.len() == 1 {
                let f: extern "C" fn(&mut Executor, &mut Globals, Value, Value) -> Option<Value> = std::mem::transmute(addr as usize);
                f(vm, g, recv, args[0])
            } else {
                let f: extern "C" fn(&mut Executor, &mut Globals, Value, Value, Value) -> Option<Value> = std::mem::transmute(addr as usize);
                f(vm, g, recv, args[0], args[1])
            }
        };
        r.ok_or_else(|| vm.take_error())
    })
}
thread_local! {
    static CRASH: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// A panic is remembered; the case ends with it.
fn guarded(name: &str, f: impl FnOnce() -> Result<Value>) -> Result<Value> {
    vh::catch(f).unwrap_or_else(|(at, m)| {
        CRASH.with_borrow_mut(|c| {
            c.get_or_insert(format!("{name} panicked at {at}: {m}"));
        });
        Err(MonorubyErr::new(Kind::Scripted(99), "panicked"))
    })
}
fn crashed(r: Verdict) -> Verdict {
    match CRASH.take() {
        Some(m) => Err(vh::Violation(m)),
        None => r,
    }
}

/// Looks at a hash through every way in; afterwards the model knows the real
/// key objects.
fn audit(w: &mut World, k: &mut Known, full: bool, absent: &[Value]) -> Verdict {
    let h = k.v.as_hash();
    let t = &mut k.t;
    let real: Pairs = h.iter().collect();
    let fits = real.len() == t.pairs.len() && real.iter().zip(&t.pairs).all(|(r, m)| key_is(m.0, r.0) && ident(m.1, r.1));
    vcheck!(fits, "the hash holds {real:?}, must hold {:?}", t.pairs);
    for (m, r) in t.pairs.iter_mut().zip(&real) {
        for s in t.slots.iter_mut().flatten().filter(|s| s.0 == m.0) {
            *s = *r;
        }
        *m = *r;
    }
    vcheck!(h.len() == real.len(), "{} pairs are counted as {}", real.len(), h.len());
    vcheck!(h.is_empty() == real.is_empty(), "emptiness of {} pairs", real.len());
    vcheck!(h.is_compare_by_identity() == t.ident, "compares by identity: {}", h.is_compare_by_identity());
    vcheck!(k.v.is_frozen() == t.frozen, "frozen: {}", k.v.is_frozen());
    vcheck!(k.v.class() == t.class, "class became {:?}", k.v.class());
    let d = match (h.defalut_proc().map(|p| p.as_val()), h.defalut_value()) {
        (Some(p), _) => Dflt::Proc(p),
        (None, Some(v)) if !v.is_nil() => Dflt::Val(v),
        _ => Dflt::No,
    };
    let fits = match (t.dflt, d) {
        (Dflt::Val(a), Dflt::Val(b)) => ident(a, b),
        (Dflt::Proc(a), Dflt::Proc(b)) => a.is_nil() || a == b,
        (a, b) => a == b,
    };
    vcheck!(fits, "default is {d:?}, must be {:?}", t.dflt);
    t.dflt = d;
    vcheck!(k.v.as_hashmap_inner().ruby2_keywords_flag() == t.r2k, "keyword flag is {}", !t.r2k);
    if !full {
        return Ok(());
    }
    let keys = h.keys();
    let values = h.values();
    vcheck!(keys.len() == real.len() && keys.iter().zip(&real).all(|(a, b)| *a == b.0), "keys {keys:?} of {real:?}");
    vcheck!(values.len() == real.len() && values.iter().zip(&real).all(|(a, b)| *a == b.1), "values {values:?} of {real:?}");
    let n = h.entry_count();
    let mut live = vec![];
    for i in 0..n {
        let e = h.entry_at(i);
        vcheck!(e.is_some() == h.live_at(i), "position {i} is live: {}, holds {e:?}", h.live_at(i));
        live.extend(e);
    }
    vcheck!(live == real, "positions hold {live:?}, traversal finds {real:?}");
    vcheck!(h.entry_at(n).is_none() && !h.live_at(n), "something behind the last position");
    if t.walks > 0 {
        let fits = n == t.slots.len() && (0..n).all(|i| h.entry_at(i) == t.slots[i]);
        vcheck!(fits, "positions moved during a traversal: {:?} are now {live:?}", t.slots);
    }
    for (i, (key, v)) in real.iter().enumerate() {
        let got = h.get(*key, &mut w.vm, &mut w.g).unwrap_or_default();
        vcheck!(got.is_some_and(|g| g == *v), "pair {i}: key {key:?} finds {got:?}, holds {v:?}");
        vcheck!(h.contains_key(*key, &mut w.vm, &mut w.g).unwrap_or_default(), "pair {i}: key {key:?} is not found");
    }
    for k in absent {
        let got = h.get(*k, &mut w.vm, &mut w.g).unwrap_or_default();
        let fits = match (got, t.get(*k)) {
            (Some(a), Some(b)) => ident(a, b),
            (a, b) => a.is_none() && b.is_none(),
        };
        vcheck!(fits, "key {k:?} finds {got:?}, must find {:?} in {real:?}", t.get(*k));
    }
    // What the collector is shown.
    let mut shown: Vec<Value> = k.v.hash_children().into_iter().filter(|v| !v.is_packed_value()).collect();
    let mut must = heap_children(t);
    shown.sort_by_key(|v| v.bits());
    shown.dedup();
    must.sort_by_key(|v| v.bits());
    must.dedup();
    vcheck!(shown == must, "marking shows {} objects, the hash holds {}", shown.len(), must.len());
    for y in must {
        let mut a = alloc::Allocator::default();
        a.young = Some(y);
        vcheck!(k.v.as_hashmap_inner().young_child_exists(&a), "young {y:?} is overlooked");
    }
    let a = alloc::Allocator::default();
    vcheck!(!k.v.as_hashmap_inner().young_child_exists(&a), "old children look young");
    Ok(())
}
fn heap_children(t: &Table) -> Vec<Value> {
    let mut l: Vec<Value> = t.pairs.iter().flat_map(|p| [p.0, p.1]).filter(|v| !v.is_packed_value()).collect();
    if let Dflt::Val(v) | Dflt::Proc(v) = t.dflt
        && !v.is_packed_value()
    {
        l.push(v);
    }
    l
}
fn audit_all(case: &mut Case, w: &mut World, p: &mut Play, first: usize, what: &str) -> Verdict {
    let absent: Vec<Value> = (0..3).map(|_| key(case, p)).collect();
    let some = case.rng.us(p.all.len());
    for i in 0..p.all.len() {
        let full = i == first || i == some || p.all[i].t.walks > 0;
        if let Err(e) = audit(w, &mut p.all[i], full, &absent) {
            vbail!("after {what}: {}", e.0);
        }
    }
    COPIES.with_borrow_mut(|l| l.clear());
    vcheck!(value::guards_left() == 0, "after {what}: the recursion guard was left set");
    vcheck!(w.vm.temps.is_empty(), "after {what}: temporaries were left behind");
    Ok(())
}
/// How much there is to walk below the value, up to a limit.
fn weight(v: Value, path: &mut Vec<Value>, left: &mut i64) {
    *left -= 1;
    if *left < 0 || path.contains(&v) {
        return;
    }
    path.push(v);
    if let Some(h) = v.try_hash_ty() {
        for (k, v) in h.iter() {
            weight(k, path, left);
            weight(v, path, left);
        }
    } else if let Some(a) = v.try_array_ty() {
        for v in a.iter() {
            weight(*v, path, left);
        }
    }
    path.pop();
}
fn heavy(l: &[Value]) -> bool {
    let mut left = 400;
    for v in l {
        weight(*v, &mut vec![], &mut left);
    }
    left < 0
}
/// May be a key that stays as it is.
fn steady(v: Value) -> bool {
    steady_within(v, 6)
}
fn steady_within(v: Value, depth: usize) -> bool {
    if depth == 0 {
        return false;
    }
    match v.try_hash_ty() {
        Some(h) => v.is_frozen() && h.iter().all(|(k, v)| steady_within(k, depth - 1) && steady_within(v, depth - 1)),
        None => v.try_array_ty().is_none_or(|a| a.iter().all(|v| steady_within(*v, depth - 1))),
    }
}
fn agree(w: &World, me: Value, name: &str, want: &Res, got: Value, mark: usize) -> Verdict {
    let fresh = |v: Value| !v.is_packed_value() && !older(v, mark);
    let pair_is = |v: Value, p: (Value, Value)| v.try_array_ty().is_some_and(|a| a.len() == 2 && key_is(p.0, a[0]) && ident(p.1, a[1]));
    let fits = match want {
        Me => got == me,
        Val(v) => same(*v, got),
        Key(k) => key_is(*k, got),
        Int(i) => got.try_fixnum() == Some(*i),
        Bool(b) => got == Value::bool(*b),
        Text(s) => got.is_rstring_inner().is_some() && plain_to_s(got) == *s && fresh(got),
        List(l) => fresh(got) && got.try_array_ty().is_some_and(|a| a.len() == l.len() && a.iter().zip(l).all(|(a, b)| key_is(*b, *a))),
        Pair(k, v) => fresh(got) && pair_is(got, (*k, *v)),
        PairList(l) => fresh(got) && got.try_array_ty().is_some_and(|a| a.len() == l.len() && a.iter().zip(l).all(|(a, b)| fresh(*a) && pair_is(*a, *b))),
        Hash(_) => fresh(got) && got.try_hash_ty().is_some(),
        Sorted(l, salt) => {
            let Some(a) = got.try_array_ty() else { vbail!("{name} answered {got:?}") };
            let mut left = l.clone();
            let mut last = 0;
            for e in a.iter() {
                let Some(i) = left.iter().position(|p| pair_is(*e, *p)) else { vbail!("{name} answered {got:?} for {l:?}") };
                let r = rank(left.remove(i), *salt);
                vcheck!(r >= last, "{name} answered {got:?}, out of order");
                last = r;
            }
            left.is_empty()
        }
        Lazy => match got.rv().map(|r| &r.obj) {
            Some(Obj::Enumerator { id, recv, args, size }) => {
                let _ = id;
                *recv == me && args.is_empty() && size.is_none_or(|s| s.try_fixnum() == Some(me.as_hash().len() as i64))
            }
            _ => false,
        },
        Any => true,
    };
    let _ = w;
    vcheck!(fits, "{name} answered {got:?}, must answer {want:?}");
    Ok(())
}

fn kinds_fit(want: &MonorubyErr, got: &MonorubyErr) -> bool {
    matches!(want.kind, Kind::Scripted(55)) || std::mem::discriminant(&want.kind) == std::mem::discriminant(&got.kind)
}
/// Compares what a call did with what the model says.
fn one_call(case: &mut Case, w: &mut World, p: &mut Play, me: usize, name: &'static str, args: &[Value], block: Option<Sim>) -> Verdict {
    let recv = p.all[me].v;
    let deep = ["==", "===", "eql?", "hash", "inspect", "to_s", "<", "<=", ">", ">=", "assoc", "rassoc", "key", "invert", "sort"];
    let mut seen = args.to_vec();
    seen.push(recv);
    if deep.contains(&name) && heavy(&seen) {
        return Ok(());
    }
    if name == "invert" && endless(recv, &mut vec![]) {
        return Ok(());
    }
    case.count(name);
    case.sig_bytes(name.as_bytes());
    case.sig(p.all[me].t.pairs.len().min(9) as u64 * 4 + p.all[me].t.walks.min(1) as u64 * 2 + p.all[me].t.ident as u64);
    let what = format!("{name} on {recv:?} with {args:?}{}", if block.is_some() { " and a block" } else { "" });
    case.op(|| what.clone());
    let before: Vec<Vec<Value>> = p.all.iter().map(|k| heap_children(&k.t)).collect();
    let old = p.all[me].t.clone();
    let mark = heap_mark();
    let (mut bsim, mut psim) = (block.clone(), p.procs.clone());
    let want = Model { all: &mut p.all, sim: bsim.as_mut(), procs: &mut psim, proc_stores: p.proc_stores }.call(me, name, args);

    let real_block = block.clone().map(|s| Rc::new(RefCell::new(s)));
    let real_procs = Rc::new(RefCell::new(p.procs.clone()));
    w.vm.block = real_block.clone().map(|s| Box::new(move |_: &mut Executor, _: &mut Globals, a: &[Value]| s.borrow_mut().call(a)) as Block);
    let (ps, stores) = (real_procs.clone(), p.proc_stores);
    w.vm.on_proc = Some(Box::new(move |vm, g, f, a| {
        let mut l = vec![f];
        l.extend_from_slice(a);
        let v = ps.borrow_mut().call(&l)?;
        if stores {
            let (f, _) = g.funcs["[]="];
            f(vm, g, Lfp::new(a[0], &[Some(a[1]), Some(v)], false), BytecodePtr)?;
        }
        Ok(v)
    }));
    light_fuse(case, w, p, 12);
    TOLD.with_borrow_mut(|t| t.clear());
    KEYERR.set(None);
    let plain = p.all[me].t.class == HASH_CLASS && !old.frozen;
    let fast = plain && w.g.fast.contains_key(name) && case.rng.chance(1, 2);
    case.count(if fast { "compiled-calls" } else { "plain-calls" });
    let got = if fast { fast_call(w, name, recv, args) } else { plain_call(w, name, recv, args, block.is_some()) };
    w.vm.on_call = None;
    w.vm.on_proc = None;
    w.vm.block = None;
    crashed(Ok(()))?;
    if burnt(case, w, p, &what, &got)? {
        return audit_all(case, w, p, me, &what);
    }

    let sorting = name == "sort" && block.is_some();
    let calls = real_block.as_ref().map_or(0, |s| s.borrow().calls);
    let want = match want {
        Ok(_) if sorting && calls > 0 && block.as_ref().is_some_and(|b| b.raise_at > 0 && calls >= b.raise_at) => err(Kind::Scripted(1)),
        x => x,
    };
    let mut found = None;
    match (&want, &got) {
        (Ok(Any), _) => {}
        (Ok(r), Ok(v)) => {
            if let Err(e) = agree(w, recv, name, r, *v, mark) {
                vbail!("{what}: {}", e.0);
            }
            if let Hash(t) = r {
                found = Some((*v, t.clone()));
            }
        }
        (Err(a), Err(b)) => {
            vcheck!(kinds_fit(a, b), "{what} raised {b:?}, must raise {:?}", a.kind);
            case.count("raised");
            if matches!(a.kind, Kind::Key) {
                vcheck!(KEYERR.get() == Some((recv, args[0])), "{what}: the error speaks of {:?}", KEYERR.get());
            }
        }
        (a, b) => vbail!("{what}: came to {b:?}, must come to {a:?}"),
    }
    if let (Some(m), Some(r)) = (&bsim, &real_block)
        && !sorting
    {
        traces_fit(&what, &m.trace, &r.borrow().trace)?;
        case.count_n("block-calls", m.trace.len() as u64);
    }
    traces_fit(&what, &psim.trace, &real_procs.borrow().trace)?;
    case.count_n("default-calls", psim.trace.len() as u64);

    if ["select!", "filter!", "reject!", "keep_if", "delete_if"].contains(&name) && got.is_err() && want.is_err() && !old.frozen {
        let mut s = Sim { raise_at: 0, ..block.clone().unwrap() };
        let drop_if = ["reject!", "delete_if"].contains(&name);
        let real: Pairs = recv.as_hash().iter().collect();
        for (k, v) in &old.pairs {
            if !real.iter().any(|r| r.0 == *k) {
                vcheck!(s.call(&[*k, *v]).unwrap().as_bool() == drop_if, "{what} raised and lost the pair {k:?}");
            }
        }
        p.all[me].t.pairs.retain(|q| real.iter().any(|r| r.0 == q.0));
        for s in p.all[me].t.slots.iter_mut() {
            if s.is_some_and(|s| !real.iter().any(|r| r.0 == s.0)) {
                *s = None;
            }
        }
    }
    if name == "replace" && got.is_ok() {
        let k = &mut p.all[me];
        let h = k.v.as_hash();
        k.t.dflt = match (h.defalut_proc(), h.defalut_value()) {
            (Some(f), _) => Dflt::Proc(f.as_val()),
            (_, Some(v)) if !v.is_nil() => Dflt::Val(v),
            _ => Dflt::No,
        };
        k.t.r2k = k.v.as_hashmap_inner().ruby2_keywords_flag();
    }
    let first = if let Some((v, t)) = found {
        let mut k = Known { v, t };
        if let Err(e) = audit(w, &mut k, true, args) {
            vbail!("{what}: the result: {}", e.0);
        }
        if k.t.pairs.iter().all(|x| steady(x.0)) && p.all.len() < 14 && case.rng.chance(1, 2) {
            p.all.push(k);
        }
        me
    } else {
        me
    };
    audit_all(case, w, p, first, &what)?;
    // The collector must have been told about new contents.
    for (k, old) in p.all.iter().zip(&before) {
        if heap_children(&k.t).iter().any(|c| !old.contains(c)) {
            case.count("stored-objects");
            vcheck!(TOLD.with_borrow(|t| t.contains(&k.v.bits())), "{what}: objects were stored, the collector was not told");
        }
    }
    Ok(())
}
fn traces_fit(what: &str, want: &[Vec<Value>], got: &[Vec<Value>]) -> Verdict {
    let fits = want.len() == got.len() && want.iter().zip(got).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y)));
    vcheck!(fits, "{what}: called back with {got:?}, must with {want:?}");
    Ok(())
}
fn resync(k: &mut Known) {
    let h = k.v.as_hash();
    let t = &mut k.t;
    t.pairs = h.iter().collect();
    if t.walks > 0 {
        t.slots = (0..h.entry_count()).map(|i| h.entry_at(i)).collect();
    }
    t.ident = h.is_compare_by_identity();
    t.r2k = k.v.as_hashmap_inner().ruby2_keywords_flag();
    t.dflt = match (h.defalut_proc(), h.defalut_value()) {
        (Some(f), _) => Dflt::Proc(f.as_val()),
        (_, Some(v)) if !v.is_nil() => Dflt::Val(v),
        _ => Dflt::No,
    };
}
fn step(case: &mut Case, w: &mut World, p: &mut Play, me: usize, table: &[(&'static str, &[&str], &str)]) -> Verdict {
    let &(name, shapes, blocks) = case.rng.pick(table);
    let shape = *case.rng.pick(shapes);
    let args = make_args(case, p, me, shape);
    let kinds: Vec<char> = blocks.chars().collect();
    let kind = *case.rng.pick(&kinds);
    let block = make_block(case, p, kind);
    one_call(case, w, p, me, name, &args, block)
}
/// Walks the positions of a hash the way its iterators do.
fn walk(case: &mut Case, w: &mut World, p: &mut Play, me: usize, depth: u32) -> Verdict {
    let recv = p.all[me].v;
    case.count("walks");
    let must = |r: Result<Value>| r.map_err(|e| vh::Violation(format!("walking raised {e:?}")));
    let token = must(plain_call(w, "__iter_begin", recv, &[], false))?;
    crashed(Ok(()))?;
    if p.all[me].t.walks == 0 {
        let h = recv.as_hash();
        p.all[me].t.slots = (0..h.entry_count()).map(|i| h.entry_at(i)).collect();
    }
    p.all[me].t.walks += 1;
    case.op(|| format!("walk {recv:?} ({})", p.all[me].t.walks));
    audit_all(case, w, p, me, "a traversal began")?;
    let mut i = 0;
    loop {
        let n = must(plain_call(w, "__entry_count", recv, &[], false))?;
        let slots = p.all[me].t.slots.clone();
        vcheck!(n.try_fixnum() == Some(slots.len() as i64), "{n:?} positions, must be {}", slots.len());
        let at = Value::integer(i as i64);
        let live = must(plain_call(w, "__live_at", recv, &[at], false))?;
        let want = slots.get(i).copied().flatten();
        vcheck!(live == Value::bool(want.is_some()), "position {i} is live: {live:?}, must hold {want:?}");
        let k = must(plain_call(w, "__key_at", recv, &[at], false))?;
        let v = must(plain_call(w, "__value_at", recv, &[at], false))?;
        crashed(Ok(()))?;
        let (mk, mv) = want.unwrap_or_default();
        vcheck!(ident(k, mk) && ident(v, mv), "position {i} holds {k:?} and {v:?}, must hold {want:?}");
        case.count("positions");
        if i >= slots.len() || case.rng.chance(1, 12) {
            break;
        }
        match case.rng.below(8) {
            0 | 1 => step(case, w, p, me, DURING)?,
            2 if depth < 5 => walk(case, w, p, me, depth + 1)?,
            3 if want.is_some() && !recv.is_frozen() => {
                let nv = value(case, p);
                TOLD.with_borrow_mut(|t| t.clear());
                case.op(|| format!("position {i} gets {nv:?}"));
                must(plain_call(w, "__set_value_at", recv, &[at, nv], false))?;
                crashed(Ok(()))?;
                let t = &mut p.all[me].t;
                t.slots[i].as_mut().unwrap().1 = nv;
                t.pairs.iter_mut().find(|q| q.0 == mk).unwrap().1 = nv;
                vcheck!(nv.is_packed_value() || TOLD.with_borrow(|t| t.contains(&recv.bits())), "a value was replaced, the collector was not told");
                audit_all(case, w, p, me, "a value was replaced")?;
            }
            4 => {
                let other = case.rng.us(p.all.len());
                if p.all[other].t.walks == 0 && depth < 5 {
                    walk(case, w, p, other, depth + 1)?;
                }
            }
            _ => {}
        }
        i += 1;
    }
    case.op(|| "walk ends".to_string());
    must(plain_call(w, "__iter_end", recv, &[token], false))?;
    crashed(Ok(()))?;
    let t = &mut p.all[me].t;
    t.walks -= 1;
    if t.walks == 0 {
        t.slots.clear();
    }
    audit_all(case, w, p, me, "a traversal ended")
}
/// From some call on, the objects of the script raise.
fn light_fuse(case: &mut Case, w: &mut World, p: &Play, odds: u64) {
    let fuse = p.fuse.clone();
    w.vm.on_call = Some(Box::new(move |_, _, _, _, _| match &mut *fuse.borrow_mut() {
        Some(0) => Ok(()),
        Some(n) => {
            *n -= 1;
            if *n == 0 { Err(MonorubyErr::new(Kind::Scripted(7), "scripted object")) } else { Ok(()) }
        }
        None => Ok(()),
    }));
    if case.rng.chance(1, odds) {
        *p.fuse.borrow_mut() = Some(1 + case.rng.below(6) as u32);
    }
}
/// A scripted object raised: what the call had done by then is left open, but
/// it must be told and the hash must be well formed.
fn burnt(case: &mut Case, w: &mut World, p: &mut Play, what: &str, got: &Result<Value>) -> std::result::Result<bool, vh::Violation> {
    if p.fuse.borrow_mut().take() != Some(0) {
        return Ok(false);
    }
    case.count("raised:scripted");
    let told = matches!(got, Err(e) if matches!(e.kind, Kind::Scripted(7)));
    vcheck!(told, "{what}: a scripted object raised, the call answered {got:?}");
    for k in &mut p.all {
        resync(k);
    }
    COPIES.with_borrow_mut(|l| l.clear());
    w.vm.temps.clear();
    value::guards_left();
    Ok(true)
}
/// What the class itself can be asked.
fn class_call(case: &mut Case, w: &mut World, p: &mut Play) -> Verdict {
    let name = *case.rng.pick(&["[]", "[]", "[]", "try_convert", "ruby2_keywords_hash", "ruby2_keywords_hash?"]);
    let class = *case.rng.pick(&[HASH_CLASS, HASH_CLASS, SUB_CLASS]);
    let any = case.rng.us(p.all.len());
    let odd = case.rng.chance(1, 5);
    let args = match name {
        "[]" => match case.rng.below(4) {
            0 => make_args(case, p, any, "h"),
            1 => {
                let k = case.rng.us(5);
                let l = (0..k).map(|_| {
                    let n = if case.rng.chance(1, 20) { case.rng.us(4) } else { 2 - case.rng.chance(1, 8) as usize };
                    let e = Value::array_from_vec((0..n).map(|_| key(case, p)).collect());
                    if case.rng.chance(1, 40) { Value::integer(3) } else { e }
                });
                let l = Value::array_from_vec(l.collect());
                vec![if case.rng.chance(1, 5) { thing(p, Thing { key: 43, to_ary: Some(l), ..Default::default() }) } else { l }]
            }
            _ => {
                let k = case.rng.us(5) * 2 + (odd && case.rng.chance(1, 3)) as usize;
                (0..k).map(|i| if i % 2 == 0 { key(case, p) } else { value(case, p) }).collect()
            }
        },
        _ => make_args(case, p, any, if odd { "v" } else { "h" }),
    };
    let what = format!("Hash.{name} with {args:?}");
    case.op(|| what.clone());
    case.count("class-calls");
    let mark = heap_mark();
    let (mut none, class_v) = (p.procs.clone(), Value::class_obj(class));
    let mut m = Model { all: &mut p.all, sim: None, procs: &mut none, proc_stores: false };
    let want = match name {
        "[]" => m.make(&args, class),
        "try_convert" => match args[0] {
            v if v.try_hash_ty().is_some() => Ok(Val(v)),
            v => match v.as_thing().and_then(|t| t.to_hash) {
                Some(h) if h.is_nil() || h.try_hash_ty().is_some() => Ok(Val(h)),
                Some(_) => err(Kind::Type),
                None => Ok(nil()),
            },
        },
        _ => match m.find(args[0]) {
            Some(i) if name.ends_with('?') => Ok(Bool(m.all[i].t.r2k)),
            Some(i) => {
                let t = m.all[i].t.clone();
                let class = if t.class == SINGLETON_CLASS { SUB_CLASS } else { t.class };
                Ok(Hash(Table { walks: 0, slots: vec![], frozen: false, r2k: true, class, ..t }))
            }
            None if args[0].try_hash_ty().is_some() => return Ok(()),
            None => err(Kind::Type),
        },
    };
    let (f, ar) = w.g.class_funcs[name];
    let l = layout(name, ar, &args);
    light_fuse(case, w, p, 8);
    let got = guarded(&what, || f(&mut w.vm, &mut w.g, Lfp::new(class_v, &l, false), BytecodePtr));
    w.vm.on_call = None;
    crashed(Ok(()))?;
    if burnt(case, w, p, &what, &got)? {
        return audit_all(case, w, p, any, &what);
    }
    match (&want, &got) {
        (Ok(r), Ok(v)) => {
            if let Err(e) = agree(w, class_v, name, r, *v, mark) {
                vbail!("{what}: {}", e.0);
            }
            if let Hash(t) = r {
                let mut k = Known { v: *v, t: t.clone() };
                if let Err(e) = audit(w, &mut k, true, &args) {
                    vbail!("{what}: the result: {}", e.0);
                }
                if k.t.pairs.iter().all(|x| steady(x.0)) && p.all.len() < 14 {
                    p.all.push(k);
                }
            }
        }
        (Err(a), Err(b)) => vcheck!(kinds_fit(a, b), "{what} raised {b:?}, must raise {:?}", a.kind),
        (a, b) => vbail!("{what}: came to {b:?}, must come to {a:?}"),
    }
    audit_all(case, w, p, any, &what)
}
/// Equal hashes have equal digests, whatever they went through.
fn digests(case: &mut Case, w: &mut World, p: &mut Play) -> Verdict {
    let i = case.rng.us(p.all.len());
    let a = p.all[i].v;
    if heavy(&[a]) || endless(a, &mut vec![]) {
        return Ok(());
    }
    let t = &p.all[i].t;
    let mut l = t.pairs.clone();
    case.rng.shuffle(&mut l);
    if !t.ident {
        for q in &mut l {
            if case.rng.chance(1, 3) {
                q.0 = twin(case, q.0);
            }
            if case.rng.chance(1, 3) {
                q.1 = twin(case, q.1);
            }
        }
    }
    let b = build(&l, t.ident, case.rng.chance(1, 3));
    if !m_eql(a, b) {
        return Ok(());
    }
    case.count("digests");
    let x = plain_call(w, "hash", a, &[], false);
    let y = plain_call(w, "hash", b, &[], false);
    crashed(Ok(()))?;
    let (Ok(x), Ok(y)) = (x, y) else { vbail!("hash of {a:?} raised") };
    vcheck!(ident(x, y), "hash of {a:?} is {x:?}, of the equal {b:?} it is {y:?}");
    // And so one finds the other as a key.
    let mut h = build(&[], false, false);
    let mut hold = h.as_hash();
    let (vm, g) = (&mut w.vm, &mut w.g);
    let r = vh::catch(|| {
        hold.insert(a, Value::integer(1), vm, g).ok();
        hold.get(b, vm, g)
    });
    let Ok(Ok(r)) = r else { vbail!("looking up {b:?} failed") };
    vcheck!(r == Some(Value::integer(1)), "the key {a:?} is not found by the equal {b:?}");
    h.set_frozen();
    Ok(())
}
fn splits(case: &mut Case, w: &mut World, p: &mut Play) -> Verdict {
    let (l, ar) = (case.rng.chance(1, 2), span(&mut case.rng, -5, 5));
    let f = FuncId::of(l, ar);
    let by_arity = ar >= 2 || ar <= -3;
    let missing = case.rng.chance(1, 3);
    let (shape, want) = match case.rng.below(4) {
        0 => (Shape::Proc(Value::proc(l, ar)), l && by_arity),
        1 => (Shape::Proxy(f), l && by_arity),
        2 => (Shape::Method(FuncId::of(true, ar), missing), !missing && by_arity),
        _ => return Ok(()),
    };
    w.vm.caller = Some(shape);
    let got = plain_call(w, "__block_splits_pair?", p.all[0].v, &[], false);
    w.vm.caller = None;
    crashed(Ok(()))?;
    vcheck!(matches!(got, Ok(v) if v == Value::bool(want)), "a block made from {shape:?} takes pairs apart: {got:?}, must be {want}");
    case.count("block-shapes");
    Ok(())
}
fn play(case: &mut Case, w: &mut World) -> Verdict {
    w.vm = Executor::default();
    COARSE.set(*case.rng.pick(&[!0, !0, 3, 11]));
    COPIES.with_borrow_mut(|l| l.clear());
    let theme = *case.rng.pick(&[0, 0, 0, 1, 1, 2, 2, 3, 4, 4, 5, 5, 6, 6]);
    let mut p = Play {
        pool: vec![],
        all: vec![],
        theme,
        quiet: case.rng.chance(1, 2),
        procs: Sim { answers: vec![], salt: case.rng.next() | 1, raise_at: 0, calls: 0, compare: false, trace: vec![] },
        proc_stores: case.rng.chance(1, 3),
        fuse: Rc::default(),
    };
    case.sig(theme);
    for _ in 0..4 {
        let v = scalar(case, &p, 9);
        p.procs.answers.push(v);
    }
    let most = if theme == 5 { 40 } else { 6 };
    for _ in 0..2 {
        let k = Table::new(false);
        let v = build(&[], false, false);
        learn(&mut p, v, k);
    }
    fresh_hash(case, &mut p, most);
    fresh_hash(case, &mut p, 3);
    audit_all(case, w, &mut p, 2, "making")?;
    for me in 0..4 {
        if case.rng.chance(1, 2) {
            let (name, shape) = *case.rng.pick(&[("default=", "v"), ("default_proc=", "f"), ("default_proc=", "f")]);
            let args = make_args(case, &mut p, me, shape);
            one_call(case, w, &mut p, me, name, &args, None)?;
        }
    }
    let steps = 6 + case.rng.us(if case.thorough { 50 } else { 30 });
    for _ in 0..steps {
        vh::step();
        p.procs.raise_at = if case.rng.chance(1, 20) { 1 } else { 0 };
        let n = p.all.len();
        let me = if case.rng.chance(1, 2) { case.rng.us(n.min(4)) } else { case.rng.us(n) };
        match case.rng.below(24) {
            0 | 1 => walk(case, w, &mut p, me, 0)?,
            2 => class_call(case, w, &mut p)?,
            3 => digests(case, w, &mut p)?,
            4 if case.rng.chance(1, 3) => splits(case, w, &mut p)?,
            5 if case.rng.chance(1, 4) => {
                let k = &mut p.all[me];
                k.v.set_frozen();
                k.t.frozen = true;
                case.op(|| format!("freeze {:?}", k.v));
            }
            6 if theme == 5 => {
                for _ in 0..1 + case.rng.us(20) {
                    let name = *case.rng.pick(&["[]=", "[]=", "delete", "shift"]);
                    let args = make_args(case, &mut p, me, match name { "[]=" => "Kv", "delete" => "k", _ => "" });
                    one_call(case, w, &mut p, me, name, &args, None)?;
                }
            }
            _ => step(case, w, &mut p, me, METHODS)?,
        }
        case.nontrivial();
    }
    Ok(())
}
fn main() {
    let mut g = Globals::default();
    builtins::init(&mut g);
    smallvec::set_poison(true);
    let mut w = World { vm: Executor::default(), g };
    vh::main_loop("c48", move |case| {
        let r = play(case, &mut w);
        reset_heap();
        crashed(r)
    });
}
