//! Hashes whose callbacks meddle.
//!
//! The real hash class and its storage run in a small stand-in interpreter while
//! blocks, default procs, conversions and scripted objects run the collector or
//! change the hashes; nothing stale may be used, shown, stored or answered.

#![allow(dead_code, unused_imports)]

#[path = "../hash_world.rs"]
pub mod world;

pub mod globals {
    pub use crate::world::Store;
}
pub mod alloc {
    /// What marking visited, and which objects count as young.
    pub struct Allocator<T> {
        pub seen: Vec<crate::world::Value>,
        pub young: Option<crate::world::Value>,
        what: std::marker::PhantomData<T>,
    }
    impl<T> Default for Allocator<T> {
        fn default() -> Self {
            Allocator { seen: vec![], young: None, what: std::marker::PhantomData }
        }
    }
    impl Allocator<crate::world::RValue> {
        pub fn is_old(&self, r: &crate::world::RValue) -> bool {
            self.young.is_none_or(|y| !std::ptr::eq(y.rv().unwrap(), r))
        }
    }
    pub trait GC<T: GCBox> {
        fn mark(&self, a: &mut Allocator<T>);
    }
    pub trait GCBox {}
    impl GCBox for crate::world::RValue {}
}
pub mod value {
    use crate::world::*;
    use std::cell::RefCell;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Encoding {
        Ascii8,
        Utf8,
        UsAscii,
        Latin1,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum CodeRange {
        SevenBit,
        Valid,
        Broken,
        Unknown,
    }
    impl Encoding {
        pub fn compatible(a: Encoding, ca: CodeRange, b: Encoding, cb: CodeRange) -> Option<Encoding> {
            if a == b || cb == CodeRange::SevenBit {
                Some(a)
            } else if ca == CodeRange::SevenBit {
                Some(b)
            } else {
                None
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct RStringInner {
        pub bytes: Vec<u8>,
        pub enc: Encoding,
    }
    impl RStringInner {
        pub fn from_encoding(b: &[u8], enc: Encoding) -> Self {
            RStringInner { bytes: b.to_vec(), enc }
        }
        pub fn from_encoding_scanned(b: &[u8], enc: Encoding) -> Self {
            RStringInner { bytes: b.to_vec(), enc }
        }
        pub fn from_str_scanned(s: &str) -> Self {
            RStringInner { bytes: s.as_bytes().to_vec(), enc: Encoding::Utf8 }
        }
        pub fn from_str(s: &str) -> Self {
            Self::from_str_scanned(s)
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.bytes
        }
        pub fn len(&self) -> usize {
            self.bytes.len()
        }
        pub fn is_empty(&self) -> bool {
            self.bytes.is_empty()
        }
        pub fn encoding(&self) -> Encoding {
            self.enc
        }
        pub fn code_range(&self) -> CodeRange {
            if self.bytes.is_ascii() {
                CodeRange::SevenBit
            } else if self.enc == Encoding::Utf8 && std::str::from_utf8(&self.bytes).is_err() || self.enc == Encoding::UsAscii {
                CodeRange::Broken
            } else {
                CodeRange::Valid
            }
        }
        pub fn check_utf8(&self) -> Result<&str> {
            std::str::from_utf8(&self.bytes).map_err(|_| MonorubyErr::argumenterr("invalid byte sequence"))
        }
    }
    thread_local! {
        static ONE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        static THREE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        static TWO: RefCell<HashSet<(u64, u64)>> = RefCell::new(HashSet::new());
    }
    pub fn guards_left() -> usize {
        ONE.with_borrow_mut(|s| std::mem::take(s)).len() + THREE.with_borrow_mut(|s| std::mem::take(s)).len() + TWO.with_borrow_mut(|s| std::mem::take(s)).len()
    }
    pub fn exec_recursive<F: FnOnce() -> Result<Value>>(id: u64, f: F, on: Value) -> Result<Value> {
        if !ONE.with_borrow_mut(|s| s.insert(id)) {
            return Ok(on);
        }
        let r = f();
        ONE.with_borrow_mut(|s| s.remove(&id));
        r
    }
    pub fn exec_recursive_outer_unregistered<T, F: FnOnce() -> Result<T>>(f: F, _: T) -> Result<T> {
        f()
    }
    thread_local! {
        static HIT: RefCell<bool> = const { RefCell::new(false) };
    }
    /// A cycle anywhere below makes the outermost call answer `on`.
    pub fn exec_recursive_outer<T, F: FnOnce() -> Result<T>>(id: u64, f: F, on: T) -> Result<T> {
        let outermost = THREE.with_borrow(|s| s.is_empty());
        if !THREE.with_borrow_mut(|s| s.insert(id)) {
            HIT.set(true);
            return Ok(on);
        }
        let r = f();
        THREE.with_borrow_mut(|s| s.remove(&id));
        if outermost && HIT.replace(false) { r.map(|_| on) } else { r }
    }
    pub fn exec_recursive_paired<F: FnOnce() -> Result<Value>>(a: u64, b: u64, f: F, on: Value) -> Result<Value> {
        if !TWO.with_borrow_mut(|s| s.insert((a, b))) {
            return Ok(on);
        }
        let r = f();
        TWO.with_borrow_mut(|s| s.remove(&(a, b)));
        r
    }
    pub fn escape_unicode_noncompat_component(_: &RStringInner) -> Option<String> {
        None
    }
    pub const TRUE_VALUE: u64 = 20;
    pub const FALSE_VALUE: u64 = 12;
    pub fn symbol_hash_label(id: IdentId, _: bool) -> String {
        id.get_name()
    }
    pub fn escape_nonascii_to_u(s: &str) -> String {
        s.to_string()
    }
    pub mod rvalue {
        use crate::world::*;
        mod array {
            use super::monoruby_object;
            include!("/repo/monoruby/src/value/rvalue/array.rs");
            impl Clone for Array {
                fn clone(&self) -> Self {
                    *self
                }
            }
            impl Copy for Array {}
            impl Array {
                pub fn wrap(v: Value) -> Self {
                    Array(v)
                }
                pub fn as_val(&self) -> Value {
                    self.0
                }
            }
            impl std::ops::Deref for Array {
                type Target = ArrayInner;
                fn deref(&self) -> &ArrayInner {
                    // The object outlives the handle, as in the interpreter.
                    unsafe { &*(self.0.as_array_inner() as *const ArrayInner) }
                }
            }
            impl std::ops::DerefMut for Array {
                fn deref_mut(&mut self) -> &mut ArrayInner {
                    self.0.write_barrier_bulk();
                    unsafe { &mut *(self.0.as_array_inner_mut() as *mut ArrayInner) }
                }
            }
            impl From<Array> for Value {
                fn from(a: Array) -> Value {
                    a.0
                }
            }
            impl std::fmt::Debug for Array {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.0.fmt(f)
                }
            }
        }
        mod hash {
            use crate::alloc;
            include!("/repo/monoruby/src/value/rvalue/hash.rs");
            pub fn drop_body(flags: u8, b: &mut HashBody) {
                unsafe { drop_hash_body(flags, b) }
            }
            pub fn split(h: HashmapInner) -> (u8, HashBody) {
                h.into_parts()
            }
            pub fn hash_ref(r: &RValue) -> HashRef<'_> {
                unsafe { HashRef::from_rvalue(r) }
            }
            pub fn hash_ref_mut(r: &mut RValue) -> HashRefMut<'_> {
                unsafe { HashRefMut::from_rvalue(r) }
            }
            /// What copying the object copies: the body and part of the flags.
            pub fn copy_of(h: HashRef<'_>, flags: u8) -> (u8, HashBody) {
                (sanitize_dup_flags(flags), h.clone_body())
            }
        }
        pub use array::*;
        pub use hash::*;
        use plain_attr::monoruby_object;
    }
}
pub mod executor {
    pub mod op {
        use crate::world::*;
        #[path = "/repo/monoruby/src/executor/op/sort.rs"]
        mod sort;
        pub(crate) use sort::*;
        pub fn add_values(vm: &mut Executor, g: &mut Globals, a: Value, b: Value, _: bool) -> Option<Value> {
            vm.dispatch(g, IdentId::_ADD, a, &[b]).map_err(|e| vm.set_error(e)).ok()
        }
        pub fn cmp_teq_values_bool(vm: &mut Executor, g: &mut Globals, a: Value, b: Value) -> Result<bool> {
            if let Some(re) = a.is_regex() {
                if let Some(s) = b.as_thing().and_then(|t| t.to_str) {
                    vm.called(g, "to_str", b, &[])?;
                    return Ok(plain_to_s(s).contains(&re.0));
                }
                return Ok((b.is_rstring_inner().is_some() || b.try_symbol().is_some()) && plain_to_s(b).contains(&re.0));
            }
            vm.eq_values_bool(g, a, b)
        }
    }
}
pub mod builtins {
    use crate::executor;
    use crate::executor::op::{self, cmp_teq_values_bool};
    use crate::inline_gen2;
    use crate::value::rvalue;
    use crate::world::*;
    pub use crate::value::rvalue::hash_entries_layout;
    pub use crate::world::proc;
    use plain_attr::monoruby_builtin;
    pub mod encoding {
        pub fn inspect_escape_nonascii(_: &mut crate::world::Globals) -> bool {
            false
        }
    }
    #[path = "/repo/monoruby/src/builtins/hash.rs"]
    pub mod hash;
    pub fn init(g: &mut Globals) {
        hash::init(g);
    }
}
use num::BigInt;
use std::cell::RefCell;
use std::rc::Rc;
use vh::{Case, Verdict, vbail, vcheck};
use world::*;

// ---------------------------------------------------------------- the model

type Pairs = Vec<(Value, Value)>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dflt {
    No,
    Val(Value),
    Proc(Value),
}
/// What a hash must hold.
#[derive(Clone, Debug)]
struct Table {
    pairs: Pairs,
    ident: bool,
    dflt: Dflt,
    class: ClassId,
    r2k: bool,
    /// Traversals under way, and the positions as they were when the first began.
    walks: u32,
    slots: Vec<Option<(Value, Value)>>,
    frozen: bool,
}
impl Table {
    fn new(ident: bool) -> Table {
        Table { pairs: vec![], ident, dflt: Dflt::No, class: HASH_CLASS, r2k: false, walks: 0, slots: vec![], frozen: false }
    }
    fn of(pairs: Pairs, ident: bool) -> Table {
        Table { pairs, ..Table::new(ident) }
    }
    fn at(&self, k: Value) -> Option<usize> {
        self.pairs.iter().position(|(x, _)| if self.ident { *x == k } else { m_eql(*x, k) })
    }
    fn get(&self, k: Value) -> Option<Value> {
        self.at(k).map(|i| self.pairs[i].1)
    }
    fn store(&mut self, k: Value, v: Value) -> Result<()> {
        match self.at(k) {
            Some(i) => {
                let key = self.pairs[i].0;
                self.pairs[i].1 = v;
                for s in self.slots.iter_mut().flatten().filter(|s| s.0 == key) {
                    s.1 = v;
                }
            }
            None if self.walks > 0 => return err(Kind::Runtime),
            None => self.pairs.push((k, v)),
        }
        Ok(())
    }
    /// Texts are copied before they become keys.
    fn put(&mut self, k: Value, v: Value) -> Result<()> {
        let k = if self.ident { k } else { key_copy(k) };
        self.store(k, v)
    }
    fn drop_at(&mut self, i: usize) -> (Value, Value) {
        let (k, v) = self.pairs.remove(i);
        for s in self.slots.iter_mut().filter(|s| s.is_some_and(|s| s.0 == k)) {
            *s = None;
        }
        (k, v)
    }
    fn keys(&self) -> Vec<Value> {
        self.pairs.iter().map(|p| p.0).collect()
    }
    fn values(&self) -> Vec<Value> {
        self.pairs.iter().map(|p| p.1).collect()
    }
}
thread_local! {
    /// Stand-ins for copies that the hash is going to make, and of what.
    static COPIES: RefCell<Vec<(Value, Value)>> = const { RefCell::new(vec![]) };
}
fn key_copy(k: Value) -> Value {
    if k.is_rstring_inner().is_none() || k.is_frozen() {
        return k;
    }
    let mut c = Value::string(plain_to_s(k));
    c.set_frozen();
    COPIES.with_borrow_mut(|l| l.push((c, k)));
    c
}
/// Is it the key the model means?
fn key_is(model: Value, real: Value) -> bool {
    match COPIES.with_borrow(|l| l.iter().find(|(c, _)| *c == model).map(|x| x.1)) {
        Some(orig) => real != orig && real.is_frozen() && real.is_rstring_inner().is_some() && plain_to_s(real) == plain_to_s(orig),
        None => ident(model, real),
    }
}

/// What a call must answer.
#[derive(Clone, Debug)]
enum Res {
    Me,
    Val(Value),
    /// A key of the receiver.
    Key(Value),
    Int(i64),
    Bool(bool),
    Text(String),
    List(Vec<Value>),
    Pair(Value, Value),
    PairList(Pairs),
    /// A new hash.
    Hash(Table),
    /// These pairs, in an order the comparison allows.
    Sorted(Pairs, u64),
    Lazy,
    Any,
}
use Res::*;
fn nil() -> Res {
    Val(Value::nil())
}
fn err<T>(k: Kind) -> Result<T> {
    Err(MonorubyErr::new(k, "model"))
}

/// How blocks answer: from a fixed set, by the look of their arguments.
#[derive(Clone, Debug)]
struct Sim {
    answers: Vec<Value>,
    salt: u64,
    raise_at: u32,
    calls: u32,
    compare: bool,
    trace: Vec<Vec<Value>>,
}
fn look(v: Value, depth: u32) -> u64 {
    match v.unpack() {
        RV::Float(f) => f.to_bits() ^ 3,
        RV::BigInt(b) => b.to_string().bytes().fold(5, |h, c| h * 7 + c as u64 & 0xffff_ffff),
        RV::Object(RValue { obj: Obj::Array(a), .. }) if depth < 4 => {
            a.iter().fold(11 + a.len() as u64, |h, x| h.wrapping_mul(0x9e37_79b9).wrapping_add(look(*x, depth + 1)))
        }
        RV::Object(RValue { obj: Obj::Str(s), .. }) => s.as_bytes().iter().fold(9u64, |h, b| h.wrapping_mul(31) + *b as u64),
        RV::Object(RValue { obj: Obj::Thing(t), .. }) => t.key as u64 ^ 0x55,
        RV::Object(_) => 2,
        _ => v.bits(),
    }
}
/// Where the pair belongs in a sorted list.
fn rank(pair: (Value, Value), salt: u64) -> u64 {
    let h = look(pair.0, 0).wrapping_mul(salt | 1) ^ look(pair.1, 0).wrapping_mul(0xff51_afd7_ed55_8ccd);
    (h ^ (h >> 29)).wrapping_mul(0xc4ce_b9fe_1a85_ec53) >> 61
}
fn as_pair(v: Value) -> (Value, Value) {
    let a = v.as_array();
    (a[0], a[1])
}
impl Sim {
    fn call(&mut self, args: &[Value]) -> Result<Value> {
        self.calls += 1;
        self.trace.push(args.iter().map(|v| frozen_view(*v)).collect());
        if self.calls == self.raise_at {
            return Err(MonorubyErr::new(Kind::Scripted(1), "scripted"));
        }
        if self.compare {
            let o = rank(as_pair(args[0]), self.salt).cmp(&rank(as_pair(args[1]), self.salt)) as i64;
            return Ok(match self.salt % 3 {
                0 => Value::integer(o),
                1 => Value::integer(o * 77),
                _ => Value::bigint(BigInt::from(o) * BigInt::from(i64::MAX) * BigInt::from(9)),
            });
        }
        let h = args.iter().fold(self.salt, |h, v| h.wrapping_mul(0xff51_afd7_ed55_8ccd).wrapping_add(look(*v, 0)));
        let h = (h ^ (h >> 31)).wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        Ok(self.answers[(h >> 40) as usize % self.answers.len()])
    }
}
fn frozen_view(v: Value) -> Value {
    match v.try_array_ty() {
        Some(a) => Value::array_from_slice(&a),
        None => v,
    }
}
/// The same object; boxed numbers may be copies.
fn ident(a: Value, b: Value) -> bool {
    a == b
        || match (a.unpack(), b.unpack()) {
            (RV::Float(x), RV::Float(y)) => x == y,
            (RV::BigInt(x), RV::BigInt(y)) => x == y,
            _ => false,
        }
}
/// The same object, or lists of the same objects.
fn same(a: Value, b: Value) -> bool {
    ident(a, b)
        || key_is(a, b)
        || match (a.try_array_ty(), b.try_array_ty()) {
            (Some(x), Some(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(*p, *q)),
            _ => false,
        }
}
/// `==` or `eql?` all the way down; what contains itself is taken to be equal there.
fn rel(a: Value, b: Value, strict: bool, path: &mut Vec<(Value, Value)>) -> bool {
    if let (Some(x), Some(y)) = (a.try_array_ty(), b.try_array_ty()) {
        return x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| rel(*p, *q, strict, path));
    }
    if let (Some(x), Some(y)) = (a.try_hash_ty(), b.try_hash_ty()) {
        if path.contains(&(a, b)) {
            return true;
        }
        path.push((a, b));
        let of = |h: Hashmap| Table::of(h.iter().collect(), h.is_compare_by_identity());
        let r = tables_rel(&of(x), &of(y), strict, path);
        path.pop();
        return r;
    }
    if strict { a == b || plain_eql(a, b) } else { plain_eq(a, b) }
}
fn tables_rel(x: &Table, y: &Table, strict: bool, path: &mut Vec<(Value, Value)>) -> bool {
    x.pairs.len() == y.pairs.len() && (x.pairs.is_empty() || x.ident == y.ident) && inside(x, y, strict, path)
}
fn inside(x: &Table, y: &Table, strict: bool, path: &mut Vec<(Value, Value)>) -> bool {
    x.pairs.iter().all(|(k, v)| y.get(*k).is_some_and(|o| rel(*v, o, strict, path)))
}
fn m_eql(a: Value, b: Value) -> bool {
    rel(a, b, true, &mut vec![])
}
fn m_eq(a: Value, b: Value) -> bool {
    rel(a, b, false, &mut vec![])
}
fn m_inspect(v: Value, path: &mut Vec<Value>) -> String {
    let Some(h) = v.try_hash_ty() else { return plain_inspect(v) };
    if path.contains(&v) {
        return "{...}".to_string();
    }
    path.push(v);
    let l: Vec<_> = h
        .iter()
        .map(|(k, v)| match k.try_symbol() {
            Some(id) => format!("{}: {}", id.get_name(), m_inspect(v, path)),
            None => {
                let t = m_inspect(v, path);
                format!("{} => {t}", m_inspect(k, path))
            }
        })
        .collect();
    path.pop();
    format!("{{{}}}", l.join(", "))
}
/// Contains itself?
fn endless(v: Value, path: &mut Vec<Value>) -> bool {
    if path.contains(&v) {
        return true;
    }
    path.push(v);
    let r = match v.try_hash_ty() {
        Some(h) => h.iter().any(|(k, v)| endless(k, path) || endless(v, path)),
        None => v.try_array_ty().is_some_and(|a| a.iter().any(|v| endless(*v, path))),
    };
    path.pop();
    r
}

// ------------------------------------------------------ what each call means

struct Known {
    v: Value,
    t: Table,
}
/// Everything the model needs to follow one call.
struct Model<'a> {
    all: &'a mut Vec<Known>,
    sim: Option<&'a mut Sim>,
    procs: &'a mut Sim,
    proc_stores: bool,
}
fn list_of(v: Value) -> Vec<Value> {
    v.as_array().to_vec()
}
impl Model<'_> {
    fn find(&self, v: Value) -> Option<usize> {
        self.all.iter().position(|k| k.v == v)
    }
    fn table(&self, v: Value) -> Table {
        match self.find(v) {
            Some(i) => self.all[i].t.clone(),
            None => {
                let h = v.as_hash();
                Table::of(h.iter().collect(), h.is_compare_by_identity())
            }
        }
    }
    fn block(&mut self, args: &[Value]) -> Result<Value> {
        self.sim.as_mut().unwrap().call(args)
    }
    fn default(&mut self, me: usize, key: Value) -> Result<Value> {
        match self.all[me].t.dflt {
            Dflt::No => Ok(Value::nil()),
            Dflt::Val(v) => Ok(v),
            Dflt::Proc(p) => {
                let v = self.procs.call(&[p, self.all[me].v, key])?;
                if self.proc_stores {
                    if self.all[me].t.frozen {
                        return err(Kind::Frozen);
                    }
                    self.all[me].t.put(key, v)?;
                }
                Ok(v)
            }
        }
    }
    fn index(&mut self, me: usize, key: Value) -> Result<Value> {
        match self.all[me].t.get(key) {
            Some(v) => Ok(v),
            None => self.default(me, key),
        }
    }
    fn to_hash(&self, v: Value) -> Result<Table> {
        if v.try_hash_ty().is_some() {
            return Ok(self.table(v));
        }
        match v.as_thing().and_then(|t| t.to_hash) {
            Some(h) if h.try_hash_ty().is_some() => Ok(self.table(h)),
            _ => err(Kind::Type),
        }
    }
    fn dig(&mut self, v: Value, key: Value) -> Result<Value> {
        if v.try_hash_ty().is_some() {
            return match self.find(v) {
                Some(i) => self.index(i, key),
                None => Ok(self.table(v).get(key).unwrap_or_default()),
            };
        }
        if let Some(a) = v.try_array_ty() {
            return match key.try_fixnum() {
                Some(i) => Ok(a.get(i as usize).copied().unwrap_or_default()),
                None => err(Kind::Type),
            };
        }
        err(Kind::NotMethod { name: None })
    }

    fn call(&mut self, me: usize, name: &str, args: &[Value]) -> Result<Res> {
        let t = self.all[me].t.clone();
        let arg = args.first().copied();
        let with_block = self.sim.is_some();
        let change = ["[]=", "store", "delete", "clear", "replace", "shift", "merge!", "update", "initialize", "default=", "default_proc=", "compare_by_identity"];
        if t.frozen && change.contains(&name) {
            return err(Kind::Frozen);
        }
        let sifting = ["select!", "filter!", "reject!", "keep_if", "delete_if"].contains(&name);
        let lazily = sifting || ["each", "each_pair", "select", "filter", "reject"].contains(&name);
        if lazily && !with_block {
            return Ok(Lazy);
        }
        if sifting && t.frozen {
            return err(Kind::Frozen);
        }
        Ok(match name {
            "size" | "length" => Int(t.pairs.len() as i64),
            "empty?" => Bool(t.pairs.is_empty()),
            "keys" => List(t.keys()),
            "values" => List(t.values()),
            "__pairs" => PairList(t.pairs),
            "key?" | "has_key?" | "include?" | "member?" => Bool(t.at(args[0]).is_some()),
            "compare_by_identity?" => Bool(t.ident),
            "[]" => Val(self.index(me, args[0])?),
            "__get_or_key" => Val(t.get(args[0]).unwrap_or(args[0])),
            "fetch" => match t.get(args[0]) {
                Some(v) => Val(v),
                None if with_block => Val(self.block(&args[..1])?),
                None if args.len() > 1 => Val(args[1]),
                None => return err(Kind::Key),
            },
            "values_at" => {
                let mut out = vec![];
                for k in args {
                    out.push(self.index(me, *k)?);
                }
                List(out)
            }
            "dig" => {
                let Some(first) = arg else { return err(Kind::Argument) };
                let mut v = self.index(me, first)?;
                for k in &args[1..] {
                    if v.is_nil() {
                        break;
                    }
                    v = self.dig(v, *k)?;
                }
                Val(v)
            }
            "default" => match (arg, t.dflt) {
                (Some(k), Dflt::Proc(_)) => Val(self.default(me, k)?),
                (_, Dflt::Val(v)) => Val(v),
                _ => nil(),
            },
            "default_proc" => match t.dflt {
                Dflt::Proc(p) => Val(p),
                _ => nil(),
            },
            "default=" => {
                self.all[me].t.dflt = if args[0].is_nil() { Dflt::No } else { Dflt::Val(args[0]) };
                Val(args[0])
            }
            "default_proc=" => {
                let p = match args[0] {
                    v if v.is_nil() => {
                        self.all[me].t.dflt = Dflt::No;
                        return Ok(nil());
                    }
                    v if v.is_proc().is_some() => v,
                    v => match v.as_thing().and_then(|t| t.to_proc) {
                        Some(p) if p.is_proc().is_some() => p,
                        _ => return err(Kind::Type),
                    },
                };
                if let Obj::Proc { lambda: true, arity } = p.rv().unwrap().obj
                    && arity != 2
                {
                    return err(Kind::Type);
                }
                self.all[me].t.dflt = Dflt::Proc(p);
                Val(p)
            }
            "initialize" => {
                if with_block && arg.is_some() {
                    return err(Kind::Argument);
                }
                // The proc is made by the call; it is looked up afterwards.
                self.all[me].t.dflt = match arg {
                    _ if with_block => Dflt::Proc(Value::nil()),
                    Some(v) if !v.is_nil() => Dflt::Val(v),
                    _ => Dflt::No,
                };
                Me
            }
            "[]=" | "store" => {
                self.all[me].t.put(args[0], args[1])?;
                Val(args[1])
            }
            "delete" => match t.at(args[0]) {
                Some(i) => Val(self.all[me].t.drop_at(i).1),
                None if with_block => Val(self.block(args)?),
                None => nil(),
            },
            "shift" => match t.pairs.first() {
                Some((k, v)) => {
                    self.all[me].t.drop_at(0);
                    Pair(*k, *v)
                }
                None => nil(),
            },
            "clear" => {
                self.all[me].t.pairs.clear();
                Me
            }
            "compare_by_identity" => {
                if t.walks > 0 {
                    return err(Kind::Runtime);
                }
                self.all[me].t.ident = true;
                Me
            }
            "replace" => {
                if args[0] == self.all[me].v {
                    return Ok(Me);
                }
                let o = self.to_hash(args[0]);
                if t.walks > 0 {
                    return err(if o.is_ok() { Kind::Runtime } else { Kind::Scripted(55) });
                }
                let o = o?;
                let me = &mut self.all[me].t;
                me.pairs = o.pairs;
                me.ident = o.ident;
                Me
            }
            "each" | "each_pair" => {
                for (k, v) in t.pairs {
                    self.block(&[Value::array2(k, v)])?;
                }
                Me
            }
            "select" | "filter" | "reject" => {
                let mut out = Table::new(t.ident);
                for (k, v) in t.pairs {
                    if self.block(&[k, v])?.as_bool() != (name == "reject") {
                        out.pairs.push((k, v));
                    }
                }
                Hash(out)
            }
            _ if sifting => {
                let drop_if = ["reject!", "delete_if"].contains(&name);
                let mut gone = vec![];
                let mut failed = None;
                for (k, v) in &t.pairs {
                    match self.block(&[*k, *v]) {
                        Ok(b) if b.as_bool() == drop_if => gone.push(*k),
                        Ok(_) => {}
                        Err(e) => {
                            failed = Some(e);
                            break;
                        }
                    }
                }
                // When the block raises, what it had already rejected may or
                // may not be gone.
                if let Some(e) = failed {
                    return Err(e);
                }
                for k in &gone {
                    let i = self.all[me].t.pairs.iter().position(|p| p.0 == *k).unwrap();
                    self.all[me].t.drop_at(i);
                }
                if name.ends_with('!') && gone.is_empty() { nil() } else { Me }
            }
            "merge" | "merge!" | "update" => {
                let mut out = Table { walks: 0, slots: vec![], frozen: false, r2k: false, ..t.clone() };
                if out.class == SINGLETON_CLASS {
                    out.class = SUB_CLASS;
                }
                for a in args {
                    // A hash merged into itself stays as it is.
                    let o = self.to_hash(*a)?;
                    for (k, v) in o.pairs {
                        let cur = if name == "merge" { out.get(k) } else { self.all[me].t.get(k) };
                        let v = match cur {
                            Some(old) if with_block => self.block(&[k, old, v])?,
                            _ => v,
                        };
                        if name == "merge" { out.store(k, v)? } else { self.all[me].t.store(k, v)? }
                    }
                }
                if name == "merge" { Hash(out) } else { Me }
            }
            "invert" => {
                let mut out = Table::new(false);
                for (k, v) in t.pairs {
                    out.put(v, k)?;
                }
                Hash(out)
            }
            "to_h" if !with_block => Me,
            "to_h" => {
                let mut out = Table::new(false);
                for (k, v) in t.pairs {
                    let r = self.block(&[k, v])?;
                    match r.try_array_ty() {
                        Some(a) if a.len() == 2 => out.put(a[0], a[1])?,
                        // An array of another length: which error is left open.
                        Some(_) => return err(Kind::Scripted(55)),
                        None => return err(Kind::Type),
                    }
                }
                Hash(out)
            }
            "sort" if with_block => {
                let salt = self.sim.as_ref().unwrap().salt;
                Sorted(t.pairs, salt)
            }
            "sort" => {
                let mut l = t.pairs.clone();
                for (i, a) in l.iter().enumerate() {
                    for b in &l[..i] {
                        match plain_cmp(a.0, b.0) {
                            Some(std::cmp::Ordering::Equal) => return Ok(Any),
                            None => return Ok(Any),
                            _ => {}
                        }
                    }
                }
                l.sort_by(|a, b| plain_cmp(a.0, b.0).unwrap());
                PairList(l)
            }
            "assoc" | "rassoc" => {
                let hit = t.pairs.iter().find(|(k, v)| m_eq(args[0], if name == "assoc" { *k } else { *v }));
                hit.map_or(nil(), |p| Pair(p.0, p.1))
            }
            "key" => t.pairs.iter().find(|(_, v)| m_eq(*v, args[0])).map_or(nil(), |p| Key(p.0)),
            "==" | "===" | "eql?" => Bool(args[0].try_hash_ty().is_some() && rel(self.all[me].v, args[0], name == "eql?", &mut vec![])),
            "<" | "<=" | ">" | ">=" => {
                let o = self.to_hash(args[0])?;
                let (a, b) = if name.starts_with('<') { (&t, &o) } else { (&o, &t) };
                let (x, y) = (a.pairs.len(), b.pairs.len());
                Bool((x < y || x == y && name.ends_with('=')) && inside(a, b, false, &mut vec![]))
            }
            "inspect" | "to_s" => Text(m_inspect(self.all[me].v, &mut vec![])),
            "hash" => Any,
            "clone" | "dup" => Hash(Table {
                walks: 0,
                slots: vec![],
                frozen: false,
                r2k: false,
                class: if t.class == SINGLETON_CLASS { SUB_CLASS } else { t.class },
                ..t
            }),
            "__dup_table" => Hash(Table::of(t.pairs, t.ident)),
            "__new_hash_with_capacity" => Hash(Table::new(false)),
            "__block_splits_pair?" => Any,
            _ => unreachable!("{name}"),
        })
    }
    /// `Hash[...]`
    fn make(&mut self, args: &[Value], class: ClassId) -> Result<Res> {
        let mut out = Table { class, ..Table::new(false) };
        let mut from_list = |l: Vec<Value>| {
            for e in l {
                match e.try_array_ty().map(|a| a.to_vec()).as_deref() {
                    Some([k]) => out.put(*k, Value::nil())?,
                    Some([k, v]) => out.put(*k, *v)?,
                    _ => return err(Kind::Argument),
                }
            }
            Ok(())
        };
        match args {
            [a] => {
                if a.try_hash_ty().is_some() {
                    for (k, v) in self.table(*a).pairs {
                        out.store(k, v)?;
                    }
                } else if a.try_array_ty().is_some() {
                    from_list(list_of(*a))?;
                } else if let Some(h) = a.as_thing().and_then(|t| t.to_hash).filter(|h| h.try_hash_ty().is_some()) {
                    for (k, v) in self.table(h).pairs {
                        out.store(k, v)?;
                    }
                } else if let Some(l) = a.as_thing().and_then(|t| t.to_ary).filter(|l| l.is_array_ty()) {
                    from_list(list_of(l))?;
                } else {
                    return err(Kind::Argument);
                }
            }
            _ if args.len() % 2 == 1 => return err(Kind::Argument),
            _ => {
                for p in args.chunks(2) {
                    out.put(p[0], p[1])?;
                }
            }
        }
        Ok(Hash(out))
    }
}

// ------------------------------------------------------------- the machinery

/// Method, shapes of its arguments, kinds of block.
const METHODS: &[(&str, &[&str], &str)] = &[
    ("size", &[""], "n"), ("length", &[""], "n"), ("empty?", &[""], "n"), ("keys", &[""], "n"), ("values", &[""], "n"), ("__pairs", &[""], "n"),
    ("key?", &["k"], "n"), ("has_key?", &["k"], "n"), ("include?", &["k"], "n"), ("member?", &["k"], "n"), ("[]", &["k"], "n"), ("[]", &["k"], "n"),
    ("__get_or_key", &["k"], "n"), ("fetch", &["k", "kv"], "nb"), ("values_at", &["*k"], "n"), ("dig", &["", "k", "kk", "kkk", "ki"], "n"),
    ("default", &["", "k"], "n"), ("default_proc", &[""], "n"), ("default=", &["v", "z"], "n"), ("default_proc=", &["f", "f", "z", "v"], "n"),
    ("initialize", &["", "v"], "nb"), ("[]=", &["kv"], "n"), ("[]=", &["kv"], "n"), ("[]=", &["Kv"], "n"), ("[]=", &["Kv"], "n"), ("store", &["kv"], "n"),
    ("delete", &["k"], "nb"), ("delete", &["k"], "n"), ("shift", &[""], "n"), ("clear", &[""], "n"), ("compare_by_identity", &[""], "n"),
    ("compare_by_identity?", &[""], "n"), ("replace", &["h"], "n"), ("each", &[""], "nb"), ("each_pair", &[""], "nb"), ("select", &[""], "nb"),
    ("filter", &[""], "nb"), ("reject", &[""], "nb"), ("select!", &[""], "nb"), ("filter!", &[""], "nb"), ("reject!", &[""], "nb"),
    ("keep_if", &[""], "nb"), ("delete_if", &[""], "nb"), ("merge", &["*h"], "nb"), ("merge!", &["*h"], "nb"), ("update", &["*h"], "nb"),
    ("invert", &[""], "n"), ("to_h", &[""], "np"), ("sort", &[""], "nc"), ("assoc", &["k"], "n"), ("rassoc", &["v"], "n"), ("key", &["v"], "n"),
    ("==", &["m", "h", "v"], "n"), ("===", &["m"], "n"), ("eql?", &["m", "h", "v"], "n"), ("<", &["m", "h"], "n"), ("<=", &["m", "h"], "n"),
    (">", &["m", "h"], "n"), (">=", &["m", "h"], "n"), ("inspect", &[""], "n"), ("to_s", &[""], "n"), ("hash", &[""], "n"), ("clone", &[""], "n"),
    ("dup", &[""], "n"), ("__dup_table", &[""], "n"), ("__new_hash_with_capacity", &["i"], "n"),
];
/// What may happen to a hash while it is being walked.
const DURING: &[(&str, &[&str], &str)] = &[
    ("[]=", &["kv"], "n"), ("[]=", &["Kv"], "n"), ("delete", &["k"], "n"), ("delete", &["k"], "n"), ("shift", &[""], "n"), ("default=", &["v", "z"], "n"),
    ("default_proc=", &["f", "z"], "n"), ("merge!", &["h"], "nb"), ("reject!", &[""], "b"), ("select!", &[""], "b"), ("delete_if", &[""], "b"),
    ("replace", &["h"], "n"), ("compare_by_identity", &[""], "n"), ("fetch", &["k"], "b"), ("keys", &[""], "n"), ("merge", &["h"], "n"),
    ("size", &[""], "n"), ("[]", &["k"], "n"), ("dup", &[""], "n"), ("inspect", &[""], "n"), ("each", &[""], "b"), ("__dup_table", &[""], "n"),
];

struct World {
    vm: Executor,
    g: Globals,
}
struct Play {
    pool: Vec<Value>,
    all: Vec<Known>,
    theme: u64,
    quiet: bool,
    procs: Sim,
    proc_stores: bool,
    /// Scripted objects raise once this many calls have been made to them.
    fuse: Rc<RefCell<Option<u32>>>,
}

fn span(r: &mut vh::Rng, lo: i64, hi: i64) -> i64 {
    lo + r.below((hi - lo) as u64) as i64
}
fn thing(p: &Play, t: Thing) -> Value {
    Value::thing(Thing { quiet: p.quiet, ..t })
}
fn scalar(case: &mut Case, p: &Play, theme: u64) -> Value {
    let r = &mut case.rng;
    match theme {
        0 => match r.below(8) {
            0 => Value::symbol(IdentId::get_id(r.pick(&["x", "y", "zed"]))),
            1 => *r.pick(&[Value::nil(), Value::bool(true), Value::bool(false)]),
            _ => Value::integer(span(r, -2, 6)),
        },
        1 => {
            let mut s = Value::string_from_str(r.pick(&["", "a", "b", "ab", "c", "dd", "e"]));
            if r.chance(1, 3) {
                s.set_frozen();
            }
            s
        }
        2 => thing(p, Thing { key: span(r, 0, 9), ..Default::default() }),
        3 => match r.below(4) {
            0 => Value::float(*r.pick(&[0.5, 1.0, 2.0, 1e20])),
            1 => Value::bigint(BigInt::from(i64::MAX) * BigInt::from(span(r, 2, 5))),
            _ => Value::integer(span(r, -2, 5)),
        },
        5 => Value::integer(span(r, 0, 60)),
        _ => match r.below(8) {
            0 => Value::nil(),
            n => scalar(case, p, n % 4),
        },
    }
}
/// An equal one that is not the same object.
fn twin(case: &mut Case, v: Value) -> Value {
    match v.rv().map(|r| &r.obj) {
        Some(Obj::Str(_)) => Value::string(plain_to_s(v)),
        Some(Obj::Thing(t)) => Value::thing(t.clone()),
        Some(Obj::Float(f)) => Value::float(*f),
        Some(Obj::Array(a)) => Value::array_from_vec(a.iter().map(|v| twin(case, *v)).collect()),
        Some(Obj::Hash) if v.is_frozen() => {
            let mut l: Pairs = v.as_hash().iter().collect();
            case.rng.shuffle(&mut l);
            let mut h = build(&l, v.as_hash().is_compare_by_identity(), case.rng.chance(1, 3));
            h.set_frozen();
            h
        }
        _ => v,
    }
}
/// A hash with these pairs, small ones possibly in the large form.
fn build(l: &[(Value, Value)], ident: bool, large: bool) -> Value {
    let (mut vm, mut g) = (Executor::default(), Globals::default());
    let mut h = if large { HashmapInner::with_capacity(20) } else { HashmapInner::default() };
    if ident {
        h.compare_by_identity(&mut vm, &mut g).unwrap();
    }
    for (k, v) in l {
        h.insert(*k, *v, &mut vm, &mut g).unwrap();
    }
    Value::hash_from_inner(h)
}
fn key(case: &mut Case, p: &mut Play) -> Value {
    if !p.pool.is_empty() && case.rng.chance(3, 5) {
        let v = *case.rng.pick(&p.pool);
        return if case.rng.chance(1, 3) { twin(case, v) } else { v };
    }
    let v = match p.theme {
        4 => match case.rng.below(3) {
            0 => scalar(case, p, 0),
            1 => {
                let k = case.rng.us(3);
                Value::array_from_vec((0..k).map(|_| scalar(case, p, 9)).collect())
            }
            _ => {
                let k = case.rng.us(5);
                let quick = |case: &mut Case, p: &Play| {
                    let t = case.rng.below(2);
                    let mut v = scalar(case, p, t);
                    if v.is_rstring_inner().is_some() {
                        v.set_frozen();
                    }
                    v
                };
                let l: Pairs = (0..k).map(|_| (quick(case, p), quick(case, p))).collect();
                let mut h = build(&l, case.rng.chance(1, 8), false);
                h.set_frozen();
                h
            }
        },
        t => scalar(case, p, t),
    };
    if p.pool.len() < 24 {
        p.pool.push(v);
    }
    v
}
fn value(case: &mut Case, p: &mut Play) -> Value {
    match case.rng.below(10) {
        0 if !p.all.is_empty() => {
            let i = case.rng.us(p.all.len());
            p.all[i].v
        }
        1..=3 => key(case, p),
        4 => {
            let k = case.rng.us(3);
            Value::array_from_vec((0..k).map(|_| scalar(case, p, 9)).collect())
        }
        _ => scalar(case, p, 9),
    }
}
fn learn(p: &mut Play, v: Value, t: Table) {
    if p.all.len() < 14 {
        p.all.push(Known { v, t });
    }
}
/// A new hash, of a class and in a form of its own.
fn fresh_hash(case: &mut Case, p: &mut Play, most: usize) -> Value {
    let n = case.rng.us(most + 1);
    let ident = case.rng.chance(1, 6);
    let mut t = Table::new(ident);
    for _ in 0..n {
        let (k, v) = (key(case, p), value(case, p));
        let k = if !ident && k.is_rstring_inner().is_some() && !k.is_frozen() {
            let mut c = Value::string(plain_to_s(k));
            c.set_frozen();
            c
        } else {
            k
        };
        t.store(k, v).unwrap();
    }
    let mut v = build(&t.pairs, ident, case.rng.chance(1, 3));
    if case.rng.chance(1, 4) {
        t.class = *case.rng.pick(&[SUB_CLASS, SINGLETON_CLASS]);
        v.change_class(t.class);
    }
    learn(p, v, t);
    v
}
fn make_args(case: &mut Case, p: &mut Play, recv: usize, shape: &str) -> Vec<Value> {
    let mut out = Vec::new();
    let mut many = false;
    for ch in shape.chars() {
        if ch == '*' {
            many = true;
            continue;
        }
        let reps = if many { case.rng.us(4) } else { 1 };
        many = false;
        for _ in 0..reps {
            let t = &p.all[recv].t;
            let v = match ch {
                'k' => {
                    if !t.pairs.is_empty() && case.rng.chance(1, 2) {
                        let k = case.rng.pick(&t.pairs).0;
                        if case.rng.chance(1, 3) { twin(case, k) } else { k }
                    } else {
                        key(case, p)
                    }
                }
                'K' => key(case, p),
                'v' => {
                    if !t.pairs.is_empty() && case.rng.chance(1, 3) {
                        let v = case.rng.pick(&t.pairs).1;
                        if case.rng.chance(1, 3) { twin(case, v) } else { v }
                    } else {
                        value(case, p)
                    }
                }
                'z' => Value::nil(),
                'i' => Value::integer(span(&mut case.rng, -2, 12)),
                'f' => {
                    let f = Value::proc(case.rng.chance(1, 2), *case.rng.pick(&[2, 2, 2, 1, -1, 3]));
                    if case.rng.chance(1, 5) {
                        let f = if case.rng.chance(1, 3) { Value::integer(1) } else { f };
                        thing(p, Thing { key: 40, to_proc: Some(f), ..Default::default() })
                    } else {
                        f
                    }
                }
                'h' => match case.rng.below(8) {
                    0 => p.all[recv].v,
                    1..=3 => {
                        let i = case.rng.us(p.all.len());
                        p.all[i].v
                    }
                    4 => {
                        let i = case.rng.us(p.all.len());
                        let h = if case.rng.chance(1, 4) { Value::nil() } else { p.all[i].v };
                        thing(p, Thing { key: 41, to_hash: Some(h), ..Default::default() })
                    }
                    5 if case.rng.chance(1, 3) => scalar(case, p, 9),
                    _ => fresh_hash(case, p, 5),
                },
                // Nearly the receiver itself.
                'm' => {
                    let ident = if case.rng.chance(1, 8) { !t.ident } else { t.ident };
                    let mut l = t.pairs.clone();
                    case.rng.shuffle(&mut l);
                    if !l.is_empty() {
                        let i = case.rng.us(l.len());
                        match case.rng.below(8) {
                            0 => {
                                l.pop();
                            }
                            1 => l[i].1 = value(case, p),
                            2 => {
                                let mut k = key(case, p);
                                if k.is_rstring_inner().is_some() {
                                    k.set_frozen();
                                }
                                l.push((k, value(case, p)));
                            }
                            3 => l[i].1 = twin(case, l[i].1),
                            4 if !t.ident => {
                                l[i].0 = twin(case, l[i].0);
                                if l[i].0.is_rstring_inner().is_some() {
                                    l[i].0.set_frozen();
                                }
                            }
                            5 => {
                                if let Some(x) = l[i].1.try_fixnum() {
                                    l[i].1 = Value::float(x as f64);
                                }
                            }
                            _ => {}
                        }
                    }
                    let mut t = Table::new(ident);
                    for (k, v) in l {
                        t.store(k, v).unwrap();
                    }
                    let v = build(&t.pairs, ident, case.rng.chance(1, 4));
                    learn(p, v, t);
                    v
                }
                _ => unreachable!(),
            };
            out.push(v);
        }
    }
    out
}
fn make_block(case: &mut Case, p: &mut Play, kind: char) -> Option<Sim> {
    let mut answers = vec![Value::nil(), Value::bool(false), Value::bool(true), Value::integer(1)];
    match kind {
        'n' => return None,
        'p' => {
            answers.clear();
            for _ in 0..6 {
                let k = if case.rng.chance(1, 25) { case.rng.us(4) } else { 2 };
                let a = Value::array_from_vec((0..k).map(|_| key(case, p)).collect());
                answers.push(if case.rng.chance(1, 25) { Value::integer(5) } else { a });
            }
        }
        _ => {
            for _ in 0..3 {
                answers.push(value(case, p));
            }
        }
    }
    let raise_at = if case.rng.chance(1, 7) { 1 + case.rng.below(6) as u32 } else { 0 };
    Some(Sim { answers, salt: case.rng.next() | 1, raise_at, calls: 0, compare: kind == 'c', trace: vec![] })
}

/// Lays the arguments out as the method was declared to take them.
fn layout(name: &str, ar: Arity, args: &[Value]) -> Vec<Option<Value>> {
    if args.len() < ar.min || !ar.rest && args.len() > ar.max {
        CRASH.with_borrow_mut(|c| {
            c.get_or_insert(format!("{name} does not take {} arguments", args.len()));
        });
    }
    let mut out: Vec<Option<Value>> = args.iter().take(ar.max).map(|v| Some(*v)).collect();
    out.resize(ar.max, None);
    if ar.rest {
        out.push(Some(Value::array_from_slice(args.get(ar.max..).unwrap_or(&[]))));
    }
    out.resize(out.len() + ar.kw, None);
    out
}
fn plain_call(w: &mut World, name: &str, recv: Value, args: &[Value], block: bool) -> Result<Value> {
    let Some(&(f, ar)) = w.g.funcs.get(name) else {
        eprintln!("method {name} is not there");
        std::process::exit(3);
    };
    let args = layout(name, ar, args);
    guarded(name, || f(&mut w.vm, &mut w.g, Lfp::new(recv, &args, block), BytecodePtr))
}
/// The way compiled code takes.
fn fast_call(w: &mut World, name: &str, recv: Value, args: &[Value]) -> Result<Value> {
    let addr = w.g.fast[name];
    let World { vm, g } = w;
    guarded(name, || {
        let r = unsafe {
            if args.len() == 1 {
                let f: extern "C" fn(&mut Executor, &mut Globals, Value, Value) -> Option<Value> = std::mem::transmute(addr as usize);
                f(vm, g, recv, args[0])
            } else {
                let f: extern "C" fn(&mut Executor, &mut Globals, Value, Value, Value) -> Option<Value> = std::mem::transmute(addr as usize);
                f(vm, g, recv, args[0], args[1])
            }
        };
        r.ok_or_else(|| vm.take_error())
    })
}
thread_local! {
    static CRASH: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// A panic is remembered; the case ends with it.
fn guarded(name: &str, f: impl FnOnce() -> Result<Value>) -> Result<Value> {
    vh::catch(f).unwrap_or_else(|(at, m)| {
        CRASH.with_borrow_mut(|c| {
            c.get_or_insert(format!("{name} panicked at {at}: {m}"));
        });
        Err(MonorubyErr::new(Kind::Scripted(99), "panicked"))
    })
}
fn crashed(r: Verdict) -> Verdict {
    match CRASH.take() {
        Some(m) => Err(vh::Violation(m)),
        None => r,
    }
}

/// Looks at a hash through every way in; afterwards the model knows the real
/// key objects.
fn audit(w: &mut World, k: &mut Known, full: bool, absent: &[Value]) -> Verdict {
    let h = k.v.as_hash();
    let t = &mut k.t;
    let real: Pairs = h.iter().collect();
    let fits = real.len() == t.pairs.len() && real.iter().zip(&t.pairs).all(|(r, m)| key_is(m.0, r.0) && ident(m.1, r.1));
    vcheck!(fits, "the hash holds {real:?}, must hold {:?}", t.pairs);
    for (m, r) in t.pairs.iter_mut().zip(&real) {
        for s in t.slots.iter_mut().flatten().filter(|s| s.0 == m.0) {
            *s = *r;
        }
        *m = *r;
    }
    vcheck!(h.len() == real.len(), "{} pairs are counted as {}", real.len(), h.len());
    vcheck!(h.is_empty() == real.is_empty(), "emptiness of {} pairs", real.len());
    vcheck!(h.is_compare_by_identity() == t.ident, "compares by identity: {}", h.is_compare_by_identity());
    vcheck!(k.v.is_frozen() == t.frozen, "frozen: {}", k.v.is_frozen());
    vcheck!(k.v.class() == t.class, "class became {:?}", k.v.class());
    let d = match (h.defalut_proc().map(|p| p.as_val()), h.defalut_value()) {
        (Some(p), _) => Dflt::Proc(p),
        (None, Some(v)) if !v.is_nil() => Dflt::Val(v),
        _ => Dflt::No,
    };
    let fits = match (t.dflt, d) {
        (Dflt::Val(a), Dflt::Val(b)) => ident(a, b),
        (Dflt::Proc(a), Dflt::Proc(b)) => a.is_nil() || a == b,
        (a, b) => a == b,
    };
    vcheck!(fits, "default is {d:?}, must be {:?}", t.dflt);
    t.dflt = d;
    vcheck!(k.v.as_hashmap_inner().ruby2_keywords_flag() == t.r2k, "keyword flag is {}", !t.r2k);
    if !full {
        return Ok(());
    }
    let keys = h.keys();
    let values = h.values();
    vcheck!(keys.len() == real.len() && keys.iter().zip(&real).all(|(a, b)| *a == b.0), "keys {keys:?} of {real:?}");
    vcheck!(values.len() == real.len() && values.iter().zip(&real).all(|(a, b)| *a == b.1), "values {values:?} of {real:?}");
    let n = h.entry_count();
    let mut live = vec![];
    for i in 0..n {
        let e = h.entry_at(i);
        vcheck!(e.is_some() == h.live_at(i), "position {i} is live: {}, holds {e:?}", h.live_at(i));
        live.extend(e);
    }
    vcheck!(live == real, "positions hold {live:?}, traversal finds {real:?}");
    vcheck!(h.entry_at(n).is_none() && !h.live_at(n), "something behind the last position");
    if t.walks > 0 {
        let fits = n == t.slots.len() && (0..n).all(|i| h.entry_at(i) == t.slots[i]);
        vcheck!(fits, "positions moved during a traversal: {:?} are now {live:?}", t.slots);
    }
    for (i, (key, v)) in real.iter().enumerate() {
        let got = h.get(*key, &mut w.vm, &mut w.g).unwrap_or_default();
        vcheck!(got.is_some_and(|g| g == *v), "pair {i}: key {key:?} finds {got:?}, holds {v:?}");
        vcheck!(h.contains_key(*key, &mut w.vm, &mut w.g).unwrap_or_default(), "pair {i}: key {key:?} is not found");
    }
    for k in absent {
        let got = h.get(*k, &mut w.vm, &mut w.g).unwrap_or_default();
        let fits = match (got, t.get(*k)) {
            (Some(a), Some(b)) => ident(a, b),
            (a, b) => a.is_none() && b.is_none(),
        };
        vcheck!(fits, "key {k:?} finds {got:?}, must find {:?} in {real:?}", t.get(*k));
    }
    // What the collector is shown.
    let mut shown: Vec<Value> = k.v.hash_children().into_iter().filter(|v| !v.is_packed_value()).collect();
    let mut must = heap_children(t);
    shown.sort_by_key(|v| v.bits());
    shown.dedup();
    must.sort_by_key(|v| v.bits());
    must.dedup();
    vcheck!(shown == must, "marking shows {} objects, the hash holds {}", shown.len(), must.len());
    for y in must {
        let mut a = alloc::Allocator::default();
        a.young = Some(y);
        vcheck!(k.v.as_hashmap_inner().young_child_exists(&a), "young {y:?} is overlooked");
    }
    let a = alloc::Allocator::default();
    vcheck!(!k.v.as_hashmap_inner().young_child_exists(&a), "old children look young");
    Ok(())
}
fn heap_children(t: &Table) -> Vec<Value> {
    let mut l: Vec<Value> = t.pairs.iter().flat_map(|p| [p.0, p.1]).filter(|v| !v.is_packed_value()).collect();
    if let Dflt::Val(v) | Dflt::Proc(v) = t.dflt
        && !v.is_packed_value()
    {
        l.push(v);
    }
    l
}
fn audit_all(case: &mut Case, w: &mut World, p: &mut Play, first: usize, what: &str) -> Verdict {
    let absent: Vec<Value> = (0..3).map(|_| key(case, p)).collect();
    let some = case.rng.us(p.all.len());
    for i in 0..p.all.len() {
        let full = i == first || i == some || p.all[i].t.walks > 0;
        if let Err(e) = audit(w, &mut p.all[i], full, &absent) {
            vbail!("after {what}: {}", e.0);
        }
    }
    COPIES.with_borrow_mut(|l| l.clear());
    vcheck!(value::guards_left() == 0, "after {what}: the recursion guard was left set");
    vcheck!(w.vm.temps.is_empty(), "after {what}: temporaries were left behind");
    Ok(())
}
/// How much there is to walk below the value, up to a limit.
fn weight(v: Value, path: &mut Vec<Value>, left: &mut i64) {
    *left -= 1;
    if *left < 0 || path.contains(&v) {
        return;
    }
    path.push(v);
    if let Some(h) = v.try_hash_ty() {
        for (k, v) in h.iter() {
            weight(k, path, left);
            weight(v, path, left);
        }
    } else if let Some(a) = v.try_array_ty() {
        for v in a.iter() {
            weight(*v, path, left);
        }
    }
    path.pop();
}
fn heavy(l: &[Value]) -> bool {
    let mut left = 400;
    for v in l {
        weight(*v, &mut vec![], &mut left);
    }
    left < 0
}
/// May be a key that stays as it is.
fn steady(v: Value) -> bool {
    steady_within(v, 6)
}
fn steady_within(v: Value, depth: usize) -> bool {
    if depth == 0 {
        return false;
    }
    match v.try_hash_ty() {
        Some(h) => v.is_frozen() && h.iter().all(|(k, v)| steady_within(k, depth - 1) && steady_within(v, depth - 1)),
        None => v.try_array_ty().is_none_or(|a| a.iter().all(|v| steady_within(*v, depth - 1))),
    }
}
fn agree(w: &World, me: Value, name: &str, want: &Res, got: Value, mark: usize) -> Verdict {
    let fresh = |v: Value| !v.is_packed_value() && !older(v, mark);
    let pair_is = |v: Value, p: (Value, Value)| v.try_array_ty().is_some_and(|a| a.len() == 2 && key_is(p.0, a[0]) && ident(p.1, a[1]));
    let fits = match want {
        Me => got == me,
        Val(v) => same(*v, got),
        Key(k) => key_is(*k, got),
        Int(i) => got.try_fixnum() == Some(*i),
        Bool(b) => got == Value::bool(*b),
        Text(s) => got.is_rstring_inner().is_some() && plain_to_s(got) == *s && fresh(got),
        List(l) => fresh(got) && got.try_array_ty().is_some_and(|a| a.len() == l.len() && a.iter().zip(l).all(|(a, b)| key_is(*b, *a))),
        Pair(k, v) => fresh(got) && pair_is(got, (*k, *v)),
        PairList(l) => fresh(got) && got.try_array_ty().is_some_and(|a| a.len() == l.len() && a.iter().zip(l).all(|(a, b)| fresh(*a) && pair_is(*a, *b))),
        Hash(_) => fresh(got) && got.try_hash_ty().is_some(),
        Sorted(l, salt) => {
            let Some(a) = got.try_array_ty() else { vbail!("{name} answered {got:?}") };
            let mut left = l.clone();
            let mut last = 0;
            for e in a.iter() {
                let Some(i) = left.iter().position(|p| pair_is(*e, *p)) else { vbail!("{name} answered {got:?} for {l:?}") };
                let r = rank(left.remove(i), *salt);
                vcheck!(r >= last, "{name} answered {got:?}, out of order");
                last = r;
            }
            left.is_empty()
        }
        Lazy => match got.rv().map(|r| &r.obj) {
            Some(Obj::Enumerator { id, recv, args, size }) => {
                let _ = id;
                *recv == me && args.is_empty() && size.is_none_or(|s| s.try_fixnum() == Some(me.as_hash().len() as i64))
            }
            _ => false,
        },
        Any => true,
    };
    let _ = w;
    vcheck!(fits, "{name} answered {got:?}, must answer {want:?}");
    Ok(())
}

// ---------------------------------------------------- what callbacks may do

type Fx = Rc<RefCell<Doings>>;
struct Doings {
    rng: vh::Rng,
    collecting: bool,
    both: bool,
    every: u64,
    start: u64,
    calls: u64,
    acts: u64,
    gone: u64,
    did: Vec<String>,
    bad: Option<String>,
    roots: Vec<Value>,
    targets: Vec<Value>,
    me: Value,
    spare: Vec<Value>,
}
fn resync(k: &mut Known) {
    let h = k.v.as_hash();
    let t = &mut k.t;
    t.pairs = h.iter().collect();
    t.ident = h.is_compare_by_identity();
    t.r2k = k.v.as_hashmap_inner().ruby2_keywords_flag();
    t.dflt = match (h.defalut_proc(), h.defalut_value()) {
        (Some(f), _) => Dflt::Proc(f.as_val()),
        (_, Some(v)) if !v.is_nil() => Dflt::Val(v),
        _ => Dflt::No,
    };
}
/// Changes a hash the way Ruby code would; what it refuses stays undone.
fn meddle(s: &mut Doings, vm: &mut Executor, g: &mut Globals) {
    let v = if s.rng.chance(2, 3) && !s.me.is_frozen() { s.me } else { *s.rng.pick(&s.targets) };
    let keys = v.as_hash().keys();
    // With a collector about, only what needs no keeping can be stored.
    let spare = |s: &mut Doings| match s.spare.is_empty() {
        true => Value::integer(3),
        _ if s.collecting => Value::integer(s.rng.below(9) as i64),
        false => *s.rng.pick(&s.spare),
    };
    let old = |s: &mut Doings| if keys.is_empty() || s.rng.chance(1, 4) { spare(s) } else { *s.rng.pick(&keys) };
    let (name, args) = match s.rng.below(10) {
        0 => ("clear", vec![]),
        1 | 2 => ("delete", vec![old(s)]),
        3 => ("shift", vec![]),
        4 => ("[]=", vec![old(s), spare(s)]),
        5 => ("[]=", vec![Value::integer(1000 + s.rng.below(30) as i64), spare(s)]),
        6 => ("default=", vec![spare(s)]),
        7 => ("replace", vec![*s.rng.pick(&s.targets)]),
        8 => ("compare_by_identity", vec![]),
        _ => ("delete-all", vec![]),
    };
    let mut calls = vec![(name, args)];
    if name == "delete-all" {
        calls = keys.iter().map(|k| ("delete", vec![*k])).collect();
    }
    if name == "[]=" && s.rng.chance(1, 4) {
        calls = (0..20).map(|i| ("[]=", vec![Value::integer(2000 + i), spare(s)])).collect();
    }
    for (name, args) in calls {
        let (f, ar) = g.funcs[name];
        let args = layout(name, ar, &args);
        f(vm, g, Lfp::new(v, &args, false), BytecodePtr).ok();
    }
    s.acts += 1;
    let call = s.calls;
    s.did.push(format!("{name} in call {call} on {}", if v == s.me { "the receiver" } else { "another" }));
}
fn happen(fx: &Fx, vm: &mut Executor, g: &mut Globals, args: &[Value], probing: bool) {
    let mut s = fx.borrow_mut();
    s.calls += 1;
    if s.bad.is_none() && args.iter().any(|v| !sound_through(*v, 4)) {
        s.bad = Some(format!("call {} was given an object that no longer exists", s.calls));
    }
    if s.bad.is_some() || s.calls < s.start {
        return;
    }
    if s.collecting {
        let every = s.every;
        if s.rng.below(every) == 0 {
            if s.both && !probing && s.acts < 6 && !s.targets.is_empty() {
                let (b, c, p, i) = (vm.block.take(), vm.on_call.take(), vm.on_proc.take(), vm.inside.take());
                let fresh = std::mem::take(&mut vm.fresh);
                meddle(&mut s, vm, g);
                vm.fresh = fresh;
                (vm.block, vm.on_call, vm.on_proc, vm.inside) = (b, c, p, i);
            }
            let mut r = s.roots.clone();
            r.extend(&vm.temps);
            r.extend(&vm.frames);
            s.acts += 1;
            s.gone += collect(&r) as u64;
        }
    } else if !probing && s.acts < 6 && !s.targets.is_empty() {
        let every = s.every;
        if s.rng.below(every) == 0 {
            // What it calls must not change things in turn.
            let (b, c, p) = (vm.block.take(), vm.on_call.take(), vm.on_proc.take());
            meddle(&mut s, vm, g);
            (vm.block, vm.on_call, vm.on_proc) = (b, c, p);
        }
    }
}

fn step(case: &mut Case, w: &mut World, p: &mut Play, collecting: bool) -> Verdict {
    let me = case.rng.us(p.all.len());
    let (name, shapes, blocks) = loop {
        let mut m = *case.rng.pick(METHODS);
        // A quarter of the calls are those that take other hashes.
        if collecting && case.rng.chance(1, 4) {
            let l: Vec<_> = METHODS.iter().filter(|m| m.1.iter().any(|s| s.contains('h'))).collect();
            m = **case.rng.pick(&l);
        }
        // Those that call nothing back are of less interest.
        let dull = ["size", "length", "empty?", "keys", "values", "__pairs", "default_proc", "compare_by_identity?", "__new_hash_with_capacity", "__dup_table"];
        if !dull.contains(&m.0) {
            break m;
        }
    };
    let shape = *case.rng.pick(shapes);
    let recv = p.all[me].v;
    let class_func = name == "dup";
    let mut args = if class_func {
        let k = case.rng.us(4);
        match case.rng.below(3) {
            0 => (0..k * 2).map(|_| key(case, p)).collect(),
            1 => make_args(case, p, me, "h"),
            _ => {
                let l = (0..k).map(|_| Value::array2(key(case, p), value(case, p))).collect();
                vec![Value::array_from_vec(l)]
            }
        }
    } else {
        make_args(case, p, me, shape)
    };
    // Operands that a conversion makes are held by nothing else.
    if collecting && case.rng.chance(1, 3) {
        for a in &mut args {
            if a.try_hash_ty().is_some() {
                *a = thing(p, Thing { key: 41, to_hash: Some(*a), ..Default::default() });
            }
        }
    }
    let kinds: Vec<char> = blocks.chars().collect();
    let mut kind = *case.rng.pick(&kinds);
    if kind == 'n' && kinds.len() > 1 && case.rng.chance(2, 5) {
        kind = kinds[1];
    }
    let mut block = make_block(case, p, kind);
    if let Some(b) = &mut block {
        b.raise_at = if case.rng.chance(1, 12) { b.raise_at } else { 0 };
    }
    let mut seen = args.clone();
    seen.push(recv);
    if heavy(&seen) || endless(recv, &mut vec![]) || args.iter().any(|v| endless(*v, &mut vec![])) {
        return Ok(());
    }
    let what = format!("{}{name} on {recv:?} with {args:?}{}", if class_func { "[] instead of " } else { "" }, if block.is_some() { " and a block" } else { "" });
    case.op(|| what.clone());

    let mut roots: Vec<Value> = p.all.iter().map(|k| k.v).collect();
    if !collecting {
        roots.extend(&p.pool);
    }
    roots.extend(&p.procs.answers);
    roots.extend(&args);
    if let Some(s) = &block {
        roots.extend(&s.answers);
    }
    let both = collecting && case.rng.chance(1, 3);
    let targets: Vec<Value> = p.all.iter().map(|k| k.v).filter(|v| !v.is_frozen()).collect();
    let mut rng = vh::Rng::new(case.rng.next(), 49);
    let every = 1 + rng.below(4);
    let start = if rng.chance(1, 3) { rng.below(3 * recv.as_hash().len() as u64 + 1) } else { 0 };
    let fx: Fx = Rc::new(RefCell::new(Doings {
        rng,
        collecting,
        both,
        every,
        start,
        calls: 0,
        acts: 0,
        gone: 0,
        did: vec![],
        bad: None,
        roots,
        targets,
        me: recv,
        spare: p.pool.clone(),
    }));
    if collecting {
        let f = fx.clone();
        w.vm.inside = Some(Box::new(move |vm, g, args| {
            let probing = vm.probing;
            happen(&f, vm, g, args, probing)
        }));
    } else {
        let f = fx.clone();
        w.vm.on_call = Some(Box::new(move |vm, g, name, recv, args| {
            let mut l = vec![recv];
            l.extend_from_slice(args);
            happen(&f, vm, g, &l, ["hash", "eql?"].contains(&name));
            Ok(())
        }));
    }
    w.vm.fresh = collecting;
    let with_block = block.is_some();
    let f = fx.clone();
    w.vm.block = block.map(|mut s| {
        Box::new(move |vm: &mut Executor, g: &mut Globals, a: &[Value]| {
            if !vm.fresh {
                happen(&f, vm, g, a, false);
            }
            let r = s.call(a);
            s.trace.clear();
            r.map(|v| if vm.fresh { fresh_copy(v) } else { v })
        }) as Block
    });
    let (f, mut procs, stores) = (fx.clone(), p.procs.clone(), p.proc_stores);
    w.vm.on_proc = Some(Box::new(move |vm, g, proc, a| {
        if !vm.fresh {
            happen(&f, vm, g, a, false);
        }
        let mut l = vec![proc];
        l.extend_from_slice(a);
        let v = procs.call(&l)?;
        procs.trace.clear();
        let v = if vm.fresh { fresh_copy(v) } else { v };
        if stores {
            let (f, _) = g.funcs["[]="];
            let n = vm.frames.len();
            vm.frames.extend_from_slice(&[a[0], a[1], v]);
            let r = f(vm, g, Lfp::new(a[0], &[Some(a[1]), Some(v)], false), BytecodePtr);
            vm.frames.truncate(n);
            r?;
        }
        Ok(v)
    }));
    vh::step();
    let plain = recv.class() == HASH_CLASS && !recv.is_frozen();
    w.vm.frames.clear();
    w.vm.frames.push(recv);
    w.vm.frames.extend_from_slice(&args);
    let got = if class_func {
        let (f, ar) = w.g.class_funcs["[]"];
        let (c, l) = (Value::class_obj(HASH_CLASS), layout(name, ar, &args));
        w.vm.frames.push(c);
        w.vm.frames.extend(l.iter().flatten());
        guarded("Hash.[]", || f(&mut w.vm, &mut w.g, Lfp::new(c, &l, false), BytecodePtr))
    } else if plain && w.g.fast.contains_key(name) && case.rng.chance(1, 3) {
        fast_call(w, name, recv, &args)
    } else {
        let (f, ar) = w.g.funcs[name];
        let l = layout(name, ar, &args);
        w.vm.frames.extend(l.iter().flatten());
        guarded(name, || f(&mut w.vm, &mut w.g, Lfp::new(recv, &l, with_block), BytecodePtr))
    };
    w.vm.block = None;
    w.vm.inside = None;
    w.vm.on_call = None;
    w.vm.on_proc = None;
    w.vm.fresh = false;
    w.vm.frames.clear();
    let s = fx.borrow();
    let what = if collecting { format!("{what}, the collector running inside") } else { format!("{what}, with {:?}", s.did) };
    if let Some(m) = CRASH.take() {
        vbail!("{what}: {m}");
    }
    case.count("calls");
    case.count_n("callbacks", s.calls);
    case.count_n(if collecting { "collections" } else { "changes" }, s.acts);
    case.count_n("objects_collected", s.gone);
    case.sig_bytes(format!("{name} {shape} {kind} {} {} {}", got.is_ok(), s.calls, s.acts).as_bytes());
    if s.acts > 0 {
        case.nontrivial();
    }
    if let Some(b) = &s.bad {
        vbail!("{b} ({what})");
    }
    vcheck!(w.vm.temps.is_empty(), "{what} left {} temporaries behind", w.vm.temps.len());
    vcheck!(value::guards_left() == 0, "{what} left a recursion guard behind");
    match got {
        Ok(v) => {
            vcheck!(sound_through(v, 4), "{what} answered an object that no longer exists or holds one");
            if s.acts > 0 {
                case.count("answers");
            }
            if v.try_hash_ty().is_some() && !p.all.iter().any(|k| k.v == v) {
                let mut k = Known { v, t: Table { class: v.class(), frozen: v.is_frozen(), ..Table::new(false) } };
                resync(&mut k);
                if let Err(e) = audit(w, &mut k, true, &[]) {
                    vbail!("the answer of {what}: {}", e.0);
                }
            }
        }
        Err(_) => case.count("errors"),
    }
    let acts = s.acts;
    for k in &mut p.all {
        vcheck!(sound_through(k.v, 4), "{what} left a hash holding an object that no longer exists");
        resync(k);
        if let Err(e) = audit(w, k, k.v == recv || acts > 0, &[]) {
            vbail!("after {what}: {}", e.0);
        }
    }
    // An iteration that was not ended would refuse new keys.
    if !recv.is_frozen() {
        let probe = Value::integer(77_777);
        let r = plain_call(w, "[]=", recv, &[probe, probe], false);
        crashed(Ok(()))?;
        vcheck!(r.is_ok(), "after {what} a new key is refused: {r:?}");
        plain_call(w, "delete", recv, &[probe], false).ok();
        crashed(Ok(()))?;
        resync(&mut p.all[me]);
        let k = &mut p.all[me];
        if let Err(e) = audit(w, k, true, &[]) {
            vbail!("after {what} and one more key: {}", e.0);
        }
    }
    p.pool.retain(|v| sound_through(*v, 4));
    Ok(())
}
/// Which pairs a block is shown while it changes the hash being walked.
fn visits(case: &mut Case, w: &mut World, p: &mut Play) -> Verdict {
    let open: Vec<usize> = (0..p.all.len()).filter(|i| !p.all[*i].v.is_frozen() && p.all[*i].t.pairs.len() > 1).collect();
    if open.is_empty() {
        return Ok(());
    }
    let me = *case.rng.pick(&open);
    let recv = p.all[me].v;
    let name = *case.rng.pick(&["keep_if", "delete_if", "select!", "reject!", "select", "reject", "each"]);
    let in_place = !["select", "reject", "each"].contains(&name);
    let keeps = ["keep_if", "select!", "select"].contains(&name);
    let before: Vec<(Value, Value)> = recv.as_hash().iter().collect();
    let mut rng = vh::Rng::new(case.rng.next(), 50);
    let every = 1 + rng.below(4);
    #[derive(Default)]
    struct Seen {
        shown: Vec<(Value, Value)>,
        chosen: Vec<Value>,
        gone: Vec<(Value, usize)>,
        did: Vec<String>,
        bad: Option<String>,
    }
    let seen: Rc<RefCell<Seen>> = Rc::default();
    let out = seen.clone();
    let spare = p.pool.clone();
    let what = format!("{name} on {recv:?} whose block changes it");
    case.op(|| what.clone());
    w.vm.block = Some(Box::new(move |vm: &mut Executor, g: &mut Globals, a: &[Value]| {
        let mut s = out.borrow_mut();
        let (k, v) = match a {
            [k, v] => (*k, *v),
            [one] => match one.try_array_ty() {
                Some(l) if l.len() == 2 => (l[0], l[1]),
                _ => (*one, *one),
            },
            _ => (Value::nil(), Value::nil()),
        };
        let now: Vec<(Value, Value)> = recv.as_hash().iter().collect();
        let live = now.iter().find(|q| q.0 == k);
        if in_place && s.bad.is_none() {
            match live {
                Some(q) if ident(q.1, v) => {}
                Some(q) => s.bad = Some(format!("{k:?} was shown with {v:?}, holds {:?}", q.1)),
                None => s.bad = Some(format!("{k:?} was shown although it had been deleted")),
            }
        }
        s.shown.push((k, v));
        if rng.below(every) == 0 {
            let val = if spare.is_empty() { Value::integer(5) } else { *rng.pick(&spare) };
            let any = |rng: &mut vh::Rng| if now.is_empty() { Value::integer(9) } else { rng.pick(&now).0 };
            let (op, args) = match rng.below(8) {
                0 | 1 => ("delete", vec![any(&mut rng)]),
                2 => ("delete", vec![k]),
                3 => ("shift", vec![]),
                4 if !now.is_empty() => ("[]=", vec![any(&mut rng), val]),
                5 | 6 => ("[]=", vec![Value::integer(5000 + rng.below(9) as i64), val]),
                _ => ("default=", vec![val]),
            };
            let was: Vec<Value> = recv.as_hash().keys();
            let grows = op == "[]=" && args[0].try_fixnum().is_some_and(|i| i >= 5000) && !was.contains(&args[0]);
            let (f, ar) = g.funcs[op];
            let l = layout(op, ar, &args);
            let b = vm.block.take();
            let r = f(vm, g, Lfp::new(recv, &l, false), BytecodePtr);
            vm.block = b;
            s.did.push(format!("{op} {args:?}"));
            let is: Vec<Value> = recv.as_hash().keys();
            let at = s.shown.len();
            for q in was.iter().filter(|q| !is.contains(q)) {
                s.gone.push((*q, at));
            }
            if grows && in_place | (name == "each") && s.bad.is_none() && (r.is_ok() || is.len() > was.len()) {
                s.bad = Some(format!("a new key was let in: {r:?}"));
            }
        }
        let b = rng.chance(1, 2);
        if b != keeps {
            s.chosen.push(k);
        }
        Ok(Value::bool(b))
    }));
    let got = plain_call(w, name, recv, &[], true);
    w.vm.block = None;
    crashed(Ok(()))?;
    case.count("walks-watched");
    case.nontrivial();
    let s = seen.borrow();
    let what = format!("{what} ({:?})", s.did);
    if let Some(b) = &s.bad {
        vbail!("{what}: {b}");
    }
    vcheck!(got.is_ok(), "{what} raised {got:?}");
    // In order, each once, and none left out unless it was deleted in time.
    let mut i = 0;
    for (n, (k, _)) in s.shown.iter().enumerate() {
        loop {
            vcheck!(i < before.len(), "{what}: {k:?} was shown out of turn as number {n}");
            i += 1;
            if before[i - 1].0 == *k {
                break;
            }
            let q = before[i - 1].0;
            vcheck!(s.gone.iter().any(|(g, at)| *g == q && *at <= n), "{what}: {q:?} was passed over");
        }
    }
    for (q, _) in &before[i..] {
        vcheck!(s.gone.iter().any(|(g, _)| *g == *q), "{what}: {q:?} was never shown");
    }
    // A deletion counts as long as the key is not there again.
    let left = recv.as_hash().keys();
    let out_of = |k: &Value, l: &[Value]| l.iter().any(|x| x == k);
    for (k, _) in &before {
        let gone = s.gone.iter().any(|g| g.0 == *k) || in_place && out_of(k, &s.chosen);
        vcheck!(gone || out_of(k, &left), "{what}: {k:?} is missing afterwards");
        vcheck!(!in_place || !out_of(k, &s.chosen) || !out_of(k, &left), "{what}: {k:?} is still there");
    }
    if ["select", "reject"].contains(&name) {
        let v = got.unwrap();
        let real = v.try_hash_ty().map(|h| h.keys()).unwrap_or_default();
        let want: Vec<Value> = s.shown.iter().map(|x| x.0).filter(|k| !out_of(k, &s.chosen)).collect();
        vcheck!(real.len() == want.len() && real.iter().zip(&want).all(|(a, b)| a == b), "{what} answered {v:?}, must hold {want:?}");
    }
    resync(&mut p.all[me]);
    let k = &mut p.all[me];
    if let Err(e) = audit(w, k, true, &[]) {
        vbail!("after {what}: {}", e.0);
    }
    let probe = Value::integer(77_777);
    vcheck!(plain_call(w, "[]=", recv, &[probe, probe], false).is_ok(), "after {what} a new key is refused");
    plain_call(w, "delete", recv, &[probe], false).ok();
    crashed(Ok(()))?;
    resync(&mut p.all[me]);
    Ok(())
}
fn run(case: &mut Case, w: &mut World) -> Verdict {
    reset_heap();
    smallvec::release_held();
    w.vm = Executor::default();
    COARSE.set(*case.rng.pick(&[!0, !0, 3]));
    COPIES.with_borrow_mut(|l| l.clear());
    let theme = *case.rng.pick(&[0, 0, 1, 2, 2, 2, 4, 6, 6]);
    let mut p = Play {
        pool: vec![],
        all: vec![],
        theme,
        quiet: false,
        procs: Sim { answers: vec![], salt: case.rng.next() | 1, raise_at: 0, calls: 0, compare: false, trace: vec![] },
        proc_stores: case.rng.chance(1, 3),
        fuse: Rc::default(),
    };
    for _ in 0..4 {
        let v = scalar(case, &p, 9);
        p.procs.answers.push(v);
    }
    let collecting = case.rng.chance(1, 2);
    for _ in 0..2 + case.rng.us(3) {
        let most = if case.rng.chance(1, 8) { 20 } else { 6 };
        p.all.truncate(4);
        fresh_hash(case, &mut p, most);
    }
    for k in &mut p.all {
        if case.rng.chance(1, 3) {
            let f = Value::proc(false, 2);
            plain_call(w, "default_proc=", k.v, &[f], false).ok();
            resync(k);
        }
    }
    for _ in 0..3 + case.rng.us(6) {
        if !collecting && case.rng.chance(1, 5) {
            visits(case, w, &mut p)?;
        } else {
            step(case, w, &mut p, collecting)?;
        }
        while p.all.len() > 10 {
            let i = case.rng.us(p.all.len());
            p.all.swap_remove(i);
        }
    }
    Ok(())
}
fn main() {
    let mut g = Globals::default();
    builtins::init(&mut g);
    smallvec::set_poison(true);
    let mut w = World { vm: Executor::default(), g };
    vh::main_loop("c49", move |case| {
        let r = run(case, &mut w);
        crashed(r)
    });
}
