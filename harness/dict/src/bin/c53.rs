//! C53: the methods of Rational against whole-number arithmetic.
//!
//! The native methods and the fraction type below them are compiled from the repository
//! and called with fractions, whole numbers of all sizes, floats and objects that answer
//! the questions put to them, or refuse to.
#![allow(dead_code, unused_imports)]

pub mod value {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RoundHalf {
        Up,
        Down,
        Even,
    }
    pub fn seeded_hasher() -> std::collections::hash_map::DefaultHasher {
        Default::default()
    }
}
pub mod world {
    pub use crate::value::RoundHalf;
    pub use num::BigInt;
    pub use plain_attr::monoruby_builtin;
    pub use rvalue::RationalInner;
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Kind {
        Range,
        Type,
        Argument,
        NoMethod,
        ZeroDivision,
        Scripted,
    }
    #[derive(Clone, Debug)]
    pub struct MonorubyErr {
        pub kind: Kind,
        pub msg: String,
    }
    impl MonorubyErr {
        pub fn new(kind: Kind, msg: impl ToString) -> Self {
            MonorubyErr { kind, msg: msg.to_string() }
        }
        pub fn rangeerr(m: impl ToString) -> Self {
            Self::new(Kind::Range, m)
        }
        pub fn typeerr(m: impl ToString) -> Self {
            Self::new(Kind::Type, m)
        }
        pub fn argumenterr(m: impl ToString) -> Self {
            Self::new(Kind::Argument, m)
        }
        pub fn divide_by_zero() -> Self {
            Self::new(Kind::ZeroDivision, "divided by 0")
        }
        pub fn cant_convert_into_float(_: &Globals, _: Value) -> Self {
            Self::typeerr("can't convert")
        }
    }
    pub struct RValue;
    pub struct Allocator<T>(std::marker::PhantomData<T>);
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
    pub mod rvalue {
        use super::{Allocator, GC, MonorubyErr, RValue, Result, Value};
        #[path = "/repo/monoruby/src/value/rvalue/rational.rs"]
        mod rational;
        pub use rational::*;
    }
    /// How an object takes a question.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Answer {
        /// With this value.
        With(Value),
        Raise,
        /// It has no such method.
        Missing,
    }
    #[derive(Debug)]
    pub enum Obj {
        Nil,
        Bool(bool),
        Fixnum(i64),
        Big(BigInt),
        Float(f64),
        Str(String),
        Symbol(&'static str),
        Rational(RationalInner),
        Complex(f64, f64),
        Array(Vec<Value>),
        /// Answers every question alike, but `to_int` with a number.
        Thing(Answer, Option<i64>),
    }
    #[derive(Clone, Copy)]
    pub struct Value(&'static Obj);
    impl PartialEq for Value {
        fn eq(&self, o: &Value) -> bool {
            std::ptr::eq(self.0, o.0)
        }
    }
    impl Eq for Value {}
    impl std::fmt::Debug for Value {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            match self.0 {
                Obj::Big(b) => write!(f, "{b}"),
                Obj::Fixnum(i) => write!(f, "{i}"),
                Obj::Rational(r) => write!(f, "({}/{})", r.num(), r.den()),
                o => write!(f, "{o:?}"),
            }
        }
    }
    thread_local!(static HEAP: std::cell::RefCell<Vec<*mut Obj>> = const { std::cell::RefCell::new(Vec::new()) });
    pub fn reset_heap() {
        HEAP.with_borrow_mut(|h| h.drain(..).for_each(|p| drop(unsafe { Box::from_raw(p) })));
    }
    pub enum RV<'a> {
        Nil,
        Bool(bool),
        Fixnum(i64),
        BigInt(&'a BigInt),
        Float(f64),
        Complex(()),
        String(&'a str),
        Symbol(IdentId),
        Object(()),
    }
    pub struct Array(&'static [Value]);
    impl std::ops::Deref for Array {
        type Target = [Value];
        fn deref(&self) -> &[Value] {
            self.0
        }
    }
    impl Value {
        pub fn make(o: Obj) -> Value {
            let p = Box::into_raw(Box::new(o));
            HEAP.with_borrow_mut(|h| h.push(p));
            Value(unsafe { &*p })
        }
        pub fn obj(&self) -> &'static Obj {
            self.0
        }
        pub fn nil() -> Value {
            Value::make(Obj::Nil)
        }
        pub fn bool(b: bool) -> Value {
            Value::make(Obj::Bool(b))
        }
        pub fn float(f: f64) -> Value {
            Value::make(Obj::Float(f))
        }
        pub fn complex(a: f64, b: f64) -> Value {
            Value::make(Obj::Complex(a, b))
        }
        pub fn integer(i: i64) -> Value {
            if (-(1 << 62)..1 << 62).contains(&i) { Value::make(Obj::Fixnum(i)) } else { Value::make(Obj::Big(BigInt::from(i))) }
        }
        pub fn bigint(b: BigInt) -> Value {
            match num::ToPrimitive::to_i64(&b) {
                Some(i) => Value::integer(i),
                None => Value::make(Obj::Big(b)),
            }
        }
        pub fn rational(n: impl Into<BigInt>, d: impl Into<BigInt>) -> Value {
            Value::make(Obj::Rational(RationalInner::new(n, d)))
        }
        pub fn rational_from_inner(r: RationalInner) -> Value {
            Value::make(Obj::Rational(r))
        }
        pub fn string(s: String) -> Value {
            Value::make(Obj::Str(s))
        }
        pub fn string_from_str(s: &str) -> Value {
            Value::make(Obj::Str(s.to_string()))
        }
        pub fn from_hash_digest(h: u64) -> Value {
            Value::integer((h >> 2) as i64)
        }
        pub fn is_nil(&self) -> bool {
            matches!(self.0, Obj::Nil)
        }
        pub fn as_bool(&self) -> bool {
            !matches!(self.0, Obj::Nil | Obj::Bool(false))
        }
        pub fn unpack(&self) -> RV<'static> {
            match self.0 {
                Obj::Nil => RV::Nil,
                Obj::Bool(b) => RV::Bool(*b),
                Obj::Fixnum(i) => RV::Fixnum(*i),
                Obj::Big(b) => RV::BigInt(b),
                Obj::Float(f) => RV::Float(*f),
                Obj::Str(s) => RV::String(s),
                Obj::Symbol(s) => RV::Symbol(IdentId(s)),
                Obj::Complex(..) => RV::Complex(()),
                _ => RV::Object(()),
            }
        }
        pub fn try_rational(&self) -> Option<&'static RationalInner> {
            if let Obj::Rational(r) = self.0 { Some(r) } else { None }
        }
        pub fn as_rational(&self) -> &'static RationalInner {
            self.try_rational().expect("a fraction")
        }
        pub fn try_array_ty(&self) -> Option<Array> {
            if let Obj::Array(l) = self.0 { Some(Array(l)) } else { None }
        }
        pub fn try_float(&self) -> Option<f64> {
            if let Obj::Float(f) = self.0 { Some(*f) } else { None }
        }
        pub fn try_fixnum(&self) -> Option<i64> {
            if let Obj::Fixnum(i) = self.0 { Some(*i) } else { None }
        }
        pub fn try_symbol(&self) -> Option<IdentId> {
            if let Obj::Symbol(s) = self.0 { Some(IdentId(s)) } else { None }
        }
        pub fn is_str(&self) -> Option<&'static str> {
            if let Obj::Str(s) = self.0 { Some(s) } else { None }
        }
        pub fn get_real_class_name(&self, _: &Store) -> String {
            "Object".to_string()
        }
        pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            match self.0 {
                Obj::Fixnum(i) => Ok(*i),
                Obj::Float(f) if f.is_finite() && f.abs() < 1e15 => Ok(*f as i64),
                Obj::Big(_) => Err(MonorubyErr::rangeerr("bignum too big to convert into 'long'")),
                Obj::Thing(_, Some(i)) => Ok(*i),
                _ => Err(MonorubyErr::typeerr("no implicit conversion into Integer")),
            }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct IdentId(pub &'static str);
    impl IdentId {
        pub const _EQ: IdentId = IdentId("==");
        pub const _NEQ: IdentId = IdentId("!=");
        pub const _CMP: IdentId = IdentId("<=>");
        pub const _ADD: IdentId = IdentId("+");
        pub const _SUB: IdentId = IdentId("-");
        pub const _MUL: IdentId = IdentId("*");
        pub const _DIV: IdentId = IdentId("/");
        pub const _POW: IdentId = IdentId("**");
        pub fn get_id(s: &'static str) -> IdentId {
            IdentId(s)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ClassId(pub u32);
    pub const OBJECT_CLASS: ClassId = ClassId(1);
    pub const RATIONAL_CLASS: ClassId = ClassId(2);
    #[derive(Clone, Copy)]
    pub struct Module;
    pub enum ObjTy {
        RATIONAL,
    }
    /// Notes what was asked of the objects of the test.
    #[derive(Default)]
    pub struct Executor {
        pub asked: Vec<(Value, &'static str, Vec<Value>)>,
    }
    #[derive(Clone, Copy)]
    pub struct FuncId;
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
    #[derive(Clone, Copy)]
    pub struct BlockHandler;
    impl Executor {
        pub fn invoke_method_inner(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value], b: Option<BlockHandler>, k: Option<Value>) -> Result<Value> {
            match self.invoke_method_if_exists(g, id, recv, args, b, k)? {
                Some(v) => Ok(v),
                None => Err(MonorubyErr::new(Kind::NoMethod, id.0)),
            }
        }
        pub fn invoke_method_if_exists(&mut self, _: &mut Globals, id: IdentId, recv: Value, args: &[Value], _: Option<BlockHandler>, _: Option<Value>) -> Result<Option<Value>> {
            let answer = match recv.obj() {
                Obj::Thing(Answer::Missing, _) if id.0 == "==" => Answer::With(Value::bool(recv == args[0])),
                Obj::Thing(a, _) => *a,
                _ if id.0 == "==" => Answer::With(Value::bool(recv == args[0])),
                _ => Answer::Missing,
            };
            if answer != Answer::Missing {
                self.asked.push((recv, id.0, args.to_vec()));
            }
            match answer {
                Answer::With(v) => Ok(Some(v)),
                Answer::Raise => Err(MonorubyErr::new(Kind::Scripted, "raised")),
                Answer::Missing => Ok(None),
            }
        }
    }
    #[derive(Clone, Copy)]
    pub struct Lfp(Value, &'static [Value]);
    impl Lfp {
        pub fn new(me: Value, args: Vec<Value>) -> Lfp {
            let Obj::Array(l) = Value::make(Obj::Array(args)).obj() else { unreachable!() };
            Lfp(me, l)
        }
        pub fn self_val(&self) -> Value {
            self.0
        }
        pub fn arg(&self, i: usize) -> Value {
            self.1.get(i).copied().unwrap_or_else(Value::nil)
        }
        pub fn try_arg(&self, i: usize) -> Option<Value> {
            self.1.get(i).copied()
        }
    }
    pub type Func = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;
    #[derive(Default)]
    pub struct Globals {
        pub store: Store,
        /// The function and the least and largest number of arguments.
        pub funcs: std::collections::HashMap<&'static str, (Func, usize, usize)>,
    }
    impl Globals {
        pub fn define_builtin_class(&mut self, _: &str, _: ClassId, _: Module, _: ClassId, _: ObjTy) {}
        pub fn define_builtin_func(&mut self, _: ClassId, n: &'static str, f: Func, k: usize) {
            self.funcs.insert(n, (f, k, k));
        }
        pub fn define_builtin_funcs(&mut self, c: ClassId, n: &'static str, more: &[&'static str], f: Func, k: usize) {
            self.define_builtin_func(c, n, f, k);
            for n in more {
                self.define_builtin_func(c, n, f, k);
            }
        }
        pub fn define_builtin_func_with(&mut self, _: ClassId, n: &'static str, f: Func, min: usize, max: usize, rest: bool) {
            self.funcs.insert(n, (f, min, if rest { usize::MAX } else { max }));
        }
        pub fn define_builtin_func_with_kw(&mut self, _: ClassId, n: &'static str, f: Func, min: usize, max: usize, rest: bool, _: &[&str], _: bool) {
            self.funcs.insert(n, (f, min, if rest { usize::MAX } else { max }));
        }
        pub fn define_builtin_class_func(&mut self, c: ClassId, n: &'static str, f: Func, k: usize) {
            self.define_builtin_func(c, n, f, k);
        }
        pub fn check_method(&self, v: Value, _: IdentId) -> Option<FuncId> {
            matches!(v.obj(), Obj::Thing(a, _) if *a != Answer::Missing).then_some(FuncId)
        }
    }
    #[derive(Default)]
    pub struct Store {
        info: ClassInfo,
    }
    #[derive(Default)]
    pub struct ClassInfo;
    impl ClassInfo {
        pub fn clear_alloc_func(&mut self) {}
    }
    impl std::ops::Index<ClassId> for Store {
        type Output = ClassInfo;
        fn index(&self, _: ClassId) -> &ClassInfo {
            &self.info
        }
    }
    impl std::ops::IndexMut<ClassId> for Store {
        fn index_mut(&mut self, _: ClassId) -> &mut ClassInfo {
            &mut self.info
        }
    }
}
pub mod numeric {
    use crate::world::*;
    /// Stands in for the reader of rounding modes, which floats share.
    pub mod float {
        use crate::world::*;
        pub fn parse_half_mode(v: Value) -> Result<Option<RoundHalf>> {
            Ok(match v.obj() {
                Obj::Nil => None,
                Obj::Symbol("up") => Some(RoundHalf::Up),
                Obj::Symbol("down") => Some(RoundHalf::Down),
                Obj::Symbol("even") => Some(RoundHalf::Even),
                _ => return Err(MonorubyErr::argumenterr("invalid rounding mode")),
            })
        }
    }
    #[path = "/repo/monoruby/src/builtins/numeric/rational.rs"]
    pub mod rational;
    pub fn setup(g: &mut Globals) {
        rational::init(g, Module);
    }
}

use vh::{vbail, vcheck, Case};
use world::*;

type Check<T = ()> = std::result::Result<T, vh::Violation>;
struct World {
    vm: Executor,
    g: Globals,
}
fn call(w: &mut World, name: &str, me: Value, args: Vec<Value>) -> Result<Value> {
    let Some((f, ..)) = w.g.funcs.get(name) else { panic!("Rational has no {name}") };
    w.vm.asked.clear();
    f(&mut w.vm, &mut w.g, Lfp::new(me, args), BytecodePtr)
}
fn big(i: i128) -> BigInt {
    BigInt::from_i128(i)
}
/// A fraction with a positive denominator, not always reduced.
#[derive(Clone)]
struct Q(BigInt, BigInt);
impl Q {
    fn new(n: BigInt, d: BigInt) -> Q {
        if d < big(0) { Q(-n, -d) } else { Q(n, d) }
    }
    fn int(n: BigInt) -> Q {
        Q(n, big(1))
    }
    fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        (&self.0 * &o.1).cmp(&(&o.0 * &self.1))
    }
    fn same(&self, o: &Q) -> bool {
        self.cmp(o) == std::cmp::Ordering::Equal
    }
    fn whole(&self) -> bool {
        &self.0 % &self.1 == big(0)
    }
    fn value(&self) -> Value {
        Value::rational(self.0.clone(), self.1.clone())
    }
    /// Correctly rounded, if both halves are exact floats.
    fn f(&self) -> Option<f64> {
        let (n, d) = (self.0.to_i128()?, self.1.to_i128()?);
        let lim = 1i128 << 53;
        (n.abs() <= lim && d <= lim).then(|| n as f64 / d as f64)
    }
    /// The largest whole number not above it.
    fn floor(&self) -> BigInt {
        let q = &self.0 / &self.1;
        if &q * &self.1 > self.0 { q - big(1) } else { q }
    }
}
fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.clone(), b.clone());
    while b != big(0) {
        let r = &a % &b;
        a = b;
        b = r;
    }
    if a < big(0) { -a } else { a }
}
fn int_of(v: Value) -> Option<BigInt> {
    match v.obj() {
        Obj::Fixnum(i) => Some(BigInt::from(*i)),
        Obj::Big(b) => Some(b.clone()),
        _ => None,
    }
}
/// It must be a fraction in lowest terms equal to `want`.
fn fraction(case: &mut Case, got: &Result<Value>, want: &Q, what: &str) -> Check {
    let Some(r) = got.as_ref().ok().and_then(|v| v.try_rational()) else { vbail!("{what} gave {got:?}, must be {}/{}", want.0, want.1) };
    vcheck!(Q(r.num().clone(), r.den().clone()).same(want), "{what} is {got:?}, must be {}/{}", want.0, want.1);
    vcheck!(*r.den() > big(0) && gcd(r.num(), r.den()) == big(1), "{what} is {got:?}, not in lowest terms");
    case.count("fractions");
    Ok(())
}
fn whole(case: &mut Case, got: &Result<Value>, want: &BigInt, what: &str) -> Check {
    let i = got.as_ref().ok().and_then(|v| int_of(*v));
    vcheck!(i.as_ref() == Some(want), "{what} gave {got:?}, must be {want}");
    case.count("whole-numbers");
    Ok(())
}
fn truth(case: &mut Case, got: &Result<Value>, want: bool, what: &str) -> Check {
    vcheck!(matches!(got, Ok(v) if matches!(v.obj(), Obj::Bool(b) if *b == want)), "{what} gave {got:?}, must be {want}");
    case.count("truths");
    Ok(())
}
fn float(case: &mut Case, got: &Result<Value>, want: f64, what: &str) -> Check {
    let y = got.as_ref().ok().and_then(|v| v.try_float());
    vcheck!(matches!(y, Some(y) if y == want || y.is_nan() && want.is_nan()), "{what} gave {got:?}, must be {want:?}");
    case.count("floats");
    Ok(())
}
fn refused(case: &mut Case, got: &Result<Value>, kinds: &[Kind], what: &str) -> Check {
    vcheck!(matches!(got, Err(e) if kinds.contains(&e.kind)), "{what} gave {got:?}, must raise one of {kinds:?}");
    case.count("refused");
    Ok(())
}
fn draw_int(case: &mut Case) -> BigInt {
    let r = &mut case.rng;
    let n = match r.below(12) {
        0 => big(0),
        1 => big(1),
        2 => big((1 << 62) - 1 + r.below(3) as i128),
        3 => big(1 << 62) * big(1 + r.below(1 << 40) as i128) + big(r.below(1000) as i128),
        4 => big(r.below(1 << 40) as i128),
        5 => big(10i128.pow(r.below(12) as u32) * (1 + r.below(9) as i128)),
        _ => big(r.below(40) as i128),
    };
    if r.chance(2, 5) { -n } else { n }
}
fn draw(case: &mut Case) -> Q {
    let n = draw_int(case);
    let d = match case.rng.below(4) {
        0 => big(1),
        // Halves and decimals, for ties.
        1 => big(2 * 10i128.pow(case.rng.below(4) as u32)),
        2 => big(1 + case.rng.below(30) as i128),
        _ => {
            let d = draw_int(case);
            if d == big(0) { big(3) } else { d }
        }
    };
    Q::new(n, d)
}
fn draw_float(case: &mut Case) -> f64 {
    match case.rng.below(8) {
        0 => *case.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e300, 5e-324]),
        1 | 2 => case.rng.below(9) as f64 / 4.0 - 1.0,
        _ => (case.rng.below(2000) as f64 - 1000.0) / (1.0 + case.rng.below(16) as f64),
    }
}
/// The other side of an operator.
enum Side {
    Exact(Q),
    Float(f64),
    /// Not a number, and what it answers.
    Thing(Answer),
}
fn draw_side(case: &mut Case, a: &Q) -> (Value, Side) {
    let near = case.rng.chance(1, 4);
    match case.rng.below(10) {
        0..=2 => {
            let k = 1 + case.rng.below(3) as i128;
            let q = if near { Q(&a.0 * &big(k), &a.1 * &big(k)) } else { draw(case) };
            (q.value(), Side::Exact(q))
        }
        3..=5 => {
            let n = if near { a.floor() + big(case.rng.below(2) as i128) } else { draw_int(case) };
            (Value::bigint(n.clone()), Side::Exact(Q::int(n)))
        }
        6 | 7 => {
            let f = match a.f() {
                Some(f) if near => f,
                _ => draw_float(case),
            };
            (Value::float(f), Side::Float(f))
        }
        8 => {
            let answer = match case.rng.below(6) {
                0 => Answer::Raise,
                1 => Answer::Missing,
                2 => Answer::With(Value::bool(case.rng.chance(1, 2))),
                3 => Answer::With(Value::nil()),
                _ => {
                    let token = Value::make(Obj::Str("answer".into()));
                    let first = Value::make(Obj::Thing(Answer::With(token), None));
                    let n = *case.rng.pick(&[2, 2, 2, 1, 3]);
                    let mut l = vec![first];
                    while l.len() < n {
                        l.push(Value::integer(l.len() as i64));
                    }
                    Answer::With(Value::make(Obj::Array(l)))
                }
            };
            (Value::make(Obj::Thing(answer, None)), Side::Thing(answer))
        }
        _ => {
            let v = *case.rng.pick(&[Value::nil(), Value::make(Obj::Str("1".into())), Value::make(Obj::Symbol("up"))]);
            (v, Side::Thing(Answer::Missing))
        }
    }
}
/// What an operator makes of an object that is no number: it is asked to coerce the
/// fraction, and the pair it gives is asked to do the rest.
fn handed_over(case: &mut Case, w: &World, got: &Result<Value>, op: &str, me: Value, v: Value, answer: Answer, what: &str) -> Check {
    let asked = &w.vm.asked;
    match answer {
        Answer::Missing if op == "<=>" => {
            vcheck!(matches!(got, Ok(v) if v.is_nil()), "{what} gave {got:?}, must be nil");
        }
        Answer::Missing => refused(case, got, &[Kind::Type, Kind::NoMethod], what)?,
        _ => vcheck!(asked.first().is_some_and(|(r, n, a)| *r == v && *n == "coerce" && a[..] == [me]), "{what} did not ask to coerce first: {asked:?}"),
    }
    match answer {
        Answer::Raise => refused(case, got, &[Kind::Scripted], what)?,
        Answer::With(pair) => match pair.obj() {
            Obj::Array(l) if l.len() == 2 => {
                let Obj::Thing(Answer::With(token), _) = l[0].obj() else { unreachable!() };
                vcheck!(asked.len() == 2 && asked[1].0 == l[0] && asked[1].1 == op && asked[1].2[..] == [l[1]], "{what} asked {asked:?}");
                vcheck!(matches!(got, Ok(v) if v == token), "{what} gave {got:?}, not the answer");
                case.count("handed-over");
            }
            _ if op == "<=>" => {
                vcheck!(asked.len() == 1 && matches!(got, Ok(v) if v.is_nil()), "{what} gave {got:?} after {asked:?}");
            }
            _ => refused(case, got, &[Kind::Type], what)?,
        },
        Answer::Missing => (),
    }
    Ok(())
}
fn binary(case: &mut Case, w: &mut World) -> Check {
    let a = draw(case);
    let me = a.value();
    let (v, side) = draw_side(case, &a);
    let op = *case.rng.pick(&["+", "-", "*", "/", "quo", "==", "!=", "<=>", "eql?"]);
    let what = format!("{me:?} {op} {v:?}");
    case.op(|| what.clone());
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let got = call(w, op, me, vec![v]);
    let plain = if op == "quo" { "/" } else { op };
    use std::cmp::Ordering::*;
    match (op, side) {
        ("eql?", side) => {
            let same = matches!(&side, Side::Exact(b) if v.try_rational().is_some() && a.same(b));
            truth(case, &got, same, &what)
        }
        ("==" | "!=", side) => {
            let same = match side {
                Side::Exact(b) => a.same(&b),
                Side::Float(f) => match a.f() {
                    Some(x) => x == f,
                    None => return Ok(()),
                },
                Side::Thing(Answer::Raise) => return refused(case, &got, &[Kind::Scripted], &what),
                Side::Thing(Answer::Missing) => false,
                Side::Thing(Answer::With(b)) => {
                    let asked = &w.vm.asked;
                    vcheck!(asked.len() == 1 && asked[0].0 == v && asked[0].1 == "==" && asked[0].2[..] == [me], "{what} asked {asked:?}");
                    case.count("asked-equal");
                    b.as_bool()
                }
            };
            truth(case, &got, same == (op == "=="), &what)
        }
        ("<=>", Side::Exact(b)) => whole(case, &got, &big(a.cmp(&b) as i128), &what),
        ("<=>", Side::Float(f)) => match a.f().map(|x| x.partial_cmp(&f)) {
            Some(Some(o)) => whole(case, &got, &big(o as i128), &what),
            Some(None) => {
                vcheck!(matches!(&got, Ok(v) if v.is_nil()), "{what} gave {got:?}, must be nil");
                Ok(())
            }
            None => Ok(()),
        },
        (_, Side::Exact(b)) => {
            let want = match plain {
                "+" => Q(&a.0 * &b.1 + &b.0 * &a.1, &a.1 * &b.1),
                "-" => Q(&a.0 * &b.1 - &b.0 * &a.1, &a.1 * &b.1),
                "*" => Q(&a.0 * &b.0, &a.1 * &b.1),
                _ if b.0 == big(0) => return refused(case, &got, &[Kind::ZeroDivision], &what),
                _ => Q::new(&a.0 * &b.1, &a.1 * &b.0),
            };
            fraction(case, &got, &want, &what)
        }
        (_, Side::Float(f)) => {
            let Some(x) = a.f() else { return Ok(()) };
            let want = match plain {
                "+" => x + f,
                "-" => x - f,
                "*" => x * f,
                _ => x / f,
            };
            float(case, &got, want, &what)
        }
        (_, Side::Thing(answer)) => handed_over(case, w, &got, plain, me, v, answer, &what),
    }
}
fn power(case: &mut Case, w: &mut World) -> Check {
    let a = match case.rng.below(6) {
        0 => Q::int(big(case.rng.below(3) as i128 - 1)),
        1 => draw(case),
        _ => Q(big(case.rng.below(41) as i128 - 20), big(1 + case.rng.below(12) as i128)),
    };
    let me = a.value();
    let (mut v, mut side) = draw_side(case, &a);
    if let Side::Exact(_) = side {
        // Whole powers, as whole number or fraction, near and far, and roots.
        let e = match case.rng.below(8) {
            0 => big((1 << 32) + case.rng.below(7) as i128),
            1 => {
                let bits = 31 + case.rng.below(60);
                big(1 << bits) * big(2) + big(case.rng.below(4) as i128)
            }
            _ => big(case.rng.below(13) as i128),
        };
        let e = if case.rng.chance(1, 2) { -e } else { e };
        let near = e < big(100) && e > big(-100);
        let d = if near && case.rng.chance(1, 4) { big(2 + case.rng.below(4) as i128) } else { big(1) };
        let q = Q(e, d);
        v = if q.1 == big(1) && case.rng.chance(2, 3) { Value::bigint(q.0.clone()) } else { q.value() };
        side = Side::Exact(q);
    }
    let what = format!("{me:?} ** {v:?}");
    let far = matches!(&side, Side::Exact(q) if q.0 > big(1 << 31) || q.0 < big(-(1 << 31)));
    case.op(|| what.clone());
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let got = call(w, "**", me, vec![v]);
    let (x, f) = match side {
        Side::Thing(answer) => return handed_over(case, w, &got, "**", me, v, answer, &what),
        Side::Float(f) => match a.f() {
            Some(x) => (x, f),
            None => return Ok(()),
        },
        Side::Exact(q) => {
            if a.0 == big(0) && q.0 < big(0) {
                return refused(case, &got, &[Kind::ZeroDivision], &what);
            }
            if q.whole() {
                let e = &q.0 / &q.1;
                let one = a.0 == a.1 || a.0 == -&a.1;
                if e == big(0) {
                    return fraction(case, &got, &Q::int(big(1)), &what);
                }
                if one || a.0 == big(0) {
                    let odd = &e % &big(2) != big(0);
                    case.count("powers-of-units");
                    return fraction(case, &got, &if odd { a } else { Q(&a.0 * &a.0, &a.1 * &a.1) }, &what);
                }
                if far {
                    case.count("far-powers");
                    return refused(case, &got, &[Kind::Argument], &what);
                }
                let (mut n, mut d) = (big(1), big(1));
                let k = e.to_i128().unwrap();
                for _ in 0..k.abs() {
                    n = &n * &a.0;
                    d = &d * &a.1;
                }
                case.count("powers");
                return fraction(case, &got, &if k < 0 { Q::new(d, n) } else { Q(n, d) }, &what);
            }
            match (a.f(), q.f()) {
                (Some(x), Some(f)) => (x, f),
                _ => return Ok(()),
            }
        }
    };
    if f.is_nan() {
        return Ok(());
    }
    let close = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1e-12);
    if x < 0.0 && f.is_finite() && f != f.round() {
        let r = (-x).powf(f);
        let (c, s) = (r * (f * std::f64::consts::PI).cos(), r * (f * std::f64::consts::PI).sin());
        let off = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-9 * r;
        vcheck!(matches!(&got, Ok(v) if matches!(v.obj(), Obj::Complex(a, b) if off(*a, c) && off(*b, s))), "{what} gave {got:?}, must be {c:?} and {s:?}");
        case.count("complex-powers");
    } else {
        let want = x.powf(f);
        vcheck!(matches!(&got, Ok(v) if matches!(v.try_float(), Some(y) if close(y, want))), "{what} gave {got:?}, must be {want:?}");
        case.count("float-powers");
    }
    Ok(())
}
fn rounding(case: &mut Case, w: &mut World) -> Check {
    let a = draw(case);
    let me = a.value();
    let op = *case.rng.pick(&["floor", "ceil", "truncate", "round", "round"]);
    let k = if case.rng.chance(1, 3) { 0 } else { case.rng.below(9) as i64 - 4 };
    let strict = op == "truncate";
    let mut bad: &[Kind] = &[];
    let mut args = match case.rng.below(8) {
        0 if !strict => vec![Value::make(Obj::Thing(Answer::Missing, Some(k)))],
        1 => {
            bad = &[Kind::Type];
            vec![*case.rng.pick(&[Value::nil(), Value::make(Obj::Str("1".into()))])]
        }
        2 if k == 0 => vec![],
        _ => vec![Value::integer(k)],
    };
    let mut half = "up";
    if op == "round" && !args.is_empty() && case.rng.chance(2, 3) {
        half = *case.rng.pick(&["up", "down", "even", "even", "nil", "sideways"]);
        args.push(if half == "nil" { Value::nil() } else { Value::make(Obj::Symbol(half)) });
        if half == "sideways" && bad.is_empty() {
            bad = &[Kind::Argument];
        }
    }
    let what = format!("{me:?}.{op}({args:?})");
    case.op(|| what.clone());
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let got = call(w, op, me, args);
    if !bad.is_empty() {
        return refused(case, &got, &[Kind::Type, Kind::Argument], &what);
    }
    let ten = big(10i128.pow(k.unsigned_abs() as u32));
    // In units of the last place.
    let u = if k >= 0 { Q(&a.0 * &ten, a.1.clone()) } else { Q(a.0.clone(), &a.1 * &ten) };
    let low = u.floor();
    let up = &low + &big(1);
    let neg = u.0 < big(0);
    let n = if u.whole() {
        low
    } else {
        match op {
            "floor" => low,
            "ceil" => up,
            "truncate" => if neg { up } else { low },
            _ => {
                // Twice the rest against the unit.
                let rest = Q((&u.0 - &(&low * &u.1)) * big(2), u.1.clone());
                match (rest.cmp(&Q::int(big(1))), half) {
                    (std::cmp::Ordering::Less, _) => low,
                    (std::cmp::Ordering::Greater, _) => up,
                    (_, "even") => {
                        case.count("ties");
                        if &low % &big(2) == big(0) { low } else { up }
                    }
                    (_, h) => {
                        case.count("ties");
                        if neg == (h == "down") { up } else { low }
                    }
                }
            }
        }
    };
    case.count("rounded");
    if k > 0 { fraction(case, &got, &Q(n, ten), &what) } else { whole(case, &got, &(n * ten), &what) }
}
fn unary(case: &mut Case, w: &mut World) -> Check {
    let a = draw(case);
    let me = a.value();
    let what = format!("{me:?}");
    case.op(|| format!("methods of {}/{}", a.0, a.1));
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    // Made from two whole numbers of either sign.
    let minus = case.rng.chance(1, 2);
    let (n, d) = if minus { (-&a.0, -&a.1) } else { (a.0.clone(), a.1.clone()) };
    let made = call(w, "__allocate", Value::nil(), vec![Value::bigint(n), Value::bigint(d)]);
    fraction(case, &made, &a, &format!("the fraction of {}/{}", a.0, a.1))?;
    let odd = *case.rng.pick(&[Value::nil(), Value::float(1.0), Value::make(Obj::Str("1".into()))]);
    let one = Value::integer(1);
    let pair = if minus { vec![odd, one] } else { vec![one, odd] };
    let got = call(w, "__allocate", Value::nil(), pair);
    refused(case, &got, &[Kind::Type], "a fraction of no whole numbers")?;
    let g = gcd(&a.0, &a.1);
    let (n, d) = (&a.0 / &g, &a.1 / &g);
    let neg = n < big(0);
    let abs = if neg { -&n } else { n.clone() };
    let got = call(w, "numerator", me, vec![]);
    whole(case, &got, &n, &format!("{what}.numerator"))?;
    let got = call(w, "denominator", me, vec![]);
    whole(case, &got, &d, &format!("{what}.denominator"))?;
    let got = call(w, "to_i", me, vec![]);
    let q = &abs / &d;
    whole(case, &got, &if neg { -q } else { q }, &format!("{what}.to_i"))?;
    if let Some(x) = a.f() {
        let got = call(w, "to_f", me, vec![]);
        float(case, &got, x, &format!("{what}.to_f"))?;
    }
    for (m, want) in [("to_s", format!("{n}/{d}")), ("inspect", format!("({n}/{d})"))] {
        let got = call(w, m, me, vec![]);
        vcheck!(matches!(&got, Ok(v) if v.is_str() == Some(&want)), "{what}.{m} gave {got:?}");
    }
    let got = call(w, "-@", me, vec![]);
    fraction(case, &got, &Q(-&n, d.clone()), &format!("-{what}"))?;
    let got = call(w, "abs", me, vec![]);
    fraction(case, &got, &Q(abs, d.clone()), &format!("{what}.abs"))?;
    for (m, want) in [("zero?", n == big(0)), ("positive?", n > big(0)), ("negative?", neg)] {
        let got = call(w, m, me, vec![]);
        truth(case, &got, want, &format!("{what}.{m}"))?;
    }
    // Equal fractions, and only those, belong in one place of a hash.
    let b = draw(case);
    let h = |w: &mut World, v: Value| call(w, "hash", v, vec![]).ok().and_then(int_of);
    let twin = Q(&a.0 * &big(3), &a.1 * &big(3)).value();
    let (x, y, z) = (h(w, me), h(w, twin), h(w, b.value()));
    vcheck!(x.is_some() && x == y, "{what} and its equal hash to {x:?} and {y:?}");
    vcheck!(a.same(&b) == (x == z), "{what} and {:?} hash to {x:?} and {z:?}", b.value());
    case.count("hashes");
    // As many arguments as Ruby takes.
    case.count("argument-counts");
    for (m, min, max) in [
        ("numerator", 0, 0), ("denominator", 0, 0), ("to_f", 0, 0), ("to_i", 0, 0), ("to_s", 0, 0), ("inspect", 0, 0),
        ("==", 1, 1), ("<=>", 1, 1), ("+", 1, 1), ("-", 1, 1), ("*", 1, 1), ("/", 1, 1), ("quo", 1, 1), ("**", 1, 1),
        ("-@", 0, 0), ("abs", 0, 0), ("floor", 0, 1), ("ceil", 0, 1), ("truncate", 0, 1), ("round", 0, 1), ("hash", 0, 0),
        ("zero?", 0, 0), ("positive?", 0, 0), ("negative?", 0, 0), ("!=", 1, 1), ("eql?", 1, 1),
    ] {
        if let Some((_, lo, hi)) = w.g.funcs.get(m) {
            vcheck!((*lo, *hi) == (min, max), "Rational#{m} takes {lo} to {hi} arguments, must take {min} to {max}");
        }
    }
    Ok(())
}
fn main() {
    let mut g = Globals::default();
    numeric::setup(&mut g);
    let mut w = World { vm: Executor::default(), g };
    vh::main_loop("c53", move |case| {
        w.vm.asked.clear();
        reset_heap();
        match case.rng.below(10) {
            0..=4 => binary(case, &mut w),
            5 | 6 => power(case, &mut w),
            7 | 8 => rounding(case, &mut w),
            _ => unary(case, &mut w),
        }
    });
}
