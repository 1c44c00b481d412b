//! C27: seeded random streams against a word-by-word reference.
#![allow(dead_code, unused_imports, clippy::all)]
use plain_attr::monoruby_builtin;
use vh::{vbail, vcheck, veq, Case, Rng, Verdict, Violation};

/// Integers as little-endian 32-bit digits: what the generator needs of the bignum crate.
pub mod num {
    pub use self::bigint::{BigInt, BigUint};
    pub use self::bigint::{One, Signed, ToPrimitive, Zero};
    pub mod bigint {
        use std::cmp::Ordering;
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum Sign {
            Minus,
            NoSign,
            Plus,
        }
        #[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
        pub struct BigUint(pub Vec<u32>);
        #[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
        pub struct BigInt {
            pub neg: bool,
            pub d: Vec<u32>,
        }
        fn trim(mut d: Vec<u32>) -> Vec<u32> {
            while d.last() == Some(&0) {
                d.pop();
            }
            d
        }
        fn cmp(a: &[u32], b: &[u32]) -> Ordering {
            a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
        }
        fn plus(a: &[u32], b: &[u32]) -> Vec<u32> {
            let mut c = 0u64;
            let mut out = vec![];
            for i in 0..a.len().max(b.len()) {
                c += *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
                out.push(c as u32);
                c >>= 32;
            }
            out.push(c as u32);
            trim(out)
        }
        fn minus(a: &[u32], b: &[u32]) -> Vec<u32> {
            let mut c = 0i64;
            let mut out = vec![];
            for i in 0..a.len() {
                c += a[i] as i64 - *b.get(i).unwrap_or(&0) as i64;
                out.push(c as u32);
                c >>= 32;
            }
            assert_eq!(c, 0);
            trim(out)
        }
        impl BigInt {
            pub fn make(neg: bool, d: Vec<u32>) -> Self {
                let d = trim(d);
                BigInt { neg: neg && !d.is_empty(), d }
            }
            pub fn sign(&self) -> Sign {
                if self.d.is_empty() { Sign::NoSign } else if self.neg { Sign::Minus } else { Sign::Plus }
            }
            pub fn new(s: Sign, d: Vec<u32>) -> Self {
                Self::make(s == Sign::Minus, if s == Sign::NoSign { vec![] } else { d })
            }
            pub fn from_slice(s: Sign, d: &[u32]) -> Self {
                Self::new(s, d.to_vec())
            }
            pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
                (self.sign(), self.d.clone())
            }
            pub fn iter_u32_digits(&self) -> std::vec::IntoIter<u32> {
                self.d.clone().into_iter()
            }
            pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
                let mut b: Vec<u8> = self.d.iter().flat_map(|w| w.to_le_bytes()).collect();
                while b.len() > 1 && b.last() == Some(&0) {
                    b.pop();
                }
                if b.is_empty() {
                    b.push(0);
                }
                (self.sign(), b)
            }
            pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
                let (s, mut b) = self.to_bytes_le();
                b.reverse();
                (s, b)
            }
            pub fn from_bytes_le(s: Sign, b: &[u8]) -> Self {
                let d = b
                    .chunks(4)
                    .map(|c| {
                        let mut w = [0; 4];
                        w[..c.len()].copy_from_slice(c);
                        u32::from_le_bytes(w)
                    })
                    .collect();
                Self::new(s, d)
            }
            pub fn from_bytes_be(s: Sign, b: &[u8]) -> Self {
                let mut b = b.to_vec();
                b.reverse();
                Self::from_bytes_le(s, &b)
            }
            pub fn from_biguint(s: Sign, u: BigUint) -> Self {
                Self::new(s, u.0)
            }
            pub fn magnitude(&self) -> &BigUint {
                unsafe { &*(&self.d as *const Vec<u32> as *const BigUint) }
            }
            pub fn to_biguint(&self) -> Option<BigUint> {
                (!self.neg).then(|| BigUint(self.d.clone()))
            }
            pub fn bits(&self) -> u64 {
                self.d.last().map_or(0, |t| self.d.len() as u64 * 32 - t.leading_zeros() as u64)
            }
            pub fn to_i128(&self) -> Option<i128> {
                if self.d.len() > 3 {
                    return None;
                }
                let v = self.d.iter().rev().fold(0i128, |a, w| (a << 32) | *w as i128);
                Some(if self.neg { -v } else { v })
            }
        }
        impl BigUint {
            pub fn to_u32_digits(&self) -> Vec<u32> {
                self.0.clone()
            }
            pub fn iter_u32_digits(&self) -> std::vec::IntoIter<u32> {
                self.0.clone().into_iter()
            }
            pub fn new(d: Vec<u32>) -> Self {
                BigUint(trim(d))
            }
            pub fn from_slice(d: &[u32]) -> Self {
                BigUint(trim(d.to_vec()))
            }
            pub fn to_bytes_le(&self) -> Vec<u8> {
                BigInt::make(false, self.0.clone()).to_bytes_le().1
            }
        }
        impl std::fmt::Display for BigInt {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{}{:x?}", if self.neg { "-" } else { "" }, self.d)
            }
        }
        impl PartialOrd for BigInt {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(Ord::cmp(self, o))
            }
        }
        impl Ord for BigInt {
            fn cmp(&self, o: &Self) -> Ordering {
                match (self.neg, o.neg) {
                    (false, false) => cmp(&self.d, &o.d),
                    (true, true) => cmp(&o.d, &self.d),
                    (false, true) => Ordering::Greater,
                    (true, false) => Ordering::Less,
                }
            }
        }
        fn sum(a: &BigInt, b: &BigInt, flip: bool) -> BigInt {
            let bn = b.neg != flip && !b.d.is_empty();
            if a.neg == bn {
                return BigInt::make(bn, plus(&a.d, &b.d));
            }
            match cmp(&a.d, &b.d) {
                Ordering::Less => BigInt::make(bn, minus(&b.d, &a.d)),
                _ => BigInt::make(a.neg, minus(&a.d, &b.d)),
            }
        }
        macro_rules! ops {
            ($($t:ty),*) => {$(
                impl From<$t> for BigInt {
                    fn from(v: $t) -> Self {
                        let neg = (v as i128) < 0 && <$t>::MIN != 0;
                        let mut m = if neg { (v as i128).unsigned_abs() } else { v as u128 };
                        let mut d = vec![];
                        while m != 0 {
                            d.push(m as u32);
                            m >>= 32;
                        }
                        BigInt::make(neg, d)
                    }
                }
                impl std::ops::Add<$t> for BigInt { type Output = BigInt; fn add(self, o: $t) -> BigInt { sum(&self, &o.into(), false) } }
                impl std::ops::Add<$t> for &BigInt { type Output = BigInt; fn add(self, o: $t) -> BigInt { sum(self, &o.into(), false) } }
                impl std::ops::Sub<$t> for BigInt { type Output = BigInt; fn sub(self, o: $t) -> BigInt { sum(&self, &o.into(), true) } }
                impl std::ops::Sub<$t> for &BigInt { type Output = BigInt; fn sub(self, o: $t) -> BigInt { sum(self, &o.into(), true) } }
            )*};
        }
        ops!(i32, u32, i64, u64, i128, u128, usize);
        macro_rules! refs {
            ($($a:ty, $b:ty;)*) => {$(
                impl std::ops::Add<$b> for $a { type Output = BigInt; fn add(self, o: $b) -> BigInt { sum(&self, &o, false) } }
                impl std::ops::Sub<$b> for $a { type Output = BigInt; fn sub(self, o: $b) -> BigInt { sum(&self, &o, true) } }
            )*};
        }
        refs!(BigInt, BigInt; BigInt, &BigInt; &BigInt, BigInt; &BigInt, &BigInt;);
        pub trait Signed {
            fn abs(&self) -> Self;
            fn is_negative(&self) -> bool;
            fn is_positive(&self) -> bool;
        }
        impl Signed for BigInt {
            fn abs(&self) -> Self {
                BigInt::make(false, self.d.clone())
            }
            fn is_negative(&self) -> bool {
                self.neg
            }
            fn is_positive(&self) -> bool {
                !self.neg && !self.d.is_empty()
            }
        }
        pub trait Zero {
            fn zero() -> Self;
            fn is_zero(&self) -> bool;
        }
        impl Zero for BigInt {
            fn zero() -> Self {
                BigInt::default()
            }
            fn is_zero(&self) -> bool {
                self.d.is_empty()
            }
        }
        pub trait One {
            fn one() -> Self;
        }
        impl One for BigInt {
            fn one() -> Self {
                1i64.into()
            }
        }
        pub trait ToPrimitive {
            fn to_i64(&self) -> Option<i64>;
            fn to_u64(&self) -> Option<u64>;
            fn to_u32(&self) -> Option<u32>;
        }
        impl ToPrimitive for BigInt {
            fn to_i64(&self) -> Option<i64> {
                self.to_i128().and_then(|v| v.try_into().ok())
            }
            fn to_u64(&self) -> Option<u64> {
                self.to_i128().and_then(|v| v.try_into().ok())
            }
            fn to_u32(&self) -> Option<u32> {
                self.to_i128().and_then(|v| v.try_into().ok())
            }
        }
    }
}
use num::bigint::BigInt;

pub mod getrandom {
    pub fn fill(b: &mut [u8]) -> Result<(), String> {
        let n = unsafe { libc::getrandom(b.as_mut_ptr() as *mut _, b.len(), 0) };
        if n == b.len() as isize { Ok(()) } else { Err("no entropy".into()) }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Value {
    Nil,
    Bool(bool),
    Fix(i64),
    Float(f64),
    Big(&'static BigInt),
    Bytes(&'static [u8]),
    Range(&'static RangeInner),
    /// an object: number and class
    Obj(u32, u32),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct RangeInner(Value, Value, bool);
impl RangeInner {
    pub fn start(&self) -> Value {
        self.0
    }
    pub fn end(&self) -> Value {
        self.1
    }
    pub fn exclude_end(&self) -> bool {
        self.2
    }
}
pub enum RV<'a> {
    Nil,
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
    Object(u32),
}
impl Value {
    pub fn integer(i: i64) -> Self {
        if (-(1 << 62)..(1 << 62)).contains(&i) { Value::Fix(i) } else { Value::Big(Box::leak(Box::new(BigInt::from(i)))) }
    }
    pub fn bigint(b: BigInt) -> Self {
        use num::ToPrimitive;
        match b.to_i64() {
            Some(i) => Value::integer(i),
            None => Value::Big(Box::leak(Box::new(b))),
        }
    }
    pub fn float(f: f64) -> Self {
        Value::Float(f)
    }
    pub fn bool(b: bool) -> Self {
        Value::Bool(b)
    }
    pub fn nil() -> Self {
        Value::Nil
    }
    pub fn bytes(v: Vec<u8>) -> Self {
        Value::Bytes(v.leak())
    }
    pub fn unpack(&self) -> RV<'_> {
        match self {
            Value::Fix(i) => RV::Fixnum(*i),
            Value::Big(b) => RV::BigInt(b),
            Value::Float(f) => RV::Float(*f),
            Value::Obj(n, _) => RV::Object(*n),
            _ => RV::Nil,
        }
    }
    pub fn try_fixnum(self) -> Option<i64> {
        if let Value::Fix(i) = self { Some(i) } else { None }
    }
    pub fn try_float(self) -> Option<f64> {
        if let Value::Float(f) = self { Some(f) } else { None }
    }
    pub fn is_float(self) -> bool {
        matches!(self, Value::Float(_))
    }
    pub fn is_range(&self) -> Option<&RangeInner> {
        if let Value::Range(r) = self { Some(r) } else { None }
    }
    pub fn class(self) -> u32 {
        if let Value::Obj(_, c) = self { c } else { 0 }
    }
    pub fn coerce_to_int_i64(self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
        self.try_fixnum().ok_or(MonorubyErr("no conversion".into()))
    }
    fn big(self) -> Option<BigInt> {
        match self {
            Value::Fix(i) => Some(i.into()),
            Value::Big(b) => Some(b.clone()),
            _ => None,
        }
    }
}
#[derive(Debug)]
pub struct MonorubyErr(String);
pub type Result<T> = std::result::Result<T, MonorubyErr>;
impl MonorubyErr {
    pub fn argumenterr(s: impl Into<String>) -> Self {
        MonorubyErr(s.into())
    }
    pub fn runtimeerr(s: impl Into<String>) -> Self {
        MonorubyErr(s.into())
    }
    pub fn rangeerr(s: impl Into<String>) -> Self {
        MonorubyErr(s.into())
    }
    pub fn no_implicit_conversion(_: &Store, _: Value, _: u32) -> Self {
        MonorubyErr("no implicit conversion".into())
    }
}
pub const INTEGER_CLASS: u32 = 1;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct IdentId(u64);
impl IdentId {
    pub const TO_INT: IdentId = IdentId(u64::MAX);
    pub fn get_id(s: &str) -> Self {
        if s == "to_int" {
            return Self::TO_INT;
        }
        IdentId(s.bytes().fold(7, |h: u64, b| h.wrapping_mul(131).wrapping_add(b as u64)))
    }
}
pub struct Executor;
impl Executor {
    /// `to_int` of the argument objects used here.
    pub fn invoke_method_inner(&mut self, _: &mut Globals, name: IdentId, recv: Value, _: &[Value], _: Option<()>, _: Option<()>) -> Result<Value> {
        match recv {
            Value::Float(f) if name == IdentId::TO_INT => Ok(Value::integer(f as i64)),
            Value::Obj(n, 99) if name == IdentId::TO_INT => Ok(Value::integer(n as i64)),
            _ => Err(MonorubyErr("undefined method".into())),
        }
    }
    pub fn invoke_func_inner(&mut self, g: &mut Globals, _: u32, recv: Value, a: &[Value], b: Option<()>, c: Option<()>) -> Result<Value> {
        self.invoke_method_inner(g, IdentId::TO_INT, recv, a, b, c)
    }
}
#[derive(Clone, Copy)]
pub struct BytecodePtr;
#[derive(Clone, Copy)]
pub struct Lfp(Value, Option<Value>);
impl Lfp {
    pub fn self_val(&self) -> Value {
        self.0
    }
    pub fn try_arg(&self, _: usize) -> Option<Value> {
        self.1
    }
    pub fn arg(&self, _: usize) -> Value {
        self.1.unwrap()
    }
}
#[derive(Default)]
pub struct Store {
    ivars: std::collections::HashMap<(u32, IdentId), Value>,
}
impl Store {
    pub fn get_ivar(&self, v: Value, id: IdentId) -> Option<Value> {
        let Value::Obj(n, _) = v else { return None };
        self.ivars.get(&(n, id)).copied()
    }
    pub fn set_ivar(&mut self, v: Value, id: IdentId, val: Value) -> Result<()> {
        let Value::Obj(n, _) = v else { panic!("not an object") };
        self.ivars.insert((n, id), val);
        Ok(())
    }
}
type Func = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;
pub struct Globals {
    pub store: Store,
    random: globals::prng::Prng,
    random_seed_obj: Value,
    class_funcs: std::collections::HashMap<String, Func>,
    inst_funcs: std::collections::HashMap<String, Func>,
}
pub struct Klass;
impl Klass {
    pub fn id(&self) -> u32 {
        5
    }
}
impl Globals {
    fn new() -> Self {
        let mut g = Globals { store: Store::default(), random: globals::prng::Prng::new(), random_seed_obj: Value::Fix(0), class_funcs: Default::default(), inst_funcs: Default::default() };
        builtins::start(&mut g);
        g
    }
    pub fn define_class_under_obj(&mut self, _: &str) -> Klass {
        Klass
    }
    pub fn define_builtin_class_func(&mut self, _: u32, n: &str, f: Func, _: usize) {
        self.class_funcs.insert(n.into(), f);
    }
    pub fn define_builtin_class_func_with(&mut self, _: u32, n: &str, f: Func, _: usize, _: usize, _: bool) {
        self.class_funcs.insert(n.into(), f);
    }
    pub fn define_builtin_func(&mut self, _: u32, n: &str, f: Func, _: usize) {
        self.inst_funcs.insert(n.into(), f);
    }
    pub fn define_builtin_func_with(&mut self, _: u32, n: &str, f: Func, _: usize, _: usize, _: bool) {
        self.inst_funcs.insert(n.into(), f);
    }
    pub fn define_private_builtin_func(&mut self, _: u32, n: &str, f: Func, _: usize) {
        self.inst_funcs.insert(n.into(), f);
    }
    pub fn define_private_builtin_func_with(&mut self, _: u32, n: &str, f: Func, _: usize, _: usize, _: bool) {
        self.inst_funcs.insert(n.into(), f);
    }
    pub fn check_method(&self, v: Value, _: IdentId) -> Option<u32> {
        matches!(v, Value::Float(_) | Value::Obj(_, 99)).then_some(1)
    }
    pub fn random_seed_value(&self) -> Value {
        self.random_seed_obj
    }
    pub fn random_init_with(&mut self, exact: Value) {
        self.random.seed_value(exact);
        self.random_seed_obj = exact;
    }
    pub fn random_init(&mut self, seed: Option<i64>) {
        match seed {
            Some(s) => self.random_init_with(Value::integer(s)),
            None => {
                let used = self.random.seed_entropy();
                self.random_seed_obj = Value::integer(used);
            }
        }
    }
    pub fn random_float(&mut self) -> f64 {
        self.random.next_real()
    }
    pub fn random_float_inclusive(&mut self) -> f64 {
        self.random.next_real_inclusive()
    }
    pub fn random_ulong_limited(&mut self, max: u64) -> u64 {
        self.random.ulong_limited(max)
    }
    pub fn random_rand_int(&mut self, max: &BigInt) -> Value {
        self.random.rand_int(max)
    }
    pub fn random_fill_bytes(&mut self, d: &mut [u8]) {
        self.random.fill_bytes(d)
    }
    fn class_call(&mut self, n: &str, a: Option<Value>) -> Result<Value> {
        self.class_funcs[n](&mut Executor, self, Lfp(Value::Nil, a), BytecodePtr)
    }
    fn inst_call(&mut self, n: &str, o: Value, a: Option<Value>) -> Result<Value> {
        self.inst_funcs[n](&mut Executor, self, Lfp(o, a), BytecodePtr)
    }
}
pub mod globals {
    #[path = "/repo/monoruby/src/globals/prng.rs"]
    pub mod prng;
}
pub mod builtins {
    use super::*;
    #[path = "/repo/monoruby/src/builtins/random.rs"]
    mod random;
    pub fn start(g: &mut Globals) {
        random::init(g)
    }
    /// A multi-draw session.
    pub fn session(g: &mut Globals, recv: Value, maxes: &[u64]) -> Result<Vec<u64>> {
        let mut d = random::RandomDraw::new(g, recv);
        let v = maxes.iter().map(|m| d.ulong_limited(*m)).collect();
        d.finish(g)?;
        Ok(v)
    }
}
use globals::prng::*;

/// The reference: the recurrence written word by word over the whole history.
#[derive(Clone)]
struct Ref {
    x: Vec<u32>,
    at: usize,
}
impl Ref {
    fn linear(seed: u32) -> Self {
        let mut x = vec![seed];
        for i in 1..624u64 {
            let p = *x.last().unwrap();
            x.push(((p ^ (p >> 30)) as u64 * 1812433253 + i) as u32);
        }
        Ref { x, at: 0 }
    }
    fn keyed(key: &[u32]) -> Self {
        let mut r = Ref::linear(19650218);
        let x = &mut r.x;
        let mut i = 1;
        for k in 0..key.len().max(624) {
            let p = x[i - 1];
            let j = k % key.len();
            x[i] = ((x[i] as u64 ^ ((p ^ (p >> 30)) as u64 * 1664525 & 0xffff_ffff)) + key[j] as u64 + j as u64) as u32;
            i += 1;
            if i == 624 {
                x[0] = x[623];
                i = 1;
            }
        }
        for _ in 0..623 {
            let p = x[i - 1];
            x[i] = ((x[i] as u64 ^ ((p ^ (p >> 30)) as u64 * 1566083941 & 0xffff_ffff)) as u32).wrapping_sub(i as u32);
            i += 1;
            if i == 624 {
                x[0] = x[623];
                i = 1;
            }
        }
        x[0] = 1 << 31;
        r
    }
    fn seeded(s: &BigInt) -> Self {
        match s.d.len() {
            0 => Ref::linear(0),
            1 => Ref::linear(s.d[0]),
            _ => Ref::keyed(&s.d),
        }
    }
    fn word(&mut self) -> u32 {
        let n = self.at;
        self.at += 1;
        let y = (self.x[n] & 0x8000_0000) | (self.x[n + 1] & 0x7fff_ffff);
        let v = self.x[n + 397] ^ (y >> 1) ^ (y & 1) * 0x9908_b0df;
        self.x.push(v);
        let mut y = v;
        y ^= y >> 11;
        y ^= (y << 7) & 0x9d2c_5680;
        y ^= (y << 15) & 0xefc6_0000;
        y ^ (y >> 18)
    }
    fn real(&mut self) -> f64 {
        let a = (self.word() >> 5) as u64;
        let b = (self.word() >> 6) as u64;
        ((a << 26) + b) as f64 / (1u64 << 53) as f64
    }
    fn inclusive(&mut self) -> f64 {
        let x = ((self.word() as u128) << 32) | self.word() as u128;
        // x * (2^53 + 1) / 2^64, rounded down
        let r = ((x << 53) + x) >> 64;
        r as u64 as f64 / (1u64 << 53) as f64
    }
    /// Uniform in 0..=limit, digits from the most significant one down.
    fn limited(&mut self, limit: &BigInt) -> BigInt {
        if limit.d.is_empty() {
            return limit.clone();
        }
        let bits = limit.bits();
        let n = limit.d.len();
        loop {
            let mut d = vec![0; n];
            let mut tight = true;
            let mut again = false;
            for i in (0..n).rev() {
                let mut w = self.word();
                if i == n - 1 && bits % 32 != 0 {
                    w &= (1u32 << (bits % 32)) - 1;
                }
                if tight && w > limit.d[i] {
                    again = true;
                    break;
                }
                tight &= w == limit.d[i];
                d[i] = w;
            }
            if !again {
                return BigInt::make(false, d);
            }
        }
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![];
        while v.len() < n {
            v.extend(self.word().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

fn number(r: &mut Rng) -> BigInt {
    let n = r.weighted(&[3, 6, 5, 3, 2, 1]);
    let mut d: Vec<u32> = (0..n)
        .map(|_| match r.us(6) {
            0 => 0,
            1 => u32::MAX,
            2 => 1 << r.us(32),
            3 => r.below(100) as u32,
            _ => r.next() as u32,
        })
        .collect();
    if n == 5 && r.chance(1, 8) {
        d = (0..630 + r.us(20)).map(|_| r.next() as u32).collect();
    }
    // how a leading word of one is read differs between versions of Ruby
    if d.len() > 1 && *d.last().unwrap() == 1 {
        *d.last_mut().unwrap() = 2;
    }
    while d.last() == Some(&0) {
        d.pop();
    }
    if d.len() > 1 && *d.last().unwrap() == 1 {
        d.push(3);
    }
    BigInt::make(r.chance(1, 4), d)
}
fn bound(r: &mut Rng) -> u64 {
    match r.us(8) {
        0 => r.below(3),
        1 => u32::MAX as u64 + r.below(3) - 1,
        2 => u64::MAX - r.below(2),
        3 => 1 << r.us(64),
        4 => (1u64 << (1 + r.us(63))) - 1,
        5 => r.next() >> r.us(64),
        _ => 1 + r.below(1000),
    }
}
fn steps(case: &mut Case) -> usize {
    // past several refills now and then
    if case.rng.chance(1, 8) { 400 + case.rng.us(3000) } else { 5 + case.rng.us(120) }
}

fn stream(case: &mut Case) -> Verdict {
    let s = number(&mut case.rng);
    for w in &s.d {
        case.sig(*w as u64);
    }
    case.op(|| format!("seed {s}"));
    let v = Value::bigint(s.clone());
    let mut want = Ref::seeded(&s);
    veq!(seed_words(v), if s.d.is_empty() { vec![0] } else { s.d.clone() }, "words of the seed");
    if s.d.len() > 1 {
        case.count("multi_word_seeds");
    }
    if s.neg {
        case.count("negative_seeds");
    }
    let mut p = Prng::new();
    if case.rng.chance(1, 2) {
        // earlier use leaves nothing behind
        for _ in 0..case.rng.us(700) {
            p.next_real();
        }
    }
    p.seed_value(v);
    // the same stream through the functions that count what they draw
    let mut mt = build_mt(v);
    let mut other = Mt::init_genrand(case.rng.next() as u32);
    let mut cnt = 0u64;
    for _ in 0..steps(case) {
        let n0 = want.at as u64;
        veq!(cnt, n0, "words counted as drawn");
        match case.rng.us(7) {
            0 => {
                let w = want.real();
                veq!(p.next_real().to_bits(), w.to_bits(), "real number at word {n0}");
                veq!(next_real(&mut mt, &mut cnt).to_bits(), w.to_bits(), "counted real number at word {n0}");
                vcheck!((0.0..1.0).contains(&w), "reference out of range");
                case.count("reals");
            }
            1 => {
                let w = want.inclusive();
                veq!(p.next_real_inclusive().to_bits(), w.to_bits(), "closed-interval real at word {n0}");
                mt.next_u32();
                mt.next_u32();
                cnt += 2;
                case.count("inclusive_reals");
            }
            2 | 3 => {
                let m = bound(&mut case.rng);
                let w = want.limited(&m.into());
                let w = num::ToPrimitive::to_u64(&w).unwrap();
                let g = p.ulong_limited(m);
                vcheck!(g <= m, "{g} drawn with bound {m}");
                veq!(g, w, "integer up to {m} at word {n0}");
                veq!(ulong_limited(&mut mt, &mut cnt, m), w, "counted integer up to {m} at word {n0}");
                case.count("bounded_integers");
                if want.at as u64 > n0 + 2 {
                    case.count("redrawn");
                }
            }
            4 => {
                let mut m = number(&mut case.rng);
                m.neg = false;
                if m.d.is_empty() || m.d.len() > 600 {
                    m = 1i64.into();
                }
                let w = want.limited(&(&m - 1u32));
                let a = p.rand_int(&m).big();
                veq!(a.as_ref(), Some(&w), "integer below {m} at word {n0}");
                let b = rand_int(&mut mt, &mut cnt, &m).big();
                veq!(b.as_ref(), Some(&w), "counted integer below {m} at word {n0}");
                case.count(if m.d.len() > 1 { "big_integers" } else { "small_integers" });
            }
            5 => {
                let n = case.rng.us(23);
                let w = want.bytes(n);
                let mut b = vec![0x55; n];
                p.fill_bytes(&mut b);
                veq!(b, w, "{n} bytes at word {n0}");
                let mut c = vec![0xAA; n];
                mt.fill_bytes(&mut c);
                cnt += n.div_ceil(4) as u64;
                veq!(c, w, "{n} bytes from the copy at word {n0}");
                case.count("byte_strings");
            }
            _ => {
                let w = want.word();
                veq!(mt.next_u32(), w, "word {n0}");
                cnt += 1;
                // one generator never touches another
                other.next_u32();
                let lo = p.ulong_limited(u32::MAX as u64);
                veq!(lo, w as u64, "word {n0} of the default stream");
                case.count("words");
            }
        }
    }
    // equal states have equal futures
    let mut twin = mt.clone();
    vcheck!(twin == mt, "a copy is not equal to its original");
    for _ in 0..case.rng.us(700) {
        let w = want.word();
        veq!(mt.next_u32(), w, "word after a copy was taken");
    }
    let mut late = build_mt(v);
    for _ in 0..cnt {
        late.next_u32();
    }
    vcheck!(late == twin, "the generator rebuilt at word {cnt} differs from the one drawn to it");
    veq!(late.next_u32(), twin.next_u32(), "next word of equal generators");
    case.count("streams");
    case.nontrivial();
    Ok(())
}

/// Several generator objects and the default one, drawn in any order.
fn objects(case: &mut Case) -> Verdict {
    let mut g = Globals::new();
    let mut objs: Vec<(Value, BigInt, Ref)> = vec![];
    let mut main: Option<(Value, Ref)> = None;
    let mut next = 100;
    let e = |e: MonorubyErr| Violation(format!("a draw raised: {}", e.0));
    for _ in 0..8 + case.rng.us(60) {
        let k = case.rng.weighted(&[if objs.len() < 5 { 3 } else { 0 }, 2, 12, 4, 2, 2, 6]);
        case.sig(k as u64);
        if k >= 2 && k < 6 && objs.is_empty() {
            continue;
        }
        match k {
            0 => {
                let o = Value::Obj(next, 5);
                next += 1;
                let (s, arg) = match case.rng.us(8) {
                    0 => (None, None),
                    1 => (Some(BigInt::from(17i64)), Some(Value::Float(17.9))),
                    2 if !objs.is_empty() => {
                        let s = case.rng.pick(&objs).1.clone();
                        (Some(s.clone()), Some(Value::bigint(s)))
                    }
                    _ => {
                        let s = number(&mut case.rng);
                        (Some(s.clone()), Some(Value::bigint(s)))
                    }
                };
                g.inst_call("initialize", o, arg).map_err(e)?;
                let told = g.inst_call("seed", o, None).map_err(e)?.big();
                let Some(told) = told else { vbail!("the seed reported is not an integer") };
                if let Some(s) = s {
                    veq!(told, s, "seed reported");
                }
                if told.d.len() > 1 && *told.d.last().unwrap() == 1 {
                    continue;
                }
                case.op(|| format!("object {} seed {told}", objs.len()));
                let r = Ref::seeded(&told);
                objs.push((o, told, r));
                case.count("objects");
            }
            1 => {
                let s = number(&mut case.rng);
                let v = Value::bigint(s.clone());
                case.op(|| format!("srand {s}"));
                let before = g.random_seed_value();
                if case.rng.chance(1, 6) {
                    // the system chooses, and says what it chose
                    let old = g.class_call("srand", None).map_err(e)?;
                    veq!(old, before, "previous seed");
                    let used = g.random_seed_value();
                    let Some(u) = used.big() else { vbail!("the chosen seed is not an integer") };
                    main = Some((used, Ref::seeded(&u)));
                    case.count("system_seeds");
                } else {
                    let old = g.class_call("srand", Some(v)).map_err(e)?;
                    veq!(old, before, "previous seed");
                    main = Some((v, Ref::seeded(&s)));
                    case.count("default_seeds");
                }
            }
            2 => {
                let i = case.rng.us(objs.len());
                let (o, _, r) = &mut objs[i];
                let o = *o;
                let at = r.at;
                match case.rng.us(6) {
                    0 => {
                        let w = r.real();
                        let v = g.inst_call("rand", o, None).map_err(e)?;
                        veq!(v, Value::Float(w), "object {i}: real number at word {at}");
                        case.count("object_reals");
                    }
                    1 => {
                        let m = (1 + case.rng.below(1000)) as f64 / 8.0;
                        let w = r.real() * m;
                        let v = g.inst_call("random_number", o, Some(Value::Float(m))).map_err(e)?;
                        veq!(v, Value::Float(w), "object {i}: real number below {m} at word {at}");
                        vcheck!(w < m, "drew {w} below {m}");
                        case.count("object_reals");
                    }
                    2 => {
                        let n = case.rng.us(30);
                        let w = r.bytes(n);
                        let v = g.inst_call("bytes", o, Some(Value::Fix(n as i64))).map_err(e)?;
                        let Value::Bytes(b) = v else { vbail!("bytes are not bytes") };
                        veq!(b.to_vec(), w, "object {i}: {n} bytes at word {at}");
                        case.count("object_bytes");
                    }
                    3 => {
                        // a range of small integers
                        let wide = case.rng.chance(1, 4);
                        let a = if wide { -(1i64 << 62) + case.rng.below(5) as i64 } else { case.rng.below(2000) as i64 - 1000 };
                        let z = if wide { (1i64 << (55 + case.rng.us(7))) + case.rng.below(1000) as i64 } else { a + case.rng.below(300) as i64 };
                        let z = if wide && case.rng.chance(1, 4) { (1 << 62) - 1 - case.rng.below(3) as i64 } else { z };
                        let excl = case.rng.chance(1, 2);
                        let span = z as i128 - a as i128 + if excl { 0 } else { 1 };
                        if span <= 0 {
                            continue;
                        }
                        let w = BigInt::from(a) + r.limited(&BigInt::from(span - 1));
                        let v = g.inst_call("rand", o, Some(Value::Range(Box::leak(Box::new(RangeInner(Value::Fix(a), Value::Fix(z), excl)))))).map_err(e)?;
                        veq!(v.big(), Some(w), "object {i}: integer in {a}..{z} (open={excl}) at word {at}");
                        case.count(if wide { "object_wide_ranges" } else { "object_ranges" });
                    }
                    _ => {
                        let mut m = number(&mut case.rng);
                        m.neg = false;
                        if m.d.is_empty() {
                            m = 1i64.into();
                        }
                        let w = r.limited(&(&m - 1u32));
                        let v = g.inst_call("rand", o, Some(Value::bigint(m.clone()))).map_err(e)?;
                        veq!(v.big(), Some(w), "object {i}: integer below {m} at word {at}");
                        case.count("object_integers");
                    }
                }
            }
            3 => {
                let i = case.rng.us(objs.len());
                let maxes: Vec<u64> = (0..case.rng.us(40)).map(|_| bound(&mut case.rng)).collect();
                let (o, _, r) = &mut objs[i];
                let got = builtins::session(&mut g, *o, &maxes).map_err(e)?;
                for (m, got) in maxes.iter().zip(got) {
                    let w = num::ToPrimitive::to_u64(&r.limited(&(*m).into())).unwrap();
                    veq!(got, w, "object {i}: session draw up to {m}");
                }
                case.count("sessions");
            }
            4 => {
                let (i, j) = (case.rng.us(objs.len()), case.rng.us(objs.len()));
                let same = Ref::state(&objs[i].2) == Ref::state(&objs[j].2);
                let v = g.inst_call("==", objs[i].0, Some(objs[j].0)).map_err(e)?;
                veq!(v, Value::Bool(same), "equality of objects {i} and {j}");
                let (a, b) = (g.inst_call("state", objs[i].0, None).map_err(e)?, g.inst_call("state", objs[j].0, None).map_err(e)?);
                if same {
                    veq!(a, b, "states of equal objects");
                    case.count(if i == j { "self_equal" } else { "equal" });
                } else {
                    case.count("unequal");
                }
                veq!(g.inst_call("==", objs[i].0, Some(Value::Obj(1, 6))).map_err(e)?, Value::Bool(false), "equality with another class");
            }
            5 => {
                // a refused draw consumes nothing
                let i = case.rng.us(objs.len());
                let bad = *case.rng.pick(&[Value::Fix(0), Value::Fix(-3), Value::Float(-1.5)]);
                vcheck!(g.inst_call("rand", objs[i].0, Some(bad)).is_err(), "a draw with maximum {bad:?} was accepted");
                let told = g.inst_call("seed", objs[i].0, None).map_err(e)?.big();
                veq!(told.as_ref(), Some(&objs[i].1), "seed reported after draws");
                case.count("refused");
            }
            _ => {
                let Some((s, r)) = &mut main else { continue };
                veq!(g.random_seed_value(), *s, "seed of the default generator");
                let at = r.at;
                match case.rng.us(4) {
                    0 => {
                        let w = r.real();
                        veq!(g.class_call("rand", None).map_err(e)?, Value::Float(w), "default: real number at word {at}");
                    }
                    1 => {
                        let b = case.rng.range(1, 61);
                        let m = 1 + case.rng.below(1 << b) as i64;
                        let w = r.limited(&(m - 1).into());
                        veq!(g.class_call("random_number", Some(Value::integer(m))).map_err(e)?.big(), Some(w), "default: integer below {m} at word {at}");
                    }
                    2 => {
                        let n = case.rng.us(20);
                        let w = r.bytes(n);
                        veq!(g.class_call("bytes", Some(Value::Fix(n as i64))).map_err(e)?, Value::Bytes(w.leak()), "default: {n} bytes at word {at}");
                    }
                    _ => {
                        let w = r.real() * 2.5;
                        veq!(g.class_call("rand", Some(Value::Float(2.5))).map_err(e)?, Value::Float(w), "default: real below 2.5 at word {at}");
                    }
                }
                case.count("default_draws");
            }
        }
    }
    case.nontrivial();
    case.count("object_histories");
    Ok(())
}
impl Ref {
    /// Everything the future depends on.
    fn state(&self) -> Vec<u32> {
        let mut v = self.x[self.at..self.at + 624].to_vec();
        v[0] &= 0x8000_0000;
        v
    }
}

fn main() {
    // published first and ten-thousandth outputs
    let mut r = Ref::linear(5489);
    assert_eq!(r.word(), 3499211612);
    for _ in 0..9998 {
        r.word();
    }
    assert_eq!(r.word(), 4123659995);
    let mut r = Ref::keyed(&[0x123, 0x234, 0x345, 0x456]);
    assert_eq!((r.word(), r.word(), r.word()), (1067595299, 955945823, 477289528));
    assert_eq!(Ref::linear(42).real(), 0.3745401188473625);
    vh::main_loop("c27", |case| if case.rng.chance(1, 2) { stream(case) } else { objects(case) });
}
