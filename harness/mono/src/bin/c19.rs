//! C19: the array sort driven by observed comparators.
#![allow(dead_code, unused_imports, clippy::all)]
#![feature(cfg_sanitize)]
use vh::{vbail, vcheck, veq, Case, Verdict};

mod op {
    pub use crate::stubs::*;
    #[path = "/repo/monoruby/src/executor/op/sort.rs"]
    pub mod sort;
}
mod executor {
    pub use crate::stubs::*;
}

/// Just enough of the interpreter for the sort to run on.
pub mod stubs {
    pub mod num {
        pub mod bigint {
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum Sign {
                Minus,
                NoSign,
                Plus,
            }
        }
        #[derive(Debug, Clone)]
        pub struct BigInt(pub bigint::Sign);
        impl BigInt {
            pub fn sign(&self) -> bigint::Sign {
                self.0
            }
        }
    }
    pub use num::BigInt;
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
    #[repr(transparent)]
    pub struct Value(pub u64);
    #[derive(Debug, Clone)]
    pub enum Obj {
        Big(BigInt),
        Float(f64),
        Other(&'static str, Option<i64>), // class name, answer of <=> 0
    }
    pub enum RV<'a> {
        Nil,
        Bool(bool),
        Fixnum(i64),
        BigInt(&'a BigInt),
        Float(f64),
        Object(&'a Obj),
    }
    impl Value {
        pub fn nil() -> Value {
            Value(4)
        }
        pub fn is_nil(&self) -> bool {
            self.0 == 4
        }
        pub fn integer(i: i64) -> Value {
            Value(((i as u64) << 1) | 1)
        }
        pub fn fixnum(i: i64) -> Value {
            Self::integer(i)
        }
        pub fn obj(o: Obj) -> Value {
            Value(Box::leak(Box::new(o)) as *mut Obj as u64)
        }
        pub fn free(self) {
            if !self.is_packed_value() {
                drop(unsafe { Box::from_raw(self.0 as *mut Obj) })
            }
        }
        pub fn try_fixnum(&self) -> Option<i64> {
            if self.0 & 1 == 1 { Some((self.0 as i64) >> 1) } else { None }
        }
        pub fn is_packed_value(&self) -> bool {
            self.0 & 1 == 1 || self.0 == 4
        }
        pub fn unpack(&self) -> RV<'_> {
            if self.is_nil() {
                return RV::Nil;
            }
            if let Some(i) = self.try_fixnum() {
                return RV::Fixnum(i);
            }
            match unsafe { &*(self.0 as *const Obj) } {
                Obj::Big(b) => RV::BigInt(b),
                Obj::Float(f) => RV::Float(*f),
                o => RV::Object(o),
            }
        }
        pub fn get_real_class_name(&self, _: &Store) -> String {
            match self.unpack() {
                RV::Nil => "NilClass".into(),
                RV::Fixnum(_) | RV::BigInt(_) => "Integer".into(),
                RV::Float(_) => "Float".into(),
                RV::Object(Obj::Other(n, _)) => n.to_string(),
                _ => "?".into(),
            }
        }
        pub fn inspect(&self, _: &Store) -> String {
            match self.unpack() {
                RV::Nil => "nil".into(),
                RV::Fixnum(i) => i.to_string(),
                RV::Float(f) => f.to_string(),
                _ => "#<obj>".into(),
            }
        }
        pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            match self.try_fixnum() {
                Some(i) => Ok(i),
                None => Err(MonorubyErr::argumenterr("no implicit conversion into Integer".into())),
            }
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct MonorubyErr {
        pub kind: &'static str,
        pub msg: String,
        pub serial: u64,
    }
    impl MonorubyErr {
        pub fn argumenterr(msg: String) -> Self {
            MonorubyErr { kind: "ArgumentError", msg, serial: 0 }
        }
    }
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct IdentId(pub u32);
    impl IdentId {
        pub const _CMP: IdentId = IdentId(77);
    }
    #[derive(Default)]
    pub struct Store;
    #[derive(Default)]
    pub struct Globals {
        pub store: Store,
    }
    type Cmp = Box<dyn FnMut(Value, Value) -> Result<std::cmp::Ordering>>;
    pub struct Executor {
        pub cmp: Option<Cmp>,
        pub calls: Vec<(IdentId, Value, Vec<Value>)>,
    }
    impl Executor {
        pub fn compare_values(&mut self, _: &mut Globals, a: Value, b: Value) -> Result<std::cmp::Ordering> {
            (self.cmp.as_mut().unwrap())(a, b)
        }
        pub fn invoke_method_inner(
            &mut self,
            _: &mut Globals,
            id: IdentId,
            recv: Value,
            args: &[Value],
            _: Option<()>,
            _: Option<()>,
        ) -> Result<Value> {
            self.calls.push((id, recv, args.to_vec()));
            match recv.unpack() {
                RV::Float(f) if f.is_nan() => Ok(Value::nil()),
                RV::Float(f) => Ok(Value::integer(if f > 0.0 { 1 } else if f < 0.0 { -1 } else { 0 })),
                RV::Object(Obj::Other("Raiser", _)) => {
                    Err(MonorubyErr { kind: "RuntimeError", msg: "raised by <=>".into(), serial: 99 })
                }
                RV::Object(Obj::Other(_, Some(i))) => Ok(Value::integer(*i)),
                RV::Object(Obj::Other(_, None)) => Ok(Value::nil()),
                _ => panic!("harness: <=> on an unexpected receiver"),
            }
        }
    }
}
use op::sort::{merge_scratch_len, sort_by};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;
use stubs::*;

const CANARY: u64 = 0xdead_beef_0bad_cafe;

struct Watch {
    rank: Vec<u64>,
    known: Vec<bool>,
    calls: u64,
    fail_at: u64,
    err: Option<MonorubyErr>,
    after_err: u64,
    foreign: Option<(Value, Value)>,
    mode: u8,
    rng: vh::Rng,
}
impl Watch {
    fn cmp(&mut self, a: Value, b: Value) -> Result<Ordering> {
        vh::step();
        self.calls += 1;
        if self.err.is_some() {
            self.after_err += 1;
        }
        let idx = |v: Value| v.try_fixnum().filter(|i| *i >= 0 && (*i as usize) < self.rank.len()).map(|i| i as usize);
        let (Some(i), Some(j)) = (idx(a), idx(b)) else {
            self.foreign = Some((a, b));
            return Ok(Ordering::Equal);
        };
        if self.calls == self.fail_at {
            let e = MonorubyErr { kind: "StandardError", msg: format!("comparison {} of {i} and {j}", self.calls), serial: self.rng.next() };
            self.err = Some(e.clone());
            return Err(e);
        }
        Ok(match self.mode {
            0 => self.rank[i].cmp(&self.rank[j]),
            1 => match self.rng.us(3) {
                0 => Ordering::Less,
                1 => Ordering::Equal,
                _ => Ordering::Greater,
            },
            2 => Ordering::Less,
            3 => Ordering::Greater,
            4 => Ordering::Equal,
            // intransitive
            _ => [Ordering::Less, Ordering::Equal, Ordering::Greater][((self.rank[i] + 2 * self.rank[j]) % 3) as usize],
        })
    }
}

fn ranks(case: &mut Case, n: usize) -> Vec<u64> {
    let kinds = [1u64, 2, 3, n as u64 / 2 + 1, n as u64 * 4 + 1];
    let k = *case.rng.pick(&kinds);
    let mut r: Vec<u64> = (0..n).map(|_| case.rng.below(k.max(1))).collect();
    match case.rng.us(8) {
        0 => r.sort(),
        1 => {
            r.sort();
            r.reverse()
        }
        2 => {
            // distinct descending
            r = (0..n as u64).rev().collect()
        }
        3 => {
            // runs of random length, ascending or descending
            let mut at = 0;
            while at < n {
                let l = (1 + case.rng.us(n / 2 + 2)).min(n - at);
                r[at..at + l].sort();
                if case.rng.chance(1, 2) {
                    r[at..at + l].reverse();
                }
                at += l;
            }
        }
        4 => {
            r.sort();
            for _ in 0..1 + case.rng.us(4) {
                if n > 1 {
                    let (a, b) = (case.rng.us(n), case.rng.us(n));
                    r.swap(a, b);
                }
            }
        }
        5 => {
            // sawtooth
            let p = 1 + case.rng.below(30);
            r = (0..n as u64).map(|i| i % p).collect();
        }
        _ => {}
    }
    r
}

fn sort_case(case: &mut Case) -> Verdict {
    let n = match case.rng.us(10) {
        0 => case.rng.us(4),
        1..=3 => case.rng.us(21),
        4 => 19 + case.rng.us(5),
        5..=7 => 20 + case.rng.us(120),
        8 => 100 + case.rng.us(600),
        _ => {
            if case.rng.chance(1, 10) {
                2000 + case.rng.us(if case.thorough { 20000 } else { 4000 })
            } else {
                40 + case.rng.us(400)
            }
        }
    };
    let rank = ranks(case, n);
    let mode = if case.rng.chance(3, 5) { 0 } else { 1 + case.rng.us(5) as u8 };
    // a dry run tells how many comparisons there are to interrupt
    let fail = case.rng.chance(1, 3);
    let seed = case.rng.next();
    let scratch = merge_scratch_len(n);
    vcheck!(scratch <= n, "scratch of {scratch} for {n} elements");
    let mut total = 0;
    for pass in 0..(if fail { 2 } else { 1 }) {
        let w = Rc::new(RefCell::new(Watch {
            rank: rank.clone(),
            known: vec![],
            calls: 0,
            fail_at: if pass == 1 { 1 + case.rng.below(total.max(1)) } else { u64::MAX },
            err: None,
            after_err: 0,
            foreign: None,
            mode,
            rng: vh::Rng::new(seed, 7),
        }));
        // exact allocations, so that a sanitizer sees any excess; canaries around for plain builds
        let pad = if cfg!(sanitize = "address") { 0 } else { 2 };
        let mut arr: Vec<Value> = vec![Value(CANARY); n + 2 * pad];
        for i in 0..n {
            arr[pad + i] = Value::integer(i as i64);
        }
        let mut buf: Vec<Value> = vec![Value(CANARY); scratch + 2 * pad];
        for i in 0..scratch {
            buf[pad + i] = Value::nil();
        }
        let mut arr = arr.into_boxed_slice();
        let mut buf = buf.into_boxed_slice();
        let bp = if scratch == 0 && case.rng.chance(1, 2) { std::ptr::null_mut() } else { unsafe { buf.as_mut_ptr().add(pad) } };
        case.op(|| format!("sort n={n} mode={mode} pass={pass} ranks={rank:?}"));
        let via_executor = seed & 1 == 0;
        let r = if via_executor {
            let w2 = w.clone();
            let mut x = Executor { cmp: Some(Box::new(move |a, b| w2.borrow_mut().cmp(a, b))), calls: vec![] };
            let r = vh::catch(|| x.sort(&mut Globals::default(), &mut arr[pad..pad + n], bp));
            case.count("via_spaceship");
            r
        } else {
            let w2 = w.clone();
            case.count("via_block");
            vh::catch(|| sort_by(&mut arr[pad..pad + n], bp, |a, b| w2.borrow_mut().cmp(a, b)))
        };
        let r = match r {
            Ok(r) => r,
            Err((loc, msg)) => vbail!("sorting {n} elements panicked at {loc}: {msg}"),
        };
        let w = Rc::try_unwrap(w).ok().unwrap().into_inner();
        if let Some((a, b)) = w.foreign {
            vbail!("the comparator was given {:?} and {:?}: not elements of the array", a, b);
        }
        for i in 0..pad {
            for (what, s, l) in [("array", &arr, n), ("scratch", &buf, scratch)] {
                veq!(s[i].0, CANARY, "word {i} before the {what}");
                veq!(s[pad + l + i].0, CANARY, "word {i} after the {what}");
            }
        }
        let out: Vec<usize> = {
            let mut o = vec![];
            for v in &arr[pad..pad + n] {
                match v.try_fixnum() {
                    Some(i) if i >= 0 && (i as usize) < n => o.push(i as usize),
                    _ => vbail!("the array holds {v:?}, never one of its elements"),
                }
            }
            o
        };
        let mut seen = vec![false; n];
        for i in &out {
            if std::mem::replace(&mut seen[*i], true) {
                vbail!("element {i} occurs twice after the sort (n={n}, mode={mode}, failed={})", r.is_err());
            }
        }
        match (&w.err, &r) {
            (None, Ok(())) => {}
            (Some(e), Err(g)) => {
                veq!(g, e, "error of the failing comparator");
                veq!(w.after_err, 0, "comparisons after the error");
                case.count("errors_surfaced");
                if n > 20 {
                    case.count("errors_in_merges");
                }
            }
            (Some(e), Ok(())) => vbail!("the comparator's error {e:?} was swallowed"),
            (None, Err(g)) => vbail!("error {g:?} from nowhere"),
        }
        if r.is_ok() {
            if mode == 0 {
                let mut want: Vec<usize> = (0..n).collect();
                want.sort_by_key(|i| rank[*i]);
                if let Some(p) = (0..n).find(|p| out[*p] != want[*p]) {
                    let what = if rank[out[p]] == rank[want[p]] { "equal elements out of input order" } else { "unordered" };
                    vbail!("{what}: position {p} of {n} holds element {} (rank {}), expected element {} (rank {})", out[p], rank[out[p]], want[p], rank[want[p]]);
                }
                case.count("consistent_sorted");
                if n > 20 {
                    case.count("merged");
                }
                let mut ties = rank.clone();
                ties.sort();
                if ties.windows(2).any(|w| w[0] == w[1]) {
                    case.count("with_ties");
                }
            } else {
                case.count("inconsistent_survived");
            }
            let nf = n as f64;
            let bound = if n < 2 { 0.0 } else { 2.0 * nf * nf.log2() + 16.0 * nf };
            vcheck!(w.calls as f64 <= bound, "{} comparisons for {n} elements", w.calls);
            total = w.calls;
            case.max("max_n", n as u64);
            case.count_n("comparisons", w.calls);
        }
        if total == 0 {
            break;
        }
    }
    if n > 1 {
        case.nontrivial();
    }
    for r in &rank {
        case.sig(*r);
    }
    case.sig(n as u64 * 8 + mode as u64);
    Ok(())
}

/// Results of comparator blocks read as orderings.
fn cmpint_case(case: &mut Case) -> Verdict {
    let mut x = Executor { cmp: None, calls: vec![] };
    let mut g = Globals::default();
    use num::bigint::Sign;
    let i = match case.rng.us(4) {
        0 => 0,
        1 => 1 + case.rng.below(1 << 40) as i64,
        2 => -1 - case.rng.below(1 << 40) as i64,
        _ => *case.rng.pick(&[i64::MAX >> 2, i64::MIN >> 2, 1, -1]),
    };
    let sel = case.rng.us(9);
    let big = [Sign::Minus, Sign::NoSign, Sign::Plus][case.rng.us(3)];
    let f = [1.5, -0.25, 0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE][case.rng.us(7)];
    let ob = |x: Ordering| Ok(x);
    let (res, want, dispatch): (Value, std::result::Result<Ordering, String>, bool) = match sel {
        0 | 1 => (Value::integer(i), ob(i.cmp(&0)), false),
        2 => (Value::nil(), Err("comparison of Alpha with 17 failed".into()), false),
        3 => (
            Value::obj(Obj::Big(BigInt(big))),
            ob(match big {
                Sign::Minus => Ordering::Less,
                Sign::NoSign => Ordering::Equal,
                Sign::Plus => Ordering::Greater,
            }),
            false,
        ),
        4 => (Value::obj(Obj::Float(f)), ob(f.partial_cmp(&0.0).unwrap()), true),
        5 => (Value::obj(Obj::Float(f64::NAN)), Err("comparison of Float with 0 failed".into()), true),
        6 => (Value::obj(Obj::Other("Rational", Some(i))), ob(i.cmp(&0)), true),
        7 => (Value::obj(Obj::Other("String", None)), Err("comparison of String with 0 failed".into()), true),
        _ => (Value::obj(Obj::Other("Raiser", None)), Err("raised by <=>".into()), true),
    };
    let (l, r) = (Value::obj(Obj::Other("Alpha", None)), Value::integer(17));
    case.op(|| format!("comparator result kind {sel} i={i} f={f} big={big:?}"));
    let got = vh::catch(|| x.cmpint(&mut g, res, l, r));
    let calls = std::mem::take(&mut x.calls);
    let dispatched = calls.iter().filter(|c| c.0 == IdentId::_CMP && c.1 == res && c.2 == [Value::integer(0)]).count();
    let n = calls.len();
    res.free();
    l.free();
    match got {
        Err((loc, m)) => vbail!("comparator result kind {sel} panicked at {loc}: {m}"),
        Ok(got) => veq!(got.map_err(|e| e.msg), want, "ordering of comparator result kind {sel} (i={i}, f={f}, big={big:?})"),
    }
    // floats may be read with or without a call
    if !matches!(sel, 4 | 5) {
        veq!((n, dispatched), (dispatch as usize, dispatch as usize), "calls made for comparator result kind {sel}");
    }
    case.count("comparator_results");
    case.sig(sel as u64 ^ (i as u64) << 5 ^ f.to_bits().rotate_left(9));
    case.nontrivial();
    Ok(())
}

fn main() {
    vh::main_loop("c19", |case| {
        if case.rng.chance(1, 8) {
            case.sample = Some("reading a comparator's result".into());
            cmpint_case(case)
        } else {
            case.sample = Some("array sort under an observed comparator".into());
            sort_case(case)
        }
    })
}
