//! C52: the functions of Math against libm, exact arithmetic and their domains.
//!
//! The native methods are compiled from the repository and called with whole numbers of
//! all sizes, floats and objects that convert themselves, or fail to.
#![allow(dead_code, unused_imports)]

pub mod world {
    pub use num::{BigInt, ToPrimitive};
    pub use plain_attr::monoruby_builtin;
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum MonorubyErrKind {
        Range,
        Type,
        Argument,
        Scripted,
        Other(ClassId),
    }
    #[derive(Clone, Debug)]
    pub struct MonorubyErr {
        pub kind: MonorubyErrKind,
        pub msg: String,
    }
    impl MonorubyErr {
        pub fn new(kind: MonorubyErrKind, msg: impl ToString) -> Self {
            MonorubyErr { kind, msg: msg.to_string() }
        }
        pub fn rangeerr(m: impl ToString) -> Self {
            Self::new(MonorubyErrKind::Range, m)
        }
        pub fn typeerr(m: impl ToString) -> Self {
            Self::new(MonorubyErrKind::Type, m)
        }
        pub fn argumenterr(m: impl ToString) -> Self {
            Self::new(MonorubyErrKind::Argument, m)
        }
        pub fn cant_convert_error_f(_: &Globals, _: Value, _: Value) -> Self {
            Self::typeerr("can't convert")
        }
        pub fn cant_convert_into_float(_: &Globals, _: Value) -> Self {
            Self::typeerr("can't convert")
        }
    }
    #[derive(Debug)]
    pub enum Obj {
        Nil,
        Fixnum(i64),
        Big(BigInt),
        Float(f64),
        Str(String),
        Array(Vec<Value>),
        /// Answers `to_f` and `to_int`, or raises.
        Thing(Option<Value>, Option<Value>),
        Raises,
        Other,
    }
    #[derive(Clone, Copy)]
    pub struct Value(&'static Obj);
    impl std::fmt::Debug for Value {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            match self.0 {
                Obj::Big(b) => write!(f, "{b}"),
                o => write!(f, "{o:?}"),
            }
        }
    }
    thread_local!(static HEAP: std::cell::RefCell<Vec<*mut Obj>> = const { std::cell::RefCell::new(Vec::new()) });
    pub fn reset_heap() {
        HEAP.with_borrow_mut(|h| h.drain(..).for_each(|p| drop(unsafe { Box::from_raw(p) })));
    }
    pub enum RV<'a> {
        Nil,
        Fixnum(i64),
        BigInt(&'a BigInt),
        Float(f64),
        String(&'a str),
        Object(()),
    }
    impl Value {
        pub fn make(o: Obj) -> Value {
            let p = Box::into_raw(Box::new(o));
            HEAP.with_borrow_mut(|h| h.push(p));
            Value(unsafe { &*p })
        }
        pub fn obj(&self) -> &'static Obj {
            self.0
        }
        pub fn nil() -> Value {
            Value::make(Obj::Nil)
        }
        pub fn float(f: f64) -> Value {
            Value::make(Obj::Float(f))
        }
        pub fn integer(i: i64) -> Value {
            if (-(1 << 62)..1 << 62).contains(&i) { Value::make(Obj::Fixnum(i)) } else { Value::make(Obj::Big(BigInt::from(i))) }
        }
        pub fn array2(a: Value, b: Value) -> Value {
            Value::make(Obj::Array(vec![a, b]))
        }
        pub fn array_from_vec(v: Vec<Value>) -> Value {
            Value::make(Obj::Array(v))
        }
        pub fn is_nil(&self) -> bool {
            matches!(self.0, Obj::Nil)
        }
        pub fn is_str(&self) -> Option<&str> {
            match self.0 {
                Obj::Str(s) => Some(s),
                _ => None,
            }
        }
        pub fn unpack(&self) -> RV<'static> {
            match self.0 {
                Obj::Nil => RV::Nil,
                Obj::Fixnum(i) => RV::Fixnum(*i),
                Obj::Big(b) => RV::BigInt(b),
                Obj::Float(f) => RV::Float(*f),
                Obj::Str(s) => RV::String(s),
                _ => RV::Object(()),
            }
        }
        pub fn try_float(&self) -> Option<f64> {
            if let Obj::Float(f) = self.0 { Some(*f) } else { None }
        }
        pub fn try_fixnum(&self) -> Option<i64> {
            if let Obj::Fixnum(i) = self.0 { Some(*i) } else { None }
        }
        pub fn get_real_class_name(&self, _: &Store) -> String {
            "Object".to_string()
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct IdentId(pub &'static str);
    impl IdentId {
        pub const TO_F: IdentId = IdentId("to_f");
        pub const TO_INT: IdentId = IdentId("to_int");
        pub fn get_id(s: &'static str) -> IdentId {
            IdentId(s)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ClassId(pub u32);
    pub const OBJECT_CLASS: ClassId = ClassId(1);
    pub const MATH: ClassId = ClassId(2);
    pub const DOMAIN: ClassId = ClassId(3);
    pub const STANDARD: ClassId = ClassId(4);
    #[derive(Clone, Copy)]
    pub struct Module(ClassId);
    impl Module {
        pub fn id(&self) -> ClassId {
            self.0
        }
        pub fn as_class_id(&self) -> ClassId {
            self.0
        }
        pub fn as_class(&self) -> Module {
            *self
        }
    }
    #[derive(Default)]
    pub struct Executor;
    #[derive(Clone, Copy)]
    pub struct FuncId(IdentId);
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
    #[derive(Clone, Copy)]
    pub struct BlockHandler;
    impl Executor {
        pub fn invoke_func_inner(&mut self, _: &mut Globals, f: FuncId, v: Value, _: &[Value], _: Option<BlockHandler>, _: Option<Value>) -> Result<Value> {
            match v.obj() {
                Obj::Thing(a, b) => Ok(if f.0.0 == "to_f" { a.unwrap() } else { b.unwrap() }),
                _ => Err(MonorubyErr::new(MonorubyErrKind::Scripted, "raised")),
            }
        }
    }
    pub struct Lfp(pub Vec<Value>);
    impl Lfp {
        pub fn arg(&self, i: usize) -> Value {
            self.0.get(i).copied().unwrap_or_else(Value::nil)
        }
        pub fn try_arg(&self, i: usize) -> Option<Value> {
            self.0.get(i).copied()
        }
    }
    pub type Func = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;
    pub type CFunc = unsafe extern "C" fn(f64) -> f64;
    #[derive(Default)]
    pub struct Globals {
        pub store: Store,
        pub funcs: std::collections::HashMap<&'static str, (Func, usize, usize)>,
        pub cfuncs: std::collections::HashMap<&'static str, CFunc>,
        pub constants: std::collections::HashMap<&'static str, Value>,
    }
    impl Globals {
        pub fn define_toplevel_module(&mut self, _: &str) -> Module {
            Module(MATH)
        }
        pub fn define_class(&mut self, _: &str, _: Module, _: ClassId) -> Module {
            Module(DOMAIN)
        }
        pub fn set_constant_by_str(&mut self, _: ClassId, n: &'static str, v: Value) {
            self.constants.insert(n, v);
        }
        pub fn define_builtin_module_inline_func(&mut self, _: ClassId, n: &'static str, f: Func, _: InlineGen, k: usize) {
            self.funcs.insert(n, (f, k, k));
        }
        pub fn define_builtin_module_cfunc_f_f(&mut self, _: ClassId, n: &'static str, f: Func, c: CFunc, k: usize) {
            self.funcs.insert(n, (f, k, k));
            self.cfuncs.insert(n, c);
        }
        pub fn define_builtin_module_func(&mut self, _: ClassId, n: &'static str, f: Func, k: usize) {
            self.funcs.insert(n, (f, k, k));
        }
        pub fn define_builtin_module_func_with(&mut self, _: ClassId, n: &'static str, f: Func, min: usize, max: usize, rest: bool) {
            self.funcs.insert(n, (f, min, if rest { usize::MAX } else { max }));
        }
        pub fn check_method(&self, v: Value, id: IdentId) -> Option<FuncId> {
            let has = match v.obj() {
                Obj::Thing(a, b) => if id.0 == "to_f" { a.is_some() } else { b.is_some() },
                Obj::Raises => true,
                // Texts have it, and it must not be asked.
                Obj::Str(_) => id.0 == "to_f",
                _ => false,
            };
            has.then_some(FuncId(id))
        }
    }
    #[derive(Default)]
    pub struct Store {
        site: CallSiteInfo,
    }
    impl Store {
        pub fn get_constant_noautoload(&self, _: ClassId, n: IdentId) -> Option<Module> {
            Some(Module(match n.0 {
                "Math" => MATH,
                "DomainError" => DOMAIN,
                _ => STANDARD,
            }))
        }
    }
    impl std::ops::Index<CallSiteId> for Store {
        type Output = CallSiteInfo;
        fn index(&self, _: CallSiteId) -> &CallSiteInfo {
            &self.site
        }
    }
    // Code generation, which does not run here.
    pub mod jitgen {
        pub use super::{AbstractState, JitContext};
    }
    pub type InlineGen = fn(&mut AbstractState, &mut AsmIr, &JitContext, &Store, CallSiteId, Option<ClassId>, Option<ClassId>) -> bool;
    #[derive(Clone, Copy)]
    pub struct CallSiteId;
    #[derive(Clone, Copy, Default)]
    pub struct SlotId;
    #[derive(Default)]
    pub struct CallSiteInfo {
        pub dst: Option<SlotId>,
        pub args: SlotId,
        pub recv: SlotId,
    }
    impl CallSiteInfo {
        pub fn is_simple(&self) -> bool {
            true
        }
    }
    pub struct JitContext;
    pub struct AbstractState;
    pub struct AsmIr;
    pub struct Deopt;
    pub struct Fpr;
    #[allow(non_snake_case)]
    impl AbstractState {
        pub fn load_fpr(&mut self, _: &mut AsmIr, _: SlotId) -> Fpr {
            Fpr
        }
        pub fn def_F(&mut self, _: SlotId) -> Fpr {
            Fpr
        }
    }
    impl AsmIr {
        pub fn new_deopt(&mut self, _: &AbstractState) -> Deopt {
            Deopt
        }
        pub fn math_sqrt(&mut self, _: Fpr, _: Option<Fpr>, _: Deopt) {}
    }
    #[macro_export]
    macro_rules! inline_gen2 {
        ($f:expr) => {
            $f as $crate::world::InlineGen
        };
    }
}
pub mod builtins {
    use crate::inline_gen2;
    use crate::world::*;
    #[path = "/repo/monoruby/src/builtins/math.rs"]
    pub mod math;
    pub fn init(g: &mut Globals) {
        math::init(g);
    }
}
use vh::{Case, Verdict, vbail, vcheck};
use world::*;

unsafe extern "C" {
    fn asinh(x: f64) -> f64;
    fn acosh(x: f64) -> f64;
    fn atanh(x: f64) -> f64;
    fn asin(x: f64) -> f64;
    fn acos(x: f64) -> f64;
    fn atan(x: f64) -> f64;
    fn atan2(y: f64, x: f64) -> f64;
    fn sin(x: f64) -> f64;
    fn cos(x: f64) -> f64;
    fn tan(x: f64) -> f64;
    fn sinh(x: f64) -> f64;
    fn cosh(x: f64) -> f64;
    fn tanh(x: f64) -> f64;
    fn exp(x: f64) -> f64;
    fn expm1(x: f64) -> f64;
    fn log(x: f64) -> f64;
    fn log2(x: f64) -> f64;
    fn log10(x: f64) -> f64;
    fn log1p(x: f64) -> f64;
    fn cbrt(x: f64) -> f64;
    fn hypot(x: f64, y: f64) -> f64;
    fn erf(x: f64) -> f64;
    fn erfc(x: f64) -> f64;
    fn tgamma(x: f64) -> f64;
    fn lgamma(x: f64) -> f64;
    fn sqrt(x: f64) -> f64;
}
const SINGLE: [&str; 24] = [
    "sqrt", "cos", "sin", "tan", "exp", "sinh", "cosh", "tanh", "erf", "erfc", "expm1", "log", "log2", "log10", "asin", "acos", "atan", "asinh", "acosh", "atanh", "gamma",
    "lgamma", "cbrt", "log1p",
];
fn libm(name: &str, x: f64) -> f64 {
    unsafe {
        match name {
            "sqrt" => sqrt(x),
            "cos" => cos(x),
            "sin" => sin(x),
            "tan" => tan(x),
            "exp" => exp(x),
            "sinh" => sinh(x),
            "cosh" => cosh(x),
            "tanh" => tanh(x),
            "erf" => erf(x),
            "erfc" => erfc(x),
            "expm1" => expm1(x),
            "log" => log(x),
            "log2" => log2(x),
            "log10" => log10(x),
            "asin" => asin(x),
            "acos" => acos(x),
            "atan" => atan(x),
            "asinh" => asinh(x),
            "acosh" => acosh(x),
            "atanh" => atanh(x),
            "gamma" => tgamma(x),
            "lgamma" => lgamma(x),
            "cbrt" => cbrt(x),
            "log1p" => log1p(x),
            _ => unreachable!(),
        }
    }
}
/// Whether the function is defined there.
fn defined(name: &str, x: f64) -> bool {
    x.is_nan()
        || match name {
            "sqrt" | "log" | "log2" | "log10" => x >= 0.0,
            "asin" | "acos" | "atanh" => x.abs() <= 1.0,
            "acosh" => x >= 1.0,
            "log1p" => x >= -1.0,
            "gamma" => !(x < 0.0 && x == x.floor()),
            "lgamma" => x != f64::NEG_INFINITY,
            _ => true,
        }
}
fn near(a: f64, b: f64) -> bool {
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) || (a - b).abs() < 1e-300
}
fn float(case: &mut Case) -> f64 {
    let r = &mut case.rng;
    match r.below(10) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        1 => {
            let near = *r.pick(&[1.0f64, -1.0, 0.0, 2.0, 171.0, 23.0]);
            let f = f64::EPSILON * r.below(9) as f64;
            if r.chance(1, 2) { near + f } else { near - f }
        }
        2 => r.below(60) as f64 - 30.0,
        3 => f64::from_bits(r.next()),
        4 => 10f64.powi(r.below(600) as i32 - 300) * if r.chance(1, 3) { -1.0 } else { 1.0 },
        5 | 6 => (r.below(2001) as f64 - 1000.0) / 1000.0,
        7 => (r.below(200_001) as f64 - 100_000.0) / 997.0,
        _ => (r.below(4001) as f64 - 1000.0) / 256.0,
    }
}
/// An argument and the number it stands for.
fn arg(case: &mut Case) -> (Value, std::result::Result<f64, MonorubyErrKind>) {
    let f = float(case);
    match case.rng.below(20) {
        0..=8 => (Value::float(f), Ok(f)),
        9..=11 => {
            let i = case.rng.below(200) as i64 - 60;
            (Value::integer(i), Ok(i as f64))
        }
        12 => {
            let i = (case.rng.next() >> case.rng.below(60)) as i64 >> 2;
            (Value::integer(i), Ok(i as f64))
        }
        13 | 14 => {
            let b = big(case);
            let f = b.to_f64().unwrap();
            (Value::make(Obj::Big(b)), Ok(f))
        }
        15 => (Value::make(Obj::Thing(Some(Value::float(f)), None)), Ok(f)),
        16 => (Value::make(Obj::Thing(Some(Value::integer(3)), None)), Ok(3.0)),
        17 => (*case.rng.pick(&[Value::nil(), Value::make(Obj::Str("1".into())), Value::make(Obj::Other), Value::make(Obj::Thing(None, None))]), Err(MonorubyErrKind::Type)),
        18 => (Value::make(Obj::Thing(Some(Value::nil()), None)), Err(MonorubyErrKind::Type)),
        _ => (Value::make(Obj::Raises), Err(MonorubyErrKind::Scripted)),
    }
}
fn big(case: &mut Case) -> BigInt {
    let mut b = BigInt::from(1u64 << 63 | case.rng.next());
    let n = *case.rng.pick(&[0u64, 0, 1, 3, 16, 40]);
    for _ in 0..case.rng.below(n + 1) {
        b = (b << 64u64) + BigInt::from(case.rng.next());
    }
    if case.rng.chance(1, 4) {
        b = BigInt::from(1) << (62 + case.rng.below(3000));
    }
    if case.rng.chance(1, 4) { -b } else { b }
}
/// The binary logarithm of a large positive number.
fn log2_of(b: &BigInt) -> f64 {
    let n = b.bits() - 60;
    let top: u64 = (b >> n).to_string().parse().unwrap();
    (top as f64).log2() + n as f64
}
struct World {
    vm: Executor,
    g: Globals,
}
fn call(w: &mut World, name: &'static str, args: Vec<Value>) -> Result<Value> {
    let Some(&(f, min, max)) = w.g.funcs.get(name) else {
        eprintln!("function {name} is not there");
        std::process::exit(3);
    };
    if !(min..=max).contains(&args.len()) {
        return Err(MonorubyErr::argumenterr("wrong number of arguments"));
    }
    f(&mut w.vm, &mut w.g, Lfp(args), BytecodePtr)
}
const DOMAIN_ERR: MonorubyErrKind = MonorubyErrKind::Other(DOMAIN);
fn refused(case: &mut Case, got: &Result<Value>, kind: MonorubyErrKind, what: &str) -> Verdict {
    vcheck!(matches!(got, Err(x) if x.kind == kind), "{what} gave {got:?}, must raise {kind:?}");
    case.count(match kind {
        MonorubyErrKind::Type => "not-numbers",
        MonorubyErrKind::Scripted => "raised",
        _ => "outside-domain",
    });
    Ok(())
}
/// Functions of one argument.
fn single(case: &mut Case, w: &mut World) -> Verdict {
    let name = *case.rng.pick(&SINGLE);
    let (v, x) = arg(case);
    let what = format!("{name}({v:?})");
    case.op(|| what.clone());
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let got = call(w, name, vec![v]);
    let x = match x {
        Ok(x) => x,
        Err(kind) => return refused(case, &got, kind, &what),
    };
    let whole = if let Obj::Big(b) = v.obj() { Some(b) } else { None };
    if !defined(name, x) {
        return refused(case, &got, DOMAIN_ERR, &what);
    }
    let got = match got {
        Ok(v) => v,
        Err(e) => vbail!("{what} raised {e:?}"),
    };
    if name == "lgamma" {
        let Obj::Array(l) = got.obj() else { vbail!("{what} is {got:?}") };
        let [y, s] = l[..] else { vbail!("{what} is {got:?}") };
        let (Some(y), Some(s)) = (y.try_float(), s.try_fixnum()) else { vbail!("{what} is {got:?}") };
        vcheck!(near(y, libm(name, x)), "{what} is {got:?}, must be near {}", libm(name, x));
        let gamma = libm("gamma", x);
        let sign = if x == 0.0 { x.signum() } else if gamma == 0.0 || gamma.is_nan() { s as f64 } else { gamma.signum() };
        vcheck!(s.abs() == 1 && s as f64 == sign, "{what} is {got:?}, must have the sign {sign}");
        case.count("values-compared");
        return Ok(());
    }
    let Some(y) = got.try_float() else { vbail!("{what} is {got:?}, not a float") };
    let want = match (name, whole) {
        ("log", Some(b)) => log2_of(b) * std::f64::consts::LN_2,
        ("log2", Some(b)) => log2_of(b),
        ("log10", Some(b)) => log2_of(b) * std::f64::consts::LOG10_2,
        _ => libm(name, x),
    };
    vcheck!(near(y, want), "{what} is {y:?}, must be near {want:?}");
    if whole.is_some() && name.starts_with("log") && name != "log1p" {
        case.count("logarithms-of-large");
    }
    if name == "gamma" && x == x.floor() && (1.0..24.0).contains(&x) {
        let f: u128 = (1..x as u128).product();
        vcheck!(y == f as f64, "{what} is {y:?}, must be {f}");
        case.count("factorials");
    }
    if y == 0.0 && ["sin", "tan", "sinh", "tanh", "asin", "atan", "asinh", "atanh", "cbrt", "expm1", "log1p", "erf"].contains(&name) && x == 0.0 {
        vcheck!(y.is_sign_negative() == x.is_sign_negative(), "{what} is {y:?}");
        case.count("zeros");
    }
    // What compiled code calls instead.
    if let (Some(c), Some(x)) = (w.g.cfuncs.get(name), v.try_float()) {
        let z = unsafe { c(x) };
        vcheck!(z.to_bits() == y.to_bits() || z.is_nan() && y.is_nan(), "{what} is {y:?}, and {z:?} when compiled");
        case.count("ways-in-compared");
    }
    case.count("values-compared");
    Ok(())
}
/// Wrong numbers of arguments.
fn numbers(case: &mut Case, w: &mut World) -> Verdict {
    let two = ["atan2", "hypot", "ldexp"];
    let name = if case.rng.chance(1, 3) { *case.rng.pick(&two) } else if case.rng.chance(1, 10) { "frexp" } else { *case.rng.pick(&SINGLE) };
    let n = case.rng.us(4);
    let fits = if two.contains(&name) { n == 2 } else { n == 1 || n == 2 && name == "log" };
    let args = (0..n).map(|_| Value::float(0.5)).collect();
    case.sig_bytes(format!("{name} {n}").as_bytes());
    case.nontrivial();
    let got = call(w, name, args);
    let refused = matches!(&got, Err(e) if e.kind == MonorubyErrKind::Argument);
    vcheck!(refused != fits, "{name} with {n} arguments gave {got:?}");
    case.count("argument-counts");
    Ok(())
}
/// Functions of two arguments.
fn double(case: &mut Case, w: &mut World) -> Verdict {
    let name = *case.rng.pick(&["atan2", "hypot", "log", "ldexp"]);
    let (v, x) = arg(case);
    if name == "ldexp" {
        return scale(case, w, v, x);
    }
    let (u, y) = arg(case);
    let what = format!("{name}({v:?}, {u:?})");
    case.op(|| what.clone());
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let got = call(w, name, vec![v, u]);
    let (x, y) = match (x, y) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(kind), Ok(y)) if name != "log" || y >= 0.0 => return refused(case, &got, kind, &what),
        (Ok(x), Err(kind)) if name != "log" || x >= 0.0 => return refused(case, &got, kind, &what),
        _ => {
            vcheck!(got.is_err() || name == "log", "{what} gave {got:?}");
            case.count("raised");
            return Ok(());
        }
    };
    if name == "log" {
        if x.is_nan() || y.is_nan() {
            return Ok(());
        }
        if x < 0.0 || y < 0.0 {
            return refused(case, &got, DOMAIN_ERR, &what);
        }
    }
    let Ok(got) = &got else { vbail!("{what} raised {got:?}") };
    let Some(z) = got.try_float() else { vbail!("{what} is {got:?}, not a float") };
    let ln = |v: &Value, x: f64| match v.obj() {
        Obj::Big(b) => log2_of(b) * std::f64::consts::LN_2,
        _ => libm("log", x),
    };
    let want = match name {
        "atan2" => unsafe { atan2(x, y) },
        "hypot" => unsafe { hypot(x, y) },
        _ if x == 0.0 || y == 0.0 || y == 1.0 || x.is_infinite() && !matches!(v.obj(), Obj::Big(_)) || y.is_infinite() && !matches!(u.obj(), Obj::Big(_)) => {
            case.count("logarithms-open");
            return Ok(());
        }
        _ => ln(&v, x) / ln(&u, y),
    };
    vcheck!(near(z, want), "{what} is {z:?}, must be near {want:?}");
    case.count(if name == "log" { "logarithms" } else { "values-compared" });
    Ok(())
}
/// ldexp and frexp.
fn scale(case: &mut Case, w: &mut World, v: Value, x: std::result::Result<f64, MonorubyErrKind>) -> Verdict {
    let mut n = match case.rng.below(6) {
        0 => *case.rng.pick(&[1i64 << 31, 1 << 32, (1 << 32) + 3, -(1 << 31) - 1, -(1 << 32) - 1, 1 << 40, -(1 << 40), (1 << 62) - 1]),
        1 => case.rng.below(5000) as i64 - 2500,
        _ => case.rng.below(200) as i64 - 100,
    };
    let (u, bad) = match case.rng.below(12) {
        0 => (Value::float(n as f64), None),
        1 => (Value::make(Obj::Thing(None, Some(Value::integer(n)))), None),
        2 => (*case.rng.pick(&[Value::nil(), Value::make(Obj::Str("1".into())), Value::make(Obj::Other)]), Some(MonorubyErrKind::Type)),
        5 => {
            let b = BigInt::from(1) << (62 + case.rng.below(70));
            n = if case.rng.chance(1, 2) { i64::MAX } else { i64::MIN };
            (Value::make(Obj::Big(if n < 0 { -b - BigInt::from(1) } else { b })), None)
        }
        3 => (Value::float(*case.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])), Some(MonorubyErrKind::Range)),
        4 => (Value::make(Obj::Raises), Some(MonorubyErrKind::Scripted)),
        _ => (Value::integer(n), None),
    };
    let what = format!("ldexp({v:?}, {u:?})");
    case.op(|| what.clone());
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let got = call(w, "ldexp", vec![v, u]);
    let x = match (x, bad) {
        (Ok(x), None) => x,
        (Ok(x), Some(_)) if x.is_nan() => return Ok(()),
        (Ok(_), Some(kind)) | (Err(kind), None) => return refused(case, &got, kind, &what),
        _ => {
            vcheck!(got.is_err(), "{what} gave {got:?}");
            return Ok(());
        }
    };
    // Far outside any exponent it may be refused as well.
    let far = n != n as i32 as i64;
    if far && matches!(&got, Err(e) if e.kind == MonorubyErrKind::Range) {
        case.count("exponents-refused");
    } else {
        let Ok(Some(y)) = got.as_ref().map(|v| v.try_float()) else { vbail!("{what} gave {got:?}") };
        // Two to the n in steps that are exact.
        let mut want = x;
        let mut k = n.clamp(-5000, 5000);
        if (want * 2f64.powi(k.clamp(-1000, 1000) as i32)).is_normal() && k.abs() <= 1000 {
            want *= 2f64.powi(k as i32);
        } else {
            while k > 0 {
                want *= 2f64.powi(k.min(1000) as i32);
                k -= k.min(1000);
            }
            while k < 0 {
                want *= 2f64.powi(k.max(-1000) as i32);
                k -= k.max(-1000);
            }
        }
        let tiny = want.abs() < 1e-300 && y.abs() < 1e-300 && (want - y).abs() <= 1e-320;
        vcheck!(want == y || want.is_nan() && y.is_nan() || tiny, "{what} is {y:?}, must be {want:?}");
        case.count("scaled");
    }
    // And back.
    let got = call(w, "frexp", vec![v]);
    let Ok(got) = &got else { vbail!("frexp({v:?}) raised {got:?}") };
    let Obj::Array(l) = got.obj() else { vbail!("frexp({v:?}) is {got:?}") };
    let [m, e] = l[..] else { vbail!("frexp({v:?}) is {got:?}") };
    let (Some(m), Some(e)) = (m.try_float(), e.try_fixnum()) else { vbail!("frexp({v:?}) is {got:?}") };
    if x == 0.0 {
        vcheck!(m.to_bits() == x.to_bits() && e == 0, "frexp({v:?}) is {got:?}");
    } else if x.is_finite() {
        let half = (e / 2) as i32;
        let back = m * 2f64.powi(half) * 2f64.powi(e as i32 - half);
        vcheck!((0.5..1.0).contains(&m.abs()) && back == x, "frexp({v:?}) is {got:?}");
        case.count("taken-apart");
    }
    Ok(())
}
fn main() {
    let mut g = Globals::default();
    builtins::init(&mut g);
    // The constants outlive the cases.
    let pi = g.constants.get("PI").and_then(|v| v.try_float());
    let e = g.constants.get("E").and_then(|v| v.try_float());
    let mut w = World { vm: Executor, g };
    vh::main_loop("c52", move |case| {
        reset_heap();
        vcheck!(pi == Some(std::f64::consts::PI) && e == Some(std::f64::consts::E), "the constants are {pi:?} and {e:?}");
        if case.rng.chance(1, 50) {
            numbers(case, &mut w)
        } else if case.rng.chance(3, 5) {
            single(case, &mut w)
        } else {
            double(case, &mut w)
        }
    });
}
