//! C54: the methods of Float against exact fractions.
//!
//! The native methods are compiled from the repository; what floats are is taken from their
//! bits, and every answer is decided on whole numbers.
#![allow(dead_code, unused_imports)]

pub mod value {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RoundHalf {
        Up,
        Down,
        Even,
    }
    pub mod rvalue {
        pub use crate::world::rvalue::*;
        pub enum Encoding {
            UsAscii,
        }
        pub struct RStringInner(pub String);
        impl RStringInner {
            pub fn from_encoding(b: &[u8], _: Encoding) -> RStringInner {
                RStringInner(String::from_utf8(b.to_vec()).unwrap())
            }
        }
    }
    pub fn seeded_hasher() -> std::collections::hash_map::DefaultHasher {
        Default::default()
    }
}
pub mod world {
    pub use crate::value::RoundHalf;
    pub use num::BigInt;
    pub use plain_attr::monoruby_builtin;
    pub use rvalue::RationalInner;
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Kind {
        Range,
        Type,
        Argument,
        NoMethod,
        ZeroDivision,
        Scripted,
        Other(ClassId),
    }
    pub use Kind as MonorubyErrKind;
    #[derive(Clone, Debug)]
    pub struct MonorubyErr {
        pub kind: Kind,
        pub msg: String,
    }
    impl MonorubyErr {
        pub fn new(kind: Kind, msg: impl ToString) -> Self {
            MonorubyErr { kind, msg: msg.to_string() }
        }
        pub fn rangeerr(m: impl ToString) -> Self {
            Self::new(Kind::Range, m)
        }
        pub fn typeerr(m: impl ToString) -> Self {
            Self::new(Kind::Type, m)
        }
        pub fn argumenterr(m: impl ToString) -> Self {
            Self::new(Kind::Argument, m)
        }
        pub fn divide_by_zero() -> Self {
            Self::new(Kind::ZeroDivision, "divided by 0")
        }
        pub fn cant_convert_into_float(_: &Globals, _: Value) -> Self {
            Self::typeerr("can't convert")
        }
    }
    pub struct RValue;
    pub struct Allocator<T>(std::marker::PhantomData<T>);
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
    pub mod rvalue {
        use super::{Allocator, GC, MonorubyErr, RValue, Result, Value};
        #[path = "/repo/monoruby/src/value/rvalue/rational.rs"]
        mod rational;
        pub use rational::*;
    }
    /// How an object takes a question.
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Answer {
        /// With this value.
        With(Value),
        Raise,
        /// It has no such method.
        Missing,
    }
    #[derive(Debug)]
    pub enum Obj {
        Nil,
        Bool(bool),
        Fixnum(i64),
        Big(BigInt),
        Float(f64),
        Str(String),
        Symbol(&'static str),
        Rational(RationalInner),
        Complex(f64, f64),
        Array(Vec<Value>),
        /// Answers every question alike, but `to_int` with a number.
        Thing(Answer, Option<i64>),
    }
    #[derive(Clone, Copy)]
    pub struct Value(&'static Obj);
    impl PartialEq for Value {
        fn eq(&self, o: &Value) -> bool {
            std::ptr::eq(self.0, o.0)
        }
    }
    impl Eq for Value {}
    impl std::fmt::Debug for Value {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            match self.0 {
                Obj::Big(b) => write!(f, "{b}"),
                Obj::Fixnum(i) => write!(f, "{i}"),
                Obj::Rational(r) => write!(f, "({}/{})", r.num(), r.den()),
                o => write!(f, "{o:?}"),
            }
        }
    }
    thread_local!(static HEAP: std::cell::RefCell<Vec<*mut Obj>> = const { std::cell::RefCell::new(Vec::new()) });
    pub fn reset_heap() {
        HEAP.with_borrow_mut(|h| h.drain(..).for_each(|p| drop(unsafe { Box::from_raw(p) })));
    }
    pub enum RV<'a> {
        Nil,
        Bool(bool),
        Fixnum(i64),
        BigInt(&'a BigInt),
        Float(f64),
        Complex(()),
        String(&'a str),
        Symbol(IdentId),
        Object(()),
    }
    pub struct Array(&'static [Value]);
    impl std::ops::Deref for Array {
        type Target = [Value];
        fn deref(&self) -> &[Value] {
            self.0
        }
    }
    impl Value {
        pub fn make(o: Obj) -> Value {
            let p = Box::into_raw(Box::new(o));
            HEAP.with_borrow_mut(|h| h.push(p));
            Value(unsafe { &*p })
        }
        pub fn obj(&self) -> &'static Obj {
            self.0
        }
        pub fn nil() -> Value {
            Value::make(Obj::Nil)
        }
        pub fn bool(b: bool) -> Value {
            Value::make(Obj::Bool(b))
        }
        pub fn float(f: f64) -> Value {
            Value::make(Obj::Float(f))
        }
        pub fn complex(a: f64, b: f64) -> Value {
            Value::make(Obj::Complex(a, b))
        }
        pub fn integer(i: i64) -> Value {
            if (-(1 << 62)..1 << 62).contains(&i) { Value::make(Obj::Fixnum(i)) } else { Value::make(Obj::Big(BigInt::from(i))) }
        }
        pub fn bigint(b: BigInt) -> Value {
            match num::ToPrimitive::to_i64(&b) {
                Some(i) => Value::integer(i),
                None => Value::make(Obj::Big(b)),
            }
        }
        pub fn rational(n: impl Into<BigInt>, d: impl Into<BigInt>) -> Value {
            Value::make(Obj::Rational(RationalInner::new(n, d)))
        }
        pub fn rational_from_inner(r: RationalInner) -> Value {
            Value::make(Obj::Rational(r))
        }
        pub fn string(s: String) -> Value {
            Value::make(Obj::Str(s))
        }
        pub fn string_from_str(s: &str) -> Value {
            Value::make(Obj::Str(s.to_string()))
        }
        pub fn from_hash_digest(h: u64) -> Value {
            Value::integer((h >> 2) as i64)
        }
        pub fn is_nil(&self) -> bool {
            matches!(self.0, Obj::Nil)
        }
        pub fn as_bool(&self) -> bool {
            !matches!(self.0, Obj::Nil | Obj::Bool(false))
        }
        pub fn unpack(&self) -> RV<'static> {
            match self.0 {
                Obj::Nil => RV::Nil,
                Obj::Bool(b) => RV::Bool(*b),
                Obj::Fixnum(i) => RV::Fixnum(*i),
                Obj::Big(b) => RV::BigInt(b),
                Obj::Float(f) => RV::Float(*f),
                Obj::Str(s) => RV::String(s),
                Obj::Symbol(s) => RV::Symbol(IdentId(s)),
                Obj::Complex(..) => RV::Complex(()),
                _ => RV::Object(()),
            }
        }
        pub fn try_rational(&self) -> Option<&'static RationalInner> {
            if let Obj::Rational(r) = self.0 { Some(r) } else { None }
        }
        pub fn as_rational(&self) -> &'static RationalInner {
            self.try_rational().expect("a fraction")
        }
        pub fn try_array_ty(&self) -> Option<Array> {
            if let Obj::Array(l) = self.0 { Some(Array(l)) } else { None }
        }
        pub fn try_float(&self) -> Option<f64> {
            if let Obj::Float(f) = self.0 { Some(*f) } else { None }
        }
        pub fn try_fixnum(&self) -> Option<i64> {
            if let Obj::Fixnum(i) = self.0 { Some(*i) } else { None }
        }
        pub fn try_symbol(&self) -> Option<IdentId> {
            if let Obj::Symbol(s) = self.0 { Some(IdentId(s)) } else { None }
        }
        pub fn is_str(&self) -> Option<&'static str> {
            if let Obj::Str(s) = self.0 { Some(s) } else { None }
        }
        pub fn get_real_class_name(&self, _: &Store) -> String {
            "Object".to_string()
        }
        pub fn string_from_inner(s: crate::value::rvalue::RStringInner) -> Value {
            Value::string(s.0)
        }
        pub fn i32(i: i32) -> Value {
            Value::integer(i as i64)
        }
        pub fn from_ord(o: std::cmp::Ordering) -> Value {
            Value::integer(o as i64)
        }
        pub fn integer_from_f64(f: f64) -> Option<Value> {
            BigInt::from_f64(f).map(Value::bigint)
        }
        pub fn coerce_f64_to_int(f: f64) -> Result<Value> {
            Value::integer_from_f64(f).ok_or_else(|| MonorubyErr::new(Kind::Other(FLOAT_DOMAIN), "float"))
        }
        pub fn coerce_to_f64(&self, _: &mut Executor, _: &mut Globals) -> Result<f64> {
            match self.0 {
                Obj::Fixnum(i) => Ok(*i as f64),
                Obj::Big(b) => Ok(num::ToPrimitive::to_f64(b).unwrap()),
                Obj::Float(f) => Ok(*f),
                _ => Err(MonorubyErr::typeerr("can't convert into Float")),
            }
        }
        pub fn try_complex(&self) -> Option<()> {
            matches!(self.0, Obj::Complex(..)).then_some(())
        }
        pub fn to_s(&self, _: &Store) -> String {
            format!("{self:?}")
        }
        pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            match self.0 {
                Obj::Fixnum(i) => Ok(*i),
                Obj::Float(f) if f.is_finite() && f.abs() < 1e15 => Ok(*f as i64),
                Obj::Big(_) => Err(MonorubyErr::rangeerr("bignum too big to convert into 'long'")),
                Obj::Thing(_, Some(i)) => Ok(*i),
                _ => Err(MonorubyErr::typeerr("no implicit conversion into Integer")),
            }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct IdentId(pub &'static str);
    impl IdentId {
        pub const NEW: IdentId = IdentId("new");
        pub fn get_name(&self) -> String {
            self.0.to_string()
        }
        pub const _EQ: IdentId = IdentId("==");
        pub const _NEQ: IdentId = IdentId("!=");
        pub const _CMP: IdentId = IdentId("<=>");
        pub const _ADD: IdentId = IdentId("+");
        pub const _SUB: IdentId = IdentId("-");
        pub const _MUL: IdentId = IdentId("*");
        pub const _DIV: IdentId = IdentId("/");
        pub const _POW: IdentId = IdentId("**");
        pub fn get_id(s: &'static str) -> IdentId {
            IdentId(s)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ClassId(pub u32);
    pub const OBJECT_CLASS: ClassId = ClassId(1);
    pub const FLOAT_CLASS: ClassId = ClassId(2);
    pub const INTEGER_CLASS: ClassId = ClassId(3);
    pub const FLOAT_DOMAIN: ClassId = ClassId(4);
    #[derive(Clone, Copy)]
    pub struct Module(pub ClassId);
    impl Module {
        pub fn id(&self) -> ClassId {
            self.0
        }
        pub fn as_class_id(&self) -> ClassId {
            self.0
        }
    }
    pub struct ObjTy;
    pub trait RubyMod {
        fn ruby_mod(&self, o: &Self) -> Self;
    }
    impl RubyMod for f64 {
        fn ruby_mod(&self, o: &f64) -> f64 {
            let r = self % o;
            if r != 0.0 && (r < 0.0) != (*o < 0.0) { r + o } else { r }
        }
    }
    /// The other side as a real number.
    pub struct RealKind(f64);
    impl RealKind {
        pub fn expect(g: &mut Globals, v: Value) -> Result<RealKind> {
            v.coerce_to_f64(&mut Executor::default(), g).map(RealKind)
        }
        pub fn to_f64(&self) -> f64 {
            self.0
        }
    }
    /// Notes what was asked of the objects of the test.
    #[derive(Default)]
    pub struct Executor {
        pub asked: Vec<(Value, &'static str, Vec<Value>)>,
    }
    #[derive(Clone, Copy)]
    pub struct FuncId;
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
    #[derive(Clone, Copy)]
    pub struct BlockHandler;
    impl Executor {
        pub fn invoke_method_inner(&mut self, g: &mut Globals, id: IdentId, recv: Value, args: &[Value], b: Option<BlockHandler>, k: Option<Value>) -> Result<Value> {
            match self.invoke_method_if_exists(g, id, recv, args, b, k)? {
                Some(v) => Ok(v),
                None => Err(MonorubyErr::new(Kind::NoMethod, id.0)),
            }
        }
        pub fn invoke_method_if_exists(&mut self, _: &mut Globals, id: IdentId, recv: Value, args: &[Value], _: Option<BlockHandler>, _: Option<Value>) -> Result<Option<Value>> {
            let answer = match recv.obj() {
                Obj::Thing(Answer::Missing, _) if id.0 == "==" => Answer::With(Value::bool(recv == args[0])),
                Obj::Thing(a, _) => *a,
                _ if id.0 == "==" => Answer::With(Value::bool(recv == args[0])),
                _ => Answer::Missing,
            };
            if answer != Answer::Missing {
                self.asked.push((recv, id.0, args.to_vec()));
            }
            match answer {
                Answer::With(v) => Ok(Some(v)),
                Answer::Raise => Err(MonorubyErr::new(Kind::Scripted, "raised")),
                Answer::Missing => Ok(None),
            }
        }
    }
    #[derive(Clone, Copy)]
    pub struct Lfp(Value, &'static [Value]);
    impl Lfp {
        pub fn new(me: Value, args: Vec<Value>) -> Lfp {
            let Obj::Array(l) = Value::make(Obj::Array(args)).obj() else { unreachable!() };
            Lfp(me, l)
        }
        pub fn self_val(&self) -> Value {
            self.0
        }
        pub fn arg(&self, i: usize) -> Value {
            self.1.get(i).copied().unwrap_or_else(Value::nil)
        }
        pub fn try_arg(&self, i: usize) -> Option<Value> {
            self.1.get(i).copied()
        }
    }
    pub type Func = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;
    #[derive(Default)]
    pub struct Globals {
        pub store: Store,
        /// The function and the least and largest number of arguments.
        pub constants: std::collections::HashMap<&'static str, f64>,
        pub funcs: std::collections::HashMap<&'static str, (Func, usize, usize)>,
    }
    impl Globals {
        pub fn define_builtin_class(&mut self, _: &str, _: ClassId, _: Module, _: ClassId, _: Option<ObjTy>) {}
        pub fn set_constant_by_str(&mut self, _: ClassId, n: &'static str, v: Value) {
            self.constants.insert(n, v.try_float().or(v.try_fixnum().map(|i| i as f64)).unwrap_or(-1.0));
        }
        pub fn add_empty_method(&mut self, _: ClassId, _: IdentId, _: Visibility) {}
        pub fn define_builtin_inline_funcs(&mut self, c: ClassId, n: &'static str, more: &[&'static str], f: Func, _: InlineGen, k: usize) {
            self.define_builtin_funcs(c, n, more, f, k);
        }
        pub fn define_basic_op_inline(&mut self, c: ClassId, n: &'static str, f: Func, _: Box<InlineGenBinary>, k: usize) {
            self.define_builtin_func(c, n, f, k);
        }
        pub fn define_builtin_inline_binary_funcs(&mut self, c: ClassId, n: &'static str, more: &[&'static str], f: Func, _: Box<InlineGenBinary>, k: usize) {
            self.define_builtin_funcs(c, n, more, f, k);
        }
        pub fn define_builtin_inline_unary_func(&mut self, c: ClassId, n: &'static str, f: Func, _: Box<InlineGenUnary>) {
            self.define_builtin_func(c, n, f, 0);
        }
        pub fn define_builtin_cfunc_ff_f(&mut self, c: ClassId, n: &'static str, f: Func, _: extern "C" fn(f64, f64) -> f64, k: usize) {
            self.define_builtin_func(c, n, f, k);
        }
        pub fn define_builtin_func(&mut self, _: ClassId, n: &'static str, f: Func, k: usize) {
            self.funcs.insert(n, (f, k, k));
        }
        pub fn define_builtin_funcs(&mut self, c: ClassId, n: &'static str, more: &[&'static str], f: Func, k: usize) {
            self.define_builtin_func(c, n, f, k);
            for n in more {
                self.define_builtin_func(c, n, f, k);
            }
        }
        pub fn define_builtin_func_with(&mut self, _: ClassId, n: &'static str, f: Func, min: usize, max: usize, rest: bool) {
            self.funcs.insert(n, (f, min, if rest { usize::MAX } else { max }));
        }
        pub fn define_builtin_func_with_kw(&mut self, _: ClassId, n: &'static str, f: Func, min: usize, max: usize, rest: bool, _: &[&str], _: bool) {
            self.funcs.insert(n, (f, min, if rest { usize::MAX } else { max }));
        }
        pub fn define_builtin_class_func(&mut self, c: ClassId, n: &'static str, f: Func, k: usize) {
            self.define_builtin_func(c, n, f, k);
        }
        pub fn check_method(&self, v: Value, _: IdentId) -> Option<FuncId> {
            matches!(v.obj(), Obj::Thing(a, _) if *a != Answer::Missing).then_some(FuncId)
        }
    }
    #[derive(Default)]
    pub struct Store {
        info: ClassInfo,
        site: CallSiteInfo,
    }
    impl Store {
        pub fn get_metaclass(&self, c: ClassId) -> Module {
            Module(c)
        }
        pub fn get_constant_noautoload(&self, _: ClassId, _: IdentId) -> Option<Module> {
            Some(Module(FLOAT_DOMAIN))
        }
    }
    impl std::ops::Index<CallSiteId> for Store {
        type Output = CallSiteInfo;
        fn index(&self, _: CallSiteId) -> &CallSiteInfo {
            &self.site
        }
    }
    pub use crate::executor::Visibility;
    impl Executor {
        // The operators, which C35 watches.
        pub fn eq_values_vis_raw(&mut self, _: &mut Globals, a: Value, b: Value, _: bool) -> Result<Value> {
            Ok(Value::bool(a == b))
        }
        pub fn ne_values_bool(&mut self, _: &mut Globals, a: Value, b: Value) -> Result<bool> {
            Ok(a != b)
        }
        pub fn take_error(&mut self) -> MonorubyErr {
            MonorubyErr::typeerr("operator")
        }
    }
    // Code generation, which does not run here.
    #[derive(Clone, Copy)]
    pub struct CallSiteId;
    #[derive(Clone, Copy, Default)]
    pub struct SlotId;
    #[derive(Clone, Copy, Default)]
    pub struct CallSiteInfo {
        pub dst: Option<SlotId>,
        pub recv: SlotId,
        pub args: SlotId,
    }
    impl CallSiteInfo {
        pub fn is_simple(&self) -> bool {
            true
        }
    }
    pub use jitgen::{AbstractState, AsmIr, JitContext};
    pub enum GP {
        Rdi,
    }
    pub type InlineGen = fn(&mut AbstractState, &mut AsmIr, &JitContext, &Store, CallSiteId, Option<ClassId>, Option<ClassId>) -> bool;
    pub type InlineGenBinary =
        dyn Fn(&mut AbstractState, &mut AsmIr, &JitContext, &Store, CallSiteId, ClassId, Option<ClassId>, jitgen::BinaryInlineMode) -> jitgen::BinaryInlineOutcome;
    pub type InlineGenUnary = dyn Fn(&mut AbstractState, &mut AsmIr, &JitContext, &Store, CallSiteId, ClassId) -> bool;
    pub mod jitgen {
        use super::{GP, SlotId};
        use crate::ast::CmpKind;
        use crate::bytecodegen::{BinOpK, UnOpK};
        use trace_ir::FBinOpInfo;
        pub mod trace_ir {
            pub enum FOpClass {
                Integer,
                Float,
            }
            pub struct FBinOpInfo {
                pub lhs: super::SlotId,
                pub rhs: super::SlotId,
                pub lhs_class: FOpClass,
                pub rhs_class: FOpClass,
            }
        }
        pub mod deopt_log {
            pub enum DeoptCause {
                Static(&'static str),
            }
        }
        pub enum BinaryInlineMode {
            Value,
            CmpBr { brkind: (), dest: () },
        }
        pub enum BinaryInlineOutcome {
            Declined,
            Done,
            Folded(bool),
        }
        pub struct AbstractFrame;
        impl AbstractFrame {
            pub fn fold_cmp(_: CmpKind, _: f64, _: f64) -> bool {
                false
            }
        }
        pub struct JitContext;
        pub struct AbstractState;
        pub struct AsmIr;
        #[derive(Clone, Copy)]
        pub struct Deopt;
        #[derive(Clone, Copy)]
        pub struct Fpr;
        pub struct Label;
        pub struct Gen;
        impl Gen {
            pub fn deopt_label(&mut self, _: &(), _: Deopt, _: deopt_log::DeoptCause) -> Label {
                Label
            }
            pub fn emit_float_to_int(&mut self, _: Fpr, _: &Label, _: usize) {}
        }
        #[allow(non_snake_case)]
        impl AbstractState {
            pub fn unop_float(&mut self, _: &mut AsmIr, _: UnOpK, _: Option<SlotId>, _: SlotId) {}
            pub fn binop_float(&mut self, _: &mut AsmIr, _: BinOpK, _: Option<SlotId>, _: FBinOpInfo) {}
            pub fn gen_cmp_float(&mut self, _: &mut AsmIr, _: Option<SlotId>, _: FBinOpInfo, _: CmpKind) {}
            pub fn gen_cmpbr_float(&mut self, _: &mut AsmIr, _: FBinOpInfo, _: CmpKind, _: (), _: ()) {}
            pub fn check_binary_C_f64(&self, _: SlotId, _: SlotId) -> Option<(f64, f64)> {
                None
            }
            pub fn load_fpr(&mut self, _: &mut AsmIr, _: SlotId) -> Fpr {
                Fpr
            }
            pub fn def_reg2acc_fixnum(&mut self, _: &mut AsmIr, _: GP, _: SlotId) {}
        }
        impl AsmIr {
            pub fn new_deopt(&mut self, _: &AbstractState) -> Deopt {
                Deopt
            }
            pub fn inline(&mut self, _: impl Fn(&mut Gen, &(), &(), usize) + 'static) {}
        }
    }
    #[macro_export]
    macro_rules! inline_gen2 {
        ($f:expr) => {
            $f as $crate::world::InlineGen
        };
    }
    #[derive(Default)]
    pub struct ClassInfo;
    impl ClassInfo {
        pub fn clear_alloc_func(&mut self) {}
    }
    impl std::ops::Index<ClassId> for Store {
        type Output = ClassInfo;
        fn index(&self, _: ClassId) -> &ClassInfo {
            &self.info
        }
    }
    impl std::ops::IndexMut<ClassId> for Store {
        fn index_mut(&mut self, _: ClassId) -> &mut ClassInfo {
            &mut self.info
        }
    }
}
pub mod ast {
    #[derive(Clone, Copy)]
    pub enum CmpKind {
        Eq,
        Ne,
        Ge,
        Gt,
        Le,
        Lt,
    }
}
pub mod bytecodegen {
    #[derive(Clone, Copy)]
    pub enum BinOpK {
        Add,
        Sub,
        Mul,
        Div,
    }
    #[derive(Clone, Copy)]
    pub enum UnOpK {
        Neg,
    }
}
pub mod codegen {
    pub use crate::world::jitgen;
}
pub mod executor {
    pub enum Visibility {
        Undefined,
    }
    pub mod op {
        use crate::world::*;
        pub fn none(_: &mut Executor, _: &mut Globals, _: Value, _: Value, _: bool) -> Option<Value> {
            None
        }
        pub use none as cmp_ge_values_raw;
        pub use none as cmp_gt_values_raw;
        pub use none as cmp_le_values_raw;
        pub use none as cmp_lt_values_raw;
    }
}
pub fn ruby_float_to_s(f: f64) -> String {
    format!("{f:?}")
}
pub mod builtins {
    pub mod op {
        use num::BigInt;
        /// Exact.
        pub fn bigint_cmp_float(a: &BigInt, f: f64) -> Option<std::cmp::Ordering> {
            if f.is_nan() {
                return None;
            }
            if f.is_infinite() {
                return 0.0f64.partial_cmp(&f);
            }
            let t = BigInt::from_f64(f.trunc()).unwrap();
            Some(a.cmp(&t).then(0.0f64.partial_cmp(&(f - f.trunc())).unwrap()))
        }
    }
    pub mod numeric {
        use crate::inline_gen2;
        use crate::world::*;
        /// The operators, which C35 watches.
        fn operator(_: &mut Executor, _: &mut Globals, _: Lfp, _: BytecodePtr) -> Result<Value> {
            Err(MonorubyErr::typeerr("operator"))
        }
        use operator as add;
        use operator as sub;
        use operator as mul;
        use operator as div;
        use operator as rem;
        use operator as pow;
        use operator as neg;
        use operator as divmod;
        #[path = "/repo/monoruby/src/builtins/numeric/float.rs"]
        pub mod float;
        pub fn setup(g: &mut Globals) {
            float::init(g, Module(OBJECT_CLASS));
        }
    }
}
use vh::{vbail, vcheck, Case};
use world::*;

type Check<T = ()> = std::result::Result<T, vh::Violation>;
struct World {
    vm: Executor,
    g: Globals,
}
fn call(w: &mut World, name: &str, me: Value, args: Vec<Value>) -> Result<Value> {
    let Some((f, ..)) = w.g.funcs.get(name) else { panic!("Float has no {name}") };
    w.vm.asked.clear();
    f(&mut w.vm, &mut w.g, Lfp::new(me, args), BytecodePtr)
}
fn big(i: i128) -> BigInt {
    BigInt::from_i128(i)
}
/// A fraction with a positive denominator, not always reduced.
#[derive(Clone)]
struct Q(BigInt, BigInt);
impl Q {
    fn new(n: BigInt, d: BigInt) -> Q {
        if d < big(0) { Q(-n, -d) } else { Q(n, d) }
    }
    fn int(n: BigInt) -> Q {
        Q(n, big(1))
    }
    fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        (&self.0 * &o.1).cmp(&(&o.0 * &self.1))
    }
    fn same(&self, o: &Q) -> bool {
        self.cmp(o) == std::cmp::Ordering::Equal
    }
    fn whole(&self) -> bool {
        &self.0 % &self.1 == big(0)
    }
    fn value(&self) -> Value {
        Value::rational(self.0.clone(), self.1.clone())
    }
    /// Correctly rounded, if both halves are exact floats.
    fn f(&self) -> Option<f64> {
        let (n, d) = (self.0.to_i128()?, self.1.to_i128()?);
        let lim = 1i128 << 53;
        (n.abs() <= lim && d <= lim).then(|| n as f64 / d as f64)
    }
    /// The largest whole number not above it.
    fn floor(&self) -> BigInt {
        let q = &self.0 / &self.1;
        if &q * &self.1 > self.0 { q - big(1) } else { q }
    }
}
fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.clone(), b.clone());
    while b != big(0) {
        let r = &a % &b;
        a = b;
        b = r;
    }
    if a < big(0) { -a } else { a }
}
fn int_of(v: Value) -> Option<BigInt> {
    match v.obj() {
        Obj::Fixnum(i) => Some(BigInt::from(*i)),
        Obj::Big(b) => Some(b.clone()),
        _ => None,
    }
}
/// It must be a fraction in lowest terms equal to `want`.
fn fraction(case: &mut Case, got: &Result<Value>, want: &Q, what: &str) -> Check {
    let Some(r) = got.as_ref().ok().and_then(|v| v.try_rational()) else { vbail!("{what} gave {got:?}, must be {}/{}", want.0, want.1) };
    vcheck!(Q(r.num().clone(), r.den().clone()).same(want), "{what} is {got:?}, must be {}/{}", want.0, want.1);
    vcheck!(*r.den() > big(0) && gcd(r.num(), r.den()) == big(1), "{what} is {got:?}, not in lowest terms");
    case.count("fractions");
    Ok(())
}
fn whole(case: &mut Case, got: &Result<Value>, want: &BigInt, what: &str) -> Check {
    let i = got.as_ref().ok().and_then(|v| int_of(*v));
    vcheck!(i.as_ref() == Some(want), "{what} gave {got:?}, must be {want}");
    case.count("whole-numbers");
    Ok(())
}
fn truth(case: &mut Case, got: &Result<Value>, want: bool, what: &str) -> Check {
    vcheck!(matches!(got, Ok(v) if matches!(v.obj(), Obj::Bool(b) if *b == want)), "{what} gave {got:?}, must be {want}");
    case.count("truths");
    Ok(())
}
fn float(case: &mut Case, got: &Result<Value>, want: f64, what: &str) -> Check {
    let y = got.as_ref().ok().and_then(|v| v.try_float());
    vcheck!(matches!(y, Some(y) if y == want || y.is_nan() && want.is_nan()), "{what} gave {got:?}, must be {want:?}");
    case.count("floats");
    Ok(())
}
fn refused(case: &mut Case, got: &Result<Value>, kinds: &[Kind], what: &str) -> Check {
    vcheck!(matches!(got, Err(e) if kinds.contains(&e.kind)), "{what} gave {got:?}, must raise one of {kinds:?}");
    case.count("refused");
    Ok(())
}

/// What a finite float is.
fn exact(f: f64) -> Q {
    let bits = f.to_bits();
    let e = (bits >> 52 & 0x7ff) as i64;
    let m = (bits & ((1 << 52) - 1)) as i128;
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let m = big(if f.is_sign_negative() { -m } else { m });
    if e >= 0 { Q(m << e, big(1)) } else { Q(m, big(1) << -e) }
}
fn ulp(f: f64) -> f64 {
    f.abs().next_up() - f.abs()
}
fn draw(case: &mut Case) -> f64 {
    let r = &mut case.rng;
    let f = match r.below(12) {
        0 => *r.pick(&[0.0, 0.5, 1.0, 1e300, f64::MAX, 5e-324, f64::MIN_POSITIVE, 0.49999999999999994, 4503599627370497.5, 9223372036854775808.0, 4611686018427387904.0, 9007199254740992.0]),
        1 => *r.pick(&[f64::NAN, f64::INFINITY]),
        2 => r.below(1 << 53) as f64 * 2f64.powi(r.below(80) as i32 - 10),
        3 => r.below(100) as f64 + 0.5,
        4 => r.below(4000) as f64 / 8.0,
        5 => r.below(1000000) as f64 / 10f64.powi(r.below(7) as i32),
        6 => (1.0 + r.below(1000) as f64).next_down(),
        7 => (r.below(1000) as f64).next_up(),
        8 => (5 * (1 + r.below(200))) as f64 * 10f64.powi(r.below(4) as i32),
        9 => f64::from_bits(r.next() >> 1),
        10 => r.below(1 << 30) as f64 / 65536.0,
        _ => r.below(50) as f64,
    };
    if r.chance(2, 5) { -f } else { f }
}
const DOMAIN: Kind = Kind::Other(FLOAT_DOMAIN);
fn rounding(case: &mut Case, w: &mut World) -> Check {
    let f = draw(case);
    let me = Value::float(f);
    let op = *case.rng.pick(&["floor", "ceil", "truncate", "round", "round"]);
    let n = match case.rng.below(8) {
        0 | 1 => 0,
        2 => -(case.rng.below(25) as i64),
        3 => -(case.rng.below(4) as i64),
        4 => *case.rng.pick(&[15, 22, 300, 308, 309, 400, 1000]),
        _ => 1 + case.rng.below(10) as i64,
    };
    let mut bad: &[Kind] = &[];
    let mut args = match case.rng.below(10) {
        0 => vec![Value::make(Obj::Thing(Answer::Missing, Some(n)))],
        1 => {
            bad = &[Kind::Type];
            vec![*case.rng.pick(&[Value::nil(), Value::make(Obj::Str("1".into()))])]
        }
        2 if n == 0 => vec![],
        _ => vec![Value::integer(n)],
    };
    let mut half = "up";
    if op == "round" && !args.is_empty() && case.rng.chance(2, 3) {
        half = *case.rng.pick(&["up", "down", "even", "even", "nil", "sideways"]);
        args.push(if half == "nil" { Value::nil() } else { Value::make(Obj::Symbol(half)) });
        if half == "sideways" {
            bad = &[Kind::Argument, Kind::Type];
        }
    }
    let what = format!("{f:?}.{op}({args:?})");
    case.op(|| what.clone());
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let got = call(w, op, me, args);
    if !bad.is_empty() {
        return refused(case, &got, bad, &what);
    }
    if !f.is_finite() {
        return if n > 0 { float(case, &got, f, &what) } else { refused(case, &got, &[DOMAIN], &what) };
    }
    let a = exact(f);
    let neg = a.0 < big(0);
    if n > 10 || n > 0 && f.abs() >= 1e5 {
        // At most one unit of the last place asked for, or the last bits.
        let Some(y) = got.as_ref().ok().and_then(|v| v.try_float()) else { vbail!("{what} gave {got:?}") };
        let slack = if n >= 309 { 0.0 } else { 10f64.powi(-n as i32) * 1.000001 + 4.0 * ulp(f) };
        vcheck!((y - f).abs() <= slack, "{what} gave {got:?}");
        case.count("many-digits");
        return Ok(());
    }
    let ten = big(10i128.pow(n.unsigned_abs() as u32));
    // In units of the last place.
    let u = if n >= 0 { Q(&a.0 * &ten, a.1.clone()) } else { Q(a.0.clone(), &a.1 * &ten) };
    let low = u.floor();
    let up = &low + &big(1);
    let mut open = false;
    let mut tie = false;
    let k = if u.whole() {
        low.clone()
    } else {
        match op {
            "floor" => low.clone(),
            "ceil" => up.clone(),
            "truncate" => if neg { up.clone() } else { low.clone() },
            _ => {
                // Twice the rest against the unit.
                let rest = Q((&u.0 - &(&low * &u.1)) * big(2), u.1.clone());
                match (rest.cmp(&Q::int(big(1))), half) {
                    (std::cmp::Ordering::Equal, h) => {
                        case.count("ties");
                        tie = true;
                        let away = if neg { &low } else { &up };
                        let back = if neg { &up } else { &low };
                        match h {
                            "even" => if &low % &big(2) == big(0) { low.clone() } else { up.clone() },
                            "down" => back.clone(),
                            _ => away.clone(),
                        }
                    }
                    (o, h) => {
                        // Ruby drops the digits after the point first.
                        open = n < 0 && (h == "down" || h == "even") && &a.0 % &a.1 != big(0);
                        if o == std::cmp::Ordering::Less { low.clone() } else { up.clone() }
                    }
                }
            }
        }
    };
    case.count("rounded");
    if n <= 0 {
        if open {
            return Ok(());
        }
        return whole(case, &got, &(k * ten), &what);
    }
    let Some(y) = got.as_ref().ok().and_then(|v| v.try_float()) else { vbail!("{what} gave {got:?}") };
    // The float nearest to k units; both halves are exact.
    let shown = |k: &BigInt| k.to_i128().unwrap() as f64 / 10f64.powi(n as i32);
    if y == shown(&k) {
        case.count("digits-kept");
        return Ok(());
    }
    // A float that stands for a decimal, or for the middle of two, is no more than that:
    // either neighbour may be meant.
    let near = |x: f64| (x - f).abs() <= 2.0 * ulp(f);
    let stands = near(shown(&low)) || near(shown(&up)) || op == "round" && !u.whole() && {
        let mid = (&low + &up).to_i128().unwrap() as f64 / (2.0 * 10f64.powi(n as i32));
        near(mid)
    };
    vcheck!(stands && !tie && (y == shown(&low) || y == shown(&up)), "{what} gave {got:?}, must be {:?}", shown(&k));
    case.count("digits-open");
    Ok(())
}
fn fractions(case: &mut Case, w: &mut World) -> Check {
    let f = draw(case);
    let me = Value::float(f);
    let what = format!("{f:?}");
    case.op(|| format!("fractions of {what}"));
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let to_r = call(w, "to_r", me, vec![]);
    let name = if case.rng.chance(1, 2) { "to_i" } else { "to_int" };
    let to_i = call(w, name, me, vec![]);
    let plain = call(w, "rationalize", me, vec![]);
    if !f.is_finite() {
        for (m, got) in [("to_r", &to_r), ("to_i", &to_i), ("rationalize", &plain)] {
            refused(case, got, &[DOMAIN], &format!("{what}.{m}"))?;
        }
        return Ok(());
    }
    let a = exact(f);
    fraction(case, &to_r, &a, &format!("{what}.to_r"))?;
    let t = exact(f.trunc());
    whole(case, &to_i, &t.0.div_euclid_exact(&t.1), &format!("{what}.to_i"))?;
    let Some(r) = plain.as_ref().ok().and_then(|v| v.try_rational()) else { vbail!("{what}.rationalize gave {plain:?}") };
    let r = Q(r.num().clone(), r.den().clone());
    let off = distance(&r, &a);
    if a.whole() {
        vcheck!(r.same(&a), "{what}.rationalize gave {plain:?}");
        case.count("whole-rationalized");
    } else {
        vcheck!(off.cmp(&exact(ulp(f))) != std::cmp::Ordering::Greater && r.1 <= a.1, "{what}.rationalize gave {plain:?}");
        case.count("rationalized");
    }
    // Within a distance.
    if f.abs() > 1e12 || f != 0.0 && f.abs() < 1e-12 {
        return Ok(());
    }
    let d = 1 + case.rng.below(400) as i64;
    let e = Q(big(1 + case.rng.below(4) as i128), big(d as i128));
    let minus = case.rng.chance(1, 2);
    let s = |q: Q| if minus { Q(-q.0, q.1) } else { q };
    let (v, e) = match case.rng.below(4) {
        0 => (Value::integer(if minus { -1 } else { 1 } * (d % 4)), Q::int(big((d % 4) as i128))),
        1 => {
            let x = 1.0 / d as f64;
            (Value::float(if minus { -x } else { x }), exact(x))
        }
        _ => {
            let q = s(e.clone());
            (Value::rational(q.0, q.1), e)
        }
    };
    let got = call(w, "rationalize", me, vec![v]);
    let what = format!("{what}.rationalize({v:?})");
    let Some(r) = got.as_ref().ok().and_then(|v| v.try_rational()) else { vbail!("{what} gave {got:?}") };
    let r = Q(r.num().clone(), r.den().clone());
    vcheck!(distance(&r, &a).cmp(&e) != std::cmp::Ordering::Greater, "{what} gave {got:?}, too far");
    // Nothing simpler is as near.
    let lo = Q(&a.0 * &e.1 - &e.0 * &a.1, &a.1 * &e.1);
    let hi = Q(&a.0 * &e.1 + &e.0 * &a.1, &a.1 * &e.1);
    for d in 1..r.1.to_i128().unwrap_or(0).min(300) {
        let n = Q(&hi.0 * &big(d), hi.1.clone()).floor();
        vcheck!(Q(n.clone(), big(d)).cmp(&lo) == std::cmp::Ordering::Less, "{what} gave {got:?}, but {n}/{d} is simpler");
    }
    case.count("within-distance");
    Ok(())
}
trait Whole {
    fn div_euclid_exact(&self, d: &BigInt) -> BigInt;
}
impl Whole for BigInt {
    fn div_euclid_exact(&self, d: &BigInt) -> BigInt {
        self / d
    }
}
fn distance(a: &Q, b: &Q) -> Q {
    let n = &a.0 * &b.1 - &b.0 * &a.1;
    Q(if n < big(0) { -n } else { n }, &a.1 * &b.1)
}
fn single(case: &mut Case, w: &mut World) -> Check {
    let f = draw(case);
    let me = Value::float(f);
    let what = format!("{f:?}");
    case.op(|| format!("methods of {what}"));
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    for (m, want) in [("next_float", f.next_up()), ("prev_float", f.next_down()), ("abs", f.abs()), ("magnitude", f.abs())] {
        let got = call(w, m, me, vec![]);
        float(case, &got, want, &format!("{what}.{m}"))?;
    }
    for (m, want) in [("finite?", f.is_finite()), ("nan?", f.is_nan())] {
        let got = call(w, m, me, vec![]);
        truth(case, &got, want, &format!("{what}.{m}"))?;
    }
    let got = call(w, "infinite?", me, vec![]);
    if f.is_infinite() {
        whole(case, &got, &big(if f > 0.0 { 1 } else { -1 }), &format!("{what}.infinite?"))?;
    } else {
        vcheck!(matches!(&got, Ok(v) if v.is_nil()), "{what}.infinite? gave {got:?}");
    }
    let m = *case.rng.pick(&["angle", "arg", "phase"]);
    let got = call(w, m, me, vec![]);
    if f.is_nan() || f.is_sign_negative() {
        float(case, &got, if f.is_nan() { f } else { std::f64::consts::PI }, &format!("{what}.{m}"))?;
    } else {
        whole(case, &got, &big(0), &format!("{what}.{m}"))?;
    }
    // Equal floats, and only those, belong in one place of a hash.
    let g = match case.rng.below(4) {
        0 => f,
        1 => f.next_up(),
        2 => if f == 0.0 { -f } else { -f },
        _ => draw(case),
    };
    let other = Value::float(g);
    let got = call(w, "eql?", me, vec![other]);
    truth(case, &got, f == g, &format!("{what}.eql?({g:?})"))?;
    let h = |w: &mut World, v: Value| call(w, "hash", v, vec![]).ok().and_then(int_of);
    let (x, y) = (h(w, me), h(w, other));
    vcheck!(x.is_some() && (f.is_nan() || (f == g) == (x == y)), "{what} and {g:?} hash to {x:?} and {y:?}");
    case.count("hashes");
    let odd = *case.rng.pick(&[Value::integer(1), Value::nil(), Value::rational(1, 2)]);
    let got = call(w, "eql?", me, vec![odd]);
    truth(case, &got, false, &format!("{what}.eql?({odd:?})"))?;
    for (m, min, max) in [
        ("to_i", 0, 0), ("to_int", 0, 0), ("+", 1, 1), ("-", 1, 1), ("*", 1, 1), ("/", 1, 1), ("%", 1, 1), ("**", 1, 1), ("-@", 0, 0), ("hash", 0, 0),
        ("div", 1, 1), ("modulo", 1, 1), ("divmod", 1, 1), ("==", 1, 1), ("===", 1, 1), (">=", 1, 1), (">", 1, 1), ("<=", 1, 1), ("<", 1, 1), ("!=", 1, 1),
        ("<=>", 1, 1), ("floor", 0, 1), ("ceil", 0, 1), ("truncate", 0, 1), ("round", 0, 1), ("finite?", 0, 0), ("infinite?", 0, 0), ("nan?", 0, 0),
        ("abs", 0, 0), ("angle", 0, 0), ("next_float", 0, 0), ("prev_float", 0, 0), ("quo", 1, 1), ("eql?", 1, 1), ("to_s", 0, 0), ("to_r", 0, 0), ("rationalize", 0, 1),
    ] {
        if let Some((_, lo, hi)) = w.g.funcs.get(m) {
            vcheck!((*lo, *hi) == (min, max), "Float#{m} takes {lo} to {hi} arguments, must take {min} to {max}");
        }
    }
    case.count("argument-counts");
    for (n, want) in [
        ("INFINITY", f64::INFINITY), ("MAX", f64::MAX), ("MIN", f64::MIN_POSITIVE), ("EPSILON", 2f64.powi(-52)), ("DIG", 15.0), ("MANT_DIG", 53.0), ("RADIX", 2.0),
        ("MAX_EXP", 1024.0), ("MIN_EXP", -1021.0), ("MAX_10_EXP", 308.0), ("MIN_10_EXP", -307.0),
    ] {
        let is = w.g.constants.get(n);
        vcheck!(is == Some(&want), "Float::{n} is {is:?}");
    }
    Ok(())
}
fn binary(case: &mut Case, w: &mut World) -> Check {
    let f = draw(case);
    let me = Value::float(f);
    let op = *case.rng.pick(&["<=>", "div", "quo"]);
    let mut answer = None;
    let mut int = None;
    let mut x = 0.0;
    let v = match case.rng.below(8) {
        0..=2 => {
            x = if case.rng.chance(1, 4) { f } else { draw(case) };
            Value::float(x)
        }
        3..=5 => {
            let n = match case.rng.below(4) {
                0 if f.is_finite() => exact(f).floor() + big(case.rng.below(3) as i128 - 1),
                1 => big(case.rng.below(1 << 62) as i128) * big(1 + case.rng.below(1 << 20) as i128),
                2 => big((1 << 53) + case.rng.below(16) as i128),
                _ => big(case.rng.below(40) as i128 - 10),
            };
            x = n.to_i128().map_or(f64::NAN, |i| i as f64);
            int = Some(n.clone());
            Value::bigint(n)
        }
        _ => {
            let a = match case.rng.below(5) {
                0 => Answer::Raise,
                1 => Answer::Missing,
                2 if op != "div" => Answer::With(Value::nil()),
                _ => {
                    let token = Value::make(Obj::Str("answer".into()));
                    let first = Value::make(Obj::Thing(Answer::With(token), None));
                    let mut l = vec![first, Value::integer(1)];
                    if case.rng.chance(1, 4) {
                        l.push(Value::nil());
                    }
                    Answer::With(Value::make(Obj::Array(l)))
                }
            };
            answer = Some(a);
            Value::make(Obj::Thing(a, None))
        }
    };
    let what = format!("{f:?} {op} {v:?}");
    case.op(|| what.clone());
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let got = call(w, op, me, vec![v]);
    if let Some(answer) = answer {
        if op == "div" {
            return refused(case, &got, &[Kind::Type, DOMAIN], &what);
        }
        let asked = &w.vm.asked;
        vcheck!(answer == Answer::Missing || asked.first().is_some_and(|(r, n, a)| *r == v && *n == "coerce" && a[..] == [me]), "{what} did not ask to coerce first: {asked:?}");
        return match answer {
            Answer::Raise => refused(case, &got, &[Kind::Scripted], &what),
            Answer::With(pair) if matches!(pair.obj(), Obj::Array(l) if l.len() == 2) => {
                let Obj::Array(l) = pair.obj() else { unreachable!() };
                let Obj::Thing(Answer::With(token), _) = l[0].obj() else { unreachable!() };
                let name = if op == "quo" { "/" } else { op };
                vcheck!(asked.len() == 2 && asked[1].0 == l[0] && asked[1].1 == name && asked[1].2[..] == [l[1]], "{what} asked {asked:?}");
                vcheck!(matches!(&got, Ok(v) if v == token), "{what} gave {got:?}, not the answer");
                case.count("handed-over");
                Ok(())
            }
            _ if op == "<=>" && matches!(&got, Ok(v) if v.is_nil()) => Ok(()),
            _ => refused(case, &got, &[Kind::Type], &what),
        };
    }
    match op {
        "<=>" => {
            let want = match &int {
                _ if f.is_nan() || x.is_nan() && int.is_none() => None,
                Some(n) if f.is_finite() => Some(exact(f).cmp(&Q::int(n.clone()))),
                Some(_) => f.partial_cmp(&0.0),
                None => f.partial_cmp(&x),
            };
            match want {
                Some(o) => whole(case, &got, &big(o as i128), &what),
                None => {
                    vcheck!(matches!(&got, Ok(v) if v.is_nil()), "{what} gave {got:?}, must be nil");
                    Ok(())
                }
            }
        }
        "quo" => {
            if int.is_some() && x.is_nan() {
                return Ok(());
            }
            float(case, &got, f / x, &what)
        }
        _ => {
            if int.is_some() && x.is_nan() {
                return Ok(());
            }
            let q = (f / x).floor();
            if f.is_finite() && x == 0.0 {
                return refused(case, &got, &[Kind::ZeroDivision], &what);
            }
            if !f.is_finite() || x == 0.0 || !q.is_finite() {
                return refused(case, &got, &[DOMAIN, Kind::ZeroDivision], &what);
            }
            let q = exact(q);
            whole(case, &got, &(&q.0 / &q.1), &what)
        }
    }
}
fn main() {
    let mut g = Globals::default();
    builtins::numeric::setup(&mut g);
    let mut w = World { vm: Executor::default(), g };
    vh::main_loop("c54", move |case| {
        w.vm.asked.clear();
        reset_heap();
        match case.rng.below(10) {
            0..=4 => rounding(case, &mut w),
            5 | 6 => binary(case, &mut w),
            7 | 8 => single(case, &mut w),
            _ => fractions(case, &mut w),
        }
    });
}
