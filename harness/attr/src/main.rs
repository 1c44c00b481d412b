//! C16: builtin wrappers and object wrappers expanded against a recording interpreter.
#![allow(dead_code, unused_variables, clippy::all)]
mod vm;
use monoruby_attr::{monoruby_builtin, monoruby_object};
use vh::{vbail, vcheck, veq, Case, Verdict};
use vm::*;

pub mod alloc {
    pub struct Allocator<T> {
        pub serial: u64,
        pub _m: std::marker::PhantomData<T>,
    }
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
}
pub mod builtins {
    pub mod kernel {
        use crate::vm::*;
        pub fn push_builtin_trace(vm: &mut Executor, globals: &mut Globals, err: &mut MonorubyErr, func_id: FuncId) {
            ev(Ev::Trace { func: func_id.0, err: err.serial, vm: vm.serial, globals: globals.serial });
            err.trace.push(func_id.0);
        }
    }
}

// ---------------------------------------------------------------- builtins

/// What one call of a wrapped method does: a sequence of calls, then an end.
#[derive(Debug, Clone)]
pub struct Node {
    func: usize,
    calls: Vec<(usize, bool)>, // (node, rescue its failure)
    end: End,
}
#[derive(Debug, Clone)]
enum End {
    Value(u64),
    Raise(u64),
    Return(u64, usize), // to the frame of that node
    Throw(u64),
    ReturnElsewhere(u64),
}

fn body(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let no = lfp.no();
    ev(Ev::Enter { func: lfp.func_id().0, frame: no, pc: pc.0, vm: vm.serial, globals: globals.serial });
    let node = vm.prog[no].clone();
    for (child, rescue) in &node.calls {
        let l = Lfp::of(&vm.frames[*child]);
        let f = FUNCS[vm.prog[*child].func];
        vm.depth += 1;
        let r = f(vm, globals, l, BytecodePtr(*child as u64 * 8 + 3));
        vm.depth -= 1;
        if r.is_none() {
            let err = vm.take_error();
            match err {
                None => panic!("harness: failure without an error"),
                Some(e) => {
                    if !*rescue {
                        return Err(e);
                    }
                    vm.raised.push(e);
                }
            }
        }
    }
    let err = |vm: &mut Executor, kind, msg: &str| {
        vm.next_err += 1;
        Err(MonorubyErr { kind, msg: format!("{msg} in {no}"), serial: vm.next_err, trace: vec![] })
    };
    match node.end {
        End::Value(v) => {
            ev(Ev::Leave { func: lfp.func_id().0, frame: no });
            Ok(Value::from_u64(v))
        }
        End::Raise(k) => {
            let kind = match k % 4 {
                0 => MonorubyErrKind::Exception,
                1 => MonorubyErrKind::Runtime,
                2 => MonorubyErrKind::NotMethod(Some(Value::from_u64(k + 1))),
                _ => MonorubyErrKind::Retry,
            };
            err(vm, kind, "raised")
        }
        End::Throw(v) => err(vm, MonorubyErrKind::Throw(Value::from_u64(v), Value::nil()), "thrown"),
        End::Return(v, to) => {
            let l = Lfp::of(&vm.frames[to]);
            err(vm, MonorubyErrKind::MethodReturn(Value::from_u64(v), l), "returned")
        }
        End::ReturnElsewhere(v) => {
            let l = Lfp::of(vm.frames.last().unwrap());
            err(vm, MonorubyErrKind::MethodReturn(Value::from_u64(v), l), "returned")
        }
    }
}

// Wrapped functions in the shapes the interpreter's builtins take.
#[monoruby_builtin]
fn direct(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    body(vm, globals, lfp, pc)
}
///
/// ### Kernel#documented
///
/// - documented(*args) -> nil
///
#[monoruby_builtin]
fn documented(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let v = body(vm, globals, lfp, pc)?;
    Ok(v)
}
#[monoruby_builtin]
pub(crate) fn early(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    for _ in 0..2 {
        match body(vm, globals, lfp, pc) {
            Ok(v) => return Ok(v),
            Err(e) => return Err(e),
        }
    }
    unreachable!()
}
#[monoruby_builtin]
fn renamed_args(v: &mut Executor, gl: &mut Globals, frame: Lfp, _: BytecodePtr) -> Result<Value> {
    body(v, gl, frame, BytecodePtr(frame.no() as u64 * 8 + 3))
}
#[monoruby_builtin]
#[allow(unused_mut)]
pub fn with_attr(mut vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let r: Result<Value> = (|| body(vm, globals, lfp, pc))();
    r.map(|v| v)
}
#[monoruby_builtin]
#[inline(never)]
fn loop_(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let (wrapped, base_name) = (1, 2);
    let _ = wrapped + base_name;
    body(vm, globals, lfp, pc)
}
mod nested {
    use super::*;
    #[monoruby_builtin]
    pub(super) fn inner_mod(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
        super::body(vm, globals, lfp, pc)
    }
}

type BuiltinFn = extern "C" fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Option<Value>;
const FUNCS: [BuiltinFn; 7] = [direct, documented, early, renamed_args, with_attr, loop_, nested::inner_mod];

/// How a call ended, according to the rules alone.
#[derive(Debug, Clone)]
enum Got {
    Val(u64),
    Err(MonorubyErr),
}
struct Model {
    log: Vec<Ev>,
    next: u64,
    rescued: Vec<MonorubyErr>,
}
impl Model {
    fn call(&mut self, x: &Executor, no: usize, serials: (u64, u64)) -> Got {
        let n = &x.prog[no];
        let func = x.frames[no].func.0;
        self.log.push(Ev::Enter { func, frame: no, pc: no as u64 * 8 + 3, vm: serials.0, globals: serials.1 });
        let mut out = None;
        for (c, rescue) in &n.calls {
            if let Got::Err(e) = self.call(x, *c, serials) {
                self.log.push(Ev::TakeError { err: e.serial });
                if *rescue {
                    self.rescued.push(e);
                } else {
                    out = Some(e);
                    break;
                }
            }
        }
        let mut e = match out {
            Some(e) => e,
            None => {
                let (kind, msg) = match &n.end {
                    End::Value(v) => {
                        self.log.push(Ev::Leave { func, frame: no });
                        return Got::Val(*v);
                    }
                    End::Raise(k) => (
                        match k % 4 {
                            0 => MonorubyErrKind::Exception,
                            1 => MonorubyErrKind::Runtime,
                            2 => MonorubyErrKind::NotMethod(Some(Value::from_u64(k + 1))),
                            _ => MonorubyErrKind::Retry,
                        },
                        "raised",
                    ),
                    End::Throw(v) => (MonorubyErrKind::Throw(Value::from_u64(*v), Value::nil()), "thrown"),
                    End::Return(v, to) => (MonorubyErrKind::MethodReturn(Value::from_u64(*v), Lfp::of(&x.frames[*to])), "returned"),
                    End::ReturnElsewhere(v) => {
                        (MonorubyErrKind::MethodReturn(Value::from_u64(*v), Lfp::of(x.frames.last().unwrap())), "returned")
                    }
                };
                self.next += 1;
                MonorubyErr { kind, msg: format!("{msg} in {no}"), serial: self.next, trace: vec![] }
            }
        };
        if let MonorubyErrKind::MethodReturn(v, l) = &e.kind {
            if *l == Lfp::of(&x.frames[no]) {
                return Got::Val(v.id());
            }
        }
        self.log.push(Ev::Trace { func, err: e.serial, vm: serials.0, globals: serials.1 });
        e.trace.push(func);
        self.log.push(Ev::SetError { err: e.serial, trace: e.trace.clone() });
        Got::Err(e)
    }
}

fn builtins_case(case: &mut Case) -> Verdict {
    let n = 1 + case.rng.us(12);
    let mut prog = vec![];
    // nodes are numbered so that children have higher numbers; ancestors chosen on the way
    let mut parent = vec![usize::MAX];
    for i in 1..n {
        parent.push(case.rng.us(i));
    }
    for i in 0..n {
        let calls: Vec<_> = (i + 1..n).filter(|c| parent[*c] == i).map(|c| (c, case.rng.chance(1, 4))).collect();
        let v = case.rng.range(1, 1 << 40);
        let end = match case.rng.us(10) {
            0..=2 => End::Value(v),
            3..=4 => End::Raise(v),
            5 => End::Throw(v),
            6..=8 => {
                // some ancestor or the frame itself, or any frame
                let mut to = i;
                let hops = case.rng.us(4);
                for _ in 0..hops {
                    if parent[to] != usize::MAX {
                        to = parent[to];
                    }
                }
                if case.rng.chance(1, 6) {
                    to = case.rng.us(n);
                }
                End::Return(v, to)
            }
            _ => End::ReturnElsewhere(v),
        };
        prog.push(Node { func: case.rng.us(FUNCS.len()), calls, end });
    }
    // several frames may run the same method
    let funcs: Vec<u32> = (0..n + 1).map(|_| case.rng.below(5) as u32 + 1).collect();
    let frames: Vec<Box<Frame>> = (0..=n).map(|i| Box::new(Frame { func: FuncId(funcs[i]), no: i })).collect();
    let (s1, s2) = (case.rng.next() | 1, case.rng.next() | 1);
    let mut x = Executor { serial: s1, error: None, next_err: 0, overwritten: 0, prog, frames, raised: vec![], depth: 0 };
    let mut g = Globals { serial: s2 };
    for (i, p) in x.prog.iter().enumerate() {
        let l = format!("node {i}: {p:?}");
        case.sig_bytes(l.as_bytes());
        case.op(|| l);
    }
    case.nontrivial();
    let mut m = Model { log: vec![], next: 0, rescued: vec![] };
    let want = m.call(&x, 0, (s1, s2));
    take_log();
    let l = Lfp::of(&x.frames[0]);
    let f = FUNCS[x.prog[0].func];
    let got = f(&mut x, &mut g, l, BytecodePtr(3));
    let log = take_log();
    for (i, e) in log.iter().enumerate() {
        case.note(|| format!("{e:?}"));
        match m.log.get(i) {
            Some(w) => veq!(e, w, "step {i} of {}", m.log.len()),
            None => vbail!("step {i}: {e:?} happened, nothing was expected after step {}", m.log.len()),
        }
    }
    if log.len() < m.log.len() {
        vbail!("step {}: expected {:?}, nothing happened", log.len(), m.log[log.len()]);
    }
    for e in &m.log {
        match e {
            Ev::SetError { .. } => case.count("errors_recorded"),
            Ev::Trace { .. } => case.count("trace_entries"),
            _ => {}
        }
    }
    case.count_n("calls", m.log.iter().filter(|e| matches!(e, Ev::Enter { .. })).count() as u64);
    match want {
        Got::Val(v) => {
            veq!(got.map(|v| v.id()), Some(v), "value of the outermost call");
            veq!(x.error, None, "pending error after a successful call");
            case.count("succeeded");
        }
        Got::Err(e) => {
            veq!(got, None, "result of a failing call");
            veq!(x.error.clone(), Some(e.clone()), "pending error");
            case.count("failed");
            match e.kind {
                MonorubyErrKind::MethodReturn(..) => case.count("returns_left_the_outermost_frame"),
                _ => {}
            }
        }
    }
    veq!(x.raised, m.rescued, "errors seen by rescuing callers");
    veq!(x.overwritten, 0, "pending errors overwritten");
    veq!(x.serial, s1, "interpreter identity");
    let returns = x.prog.iter().any(|p| matches!(p.end, End::Return(..)));
    if returns {
        case.count("cases_with_nonlocal_return");
    }
    if m.log.iter().filter(|e| matches!(e, Ev::Enter { .. })).count() >= 5 {
        case.count("deep_cases");
    }
    Ok(())
}

// ---------------------------------------------------------------- object wrappers

#[monoruby_object]
pub struct Plain(Value);
/// A documented wrapper that announces its mutations.
#[monoruby_object(write_barrier)]
pub struct Barred(Value);
#[monoruby_object]
#[derive(PartialEq)]
pub struct MultiWord(Value);
#[monoruby_object( write_barrier )]
pub(crate) struct BarredTwo(pub(crate) Value);

fn gc_mark<T: alloc::GC<RValue>>(t: &T, a: &mut alloc::Allocator<RValue>) {
    t.mark(a)
}

macro_rules! drive {
    ($case:expr, $ty:ident, $inner:ident, $slot:ident, $barrier:expr) => {{
        let case: &mut Case = $case;
        let n = 1 + case.rng.us(4);
        let mut objs: Vec<Box<RValue>> = (0..n).map(|i| Box::new(RValue { no: i + 1, ..Default::default() })).collect();
        let ids: Vec<u64> = objs.iter().map(|o| Value::from_obj(o).id()).collect();
        let mut model: Vec<$inner> = vec![Default::default(); n];
        veq!(std::mem::size_of::<$ty>(), std::mem::size_of::<Value>(), "size of the wrapper");
        veq!(std::mem::align_of::<$ty>(), std::mem::align_of::<Value>(), "alignment of the wrapper");
        veq!(std::mem::size_of::<Option<$ty>>(), std::mem::size_of::<Value>(), "size of an optional wrapper");
        let mut ws: Vec<$ty> = ids.iter().map(|i| $ty::new_unchecked(Value::from_u64(*i))).collect();
        take_log();
        let steps = 5 + case.rng.us(40);
        for _ in 0..steps {
            let i = case.rng.us(n);
            let op = case.rng.us(13);
            let v = case.rng.next();
            case.sig(op as u64 * 31 + i as u64);
            case.op(|| format!("{} object {i} op {op} v={v}", stringify!($ty)));
            let (mut refs, mut muts) = (0usize, 0usize);
            match op {
                0 => {
                    veq!(ws[i].total(), model[i].total(), "read through the wrapper");
                    refs = 1;
                }
                1 => {
                    ws[i].add(v);
                    model[i].add(v);
                    muts = 1;
                }
                2 => {
                    ws[i].extra = v;
                    model[i].extra = v;
                    muts = 1;
                }
                3 => {
                    let inner: &mut $inner = &mut *ws[i];
                    inner.words.push(v);
                    inner.extra ^= v;
                    model[i].words.push(v);
                    model[i].extra ^= v;
                    muts = 1;
                }
                4 => {
                    let val: Value = ws[i].into();
                    veq!(val.id(), ids[i], "generic value converted from the wrapper");
                }
                5 => veq!(ws[i].as_val().id(), ids[i], "generic value of the wrapper"),
                6 => veq!(ws[i].as_ptr() as u64, ids[i], "object address of the wrapper"),
                7 => {
                    // copies denote the same object
                    let mut c = ws[i];
                    let d = ws[i].clone();
                    c.add(v);
                    model[i].add(v);
                    veq!(d.words.len(), model[i].words.len(), "a copy sees the change");
                    muts = 1;
                    refs = 1;
                    ws[i] = d;
                }
                8 => {
                    let w = $ty::new_unchecked(ws[i].as_val());
                    veq!(w.as_val().id(), ids[i], "value -> wrapper -> value");
                    ws[i] = w;
                }
                9 => {
                    let mut a = alloc::Allocator { serial: v, _m: std::marker::PhantomData };
                    gc_mark(&ws[i], &mut a);
                    let l = take_log();
                    veq!(l, vec![Ev::Mark { obj: i + 1, alloc: v }], "marking the wrapper");
                    case.count("marks");
                    continue;
                }
                10 => {
                    veq!(*ws[i], model[i], "contents through the wrapper");
                    refs = 1;
                }
                11 => {
                    let old = std::mem::take(&mut ws[i].words);
                    veq!(old, std::mem::take(&mut model[i].words), "words taken");
                    muts = 1;
                }
                _ => {
                    let s = format!("{:?}", ws[i]);
                    vcheck!(s.contains(stringify!($ty)), "debug output {s} does not name the type");
                }
            }
            let l = take_log();
            let (mut r, mut m, mut b) = (0, 0, 0);
            for e in &l {
                match e {
                    Ev::InnerRef { obj, ty } => {
                        r += 1;
                        veq!((*obj, *ty), (i + 1, stringify!($slot)), "object read");
                    }
                    Ev::InnerMut { obj, ty } => {
                        m += 1;
                        veq!((*obj, *ty), (i + 1, stringify!($slot)), "object opened for writing");
                        if $barrier && b < m {
                            vbail!("{} opened for writing before the write barrier was told: {:?}", stringify!($ty), l);
                        }
                    }
                    Ev::Barrier { obj } => {
                        b += 1;
                        veq!(*obj, i + 1, "object announced to the write barrier");
                    }
                    e => vbail!("unexpected {e:?}"),
                }
            }
            vcheck!(m >= muts, "{muts} mutable accesses, {m} openings for writing");
            vcheck!(r >= refs.min(1), "{refs} shared accesses, {r} reads");
            if muts == 0 {
                veq!(m, 0, "openings for writing without a mutable access");
            }
            if $barrier {
                vcheck!(b >= muts, "{muts} mutable accesses, {b} announced to the write barrier");
                case.count_n("announced", b as u64);
            }
            case.count_n("mutable_accesses", muts as u64);
            case.count_n("shared_accesses", refs as u64);
        }
        for i in 0..n {
            veq!(objs[i].$slot, model[i], "final contents of object {i}");
        }
        objs.clear();
        case.count(concat!("wrapper_", stringify!($slot)));
    }};
}

fn objects_case(case: &mut Case) -> Verdict {
    case.nontrivial();
    match case.rng.us(4) {
        0 => drive!(case, Plain, PlainInner, plain, false),
        1 => drive!(case, Barred, BarredInner, barred, true),
        2 => drive!(case, MultiWord, MultiWordInner, multiword, false),
        _ => drive!(case, BarredTwo, BarredTwoInner, barredtwo, true),
    }
    Ok(())
}

fn main() {
    vh::main_loop("c16", |case| {
        if case.rng.chance(2, 3) {
            case.sample = Some("call tree of wrapped methods".into());
            builtins_case(case)
        } else {
            case.sample = Some("object wrapper access sequence".into());
            objects_case(case)
        }
    })
}
