//! A recording stand-in for the interpreter the wrappers are expanded against.
use std::num::NonZeroU64;

/// Everything the expanded code does to the interpreter, in order.
#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Enter { func: u32, frame: usize, pc: u64, vm: u64, globals: u64 },
    Leave { func: u32, frame: usize },
    Trace { func: u32, err: u64, vm: u64, globals: u64 },
    SetError { err: u64, trace: Vec<u32> },
    TakeError { err: u64 },
    Barrier { obj: usize },
    InnerRef { obj: usize, ty: &'static str },
    InnerMut { obj: usize, ty: &'static str },
    Mark { obj: usize, alloc: u64 },
}
thread_local! {
    static LOG: std::cell::RefCell<Vec<Ev>> = const { std::cell::RefCell::new(vec![]) };
}
pub fn ev(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e));
}
pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Eight non-zero bytes, as the interpreter's generic value.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
#[repr(transparent)]
pub struct Value(NonZeroU64);
impl Value {
    pub fn from_u64(v: u64) -> Value {
        Value(NonZeroU64::new(v).unwrap())
    }
    pub fn new(v: u64) -> Value {
        Self::from_u64(v)
    }
    pub fn id(self) -> u64 {
        self.0.get()
    }
    pub fn nil() -> Value {
        Value::from_u64(4)
    }
    pub fn from_obj(o: &RValue) -> Value {
        Value::from_u64(o as *const RValue as u64)
    }
    pub fn rvalue(&self) -> &RValue {
        unsafe { &*(self.id() as *const RValue) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn rvalue_mut(&mut self) -> &mut RValue {
        unsafe { &mut *(self.id() as *mut RValue) }
    }
    pub fn write_barrier_bulk(&self) {
        ev(Ev::Barrier { obj: self.rvalue().no });
    }
    pub fn write_barrier(&self, _child: Value) {
        ev(Ev::Barrier { obj: self.rvalue().no });
    }
    pub fn mark(&self, alloc: &mut crate::alloc::Allocator<RValue>) {
        ev(Ev::Mark { obj: self.rvalue().no, alloc: alloc.serial });
    }
}
impl crate::alloc::GC<RValue> for Value {
    fn mark(&self, alloc: &mut crate::alloc::Allocator<RValue>) {
        Value::mark(self, alloc)
    }
}

macro_rules! inner {
    ($($inner:ident, $get:ident, $get_mut:ident, $slot:ident;)*) => {
        $(#[derive(Debug, Clone, PartialEq, Default)]
        pub struct $inner { pub words: Vec<u64>, pub extra: u64 }
        impl $inner {
            pub fn total(&self) -> u64 { self.words.iter().fold(self.extra, |a, b| a.wrapping_add(*b)) }
            pub fn add(&mut self, v: u64) { self.words.push(v) }
        })*
        #[derive(Debug, Default)]
        #[repr(align(8))]
        pub struct RValue { pub no: usize, $(pub $slot: $inner),* }
        impl Value {
            $(
            pub unsafe fn $get(&self) -> &$inner {
                let r = unsafe { &*(self.id() as *const RValue) };
                ev(Ev::InnerRef { obj: r.no, ty: stringify!($slot) });
                &r.$slot
            }
            pub unsafe fn $get_mut(&mut self) -> &mut $inner {
                let r = unsafe { &mut *(self.id() as *mut RValue) };
                ev(Ev::InnerMut { obj: r.no, ty: stringify!($slot) });
                &mut r.$slot
            })*
        }
    };
}
inner! {
    PlainInner, as_plain_inner, as_plain_inner_mut, plain;
    BarredInner, as_barred_inner, as_barred_inner_mut, barred;
    MultiWordInner, as_multiword_inner, as_multiword_inner_mut, multiword;
    BarredTwoInner, as_barredtwo_inner, as_barredtwo_inner_mut, barredtwo;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(transparent)]
pub struct Lfp(std::ptr::NonNull<Frame>);
/// A frame as the wrapper sees it; two frames may have equal contents.
#[derive(Debug)]
#[repr(align(16))]
pub struct Frame {
    pub func: FuncId,
    pub no: usize,
}
impl Lfp {
    pub fn of(f: &Frame) -> Lfp {
        Lfp(std::ptr::NonNull::from(f))
    }
    pub fn func_id(&self) -> FuncId {
        unsafe { self.0.as_ref() }.func
    }
    pub fn no(&self) -> usize {
        unsafe { self.0.as_ref() }.no
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FuncId(pub u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(transparent)]
pub struct BytecodePtr(pub u64);

#[derive(Debug, Clone, PartialEq)]
pub enum MonorubyErrKind {
    Exception,
    Runtime,
    NotMethod(Option<Value>),
    MethodReturn(Value, Lfp),
    Retry,
    Redo,
    Throw(Value, Value),
}
#[derive(Debug, Clone, PartialEq)]
pub struct MonorubyErr {
    pub kind: MonorubyErrKind,
    pub msg: String,
    pub serial: u64,
    pub trace: Vec<u32>,
}
impl MonorubyErr {
    pub fn kind(&self) -> &MonorubyErrKind {
        &self.kind
    }
    pub fn message(&self) -> &str {
        &self.msg
    }
}
pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Debug)]
pub struct Executor {
    pub serial: u64,
    pub error: Option<MonorubyErr>,
    pub next_err: u64,
    pub overwritten: u64,
    pub prog: Vec<crate::Node>,
    pub frames: Vec<Box<Frame>>,
    pub raised: Vec<MonorubyErr>,
    pub depth: usize,
}
impl Executor {
    pub fn set_error(&mut self, err: MonorubyErr) {
        ev(Ev::SetError { err: err.serial, trace: err.trace.clone() });
        if self.error.is_some() {
            self.overwritten += 1;
        }
        self.error = Some(err);
    }
    pub fn take_error(&mut self) -> Option<MonorubyErr> {
        let e = self.error.take();
        if let Some(e) = &e {
            ev(Ev::TakeError { err: e.serial });
        }
        e
    }
}
#[derive(Debug)]
pub struct Globals {
    pub serial: u64,
}
