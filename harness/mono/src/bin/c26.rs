//! C26: instance-variable storage against a reference vector, on a watched heap.
#![feature(cfg_sanitize)]
#![allow(dead_code, unused_imports, clippy::all)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use vh::{vbail, vcheck, veq, Case, Rng, Verdict, Violation};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(transparent)]
pub struct Value(std::num::NonZeroU64);
impl Value {
    fn new(v: u64) -> Self {
        Value(std::num::NonZeroU64::new(v | 1).unwrap())
    }
}

#[path = "/repo/monoruby/src/value/rvalue/ivar_table.rs"]
mod ivar_table;
use ivar_table::*;

/// Blocks the storage owns. Only requests made while watching are entered.
struct Watch;
const ROOM: usize = 1 << 12;
const GUARD: usize = 32;
struct Book {
    on: Cell<bool>,
    n: Cell<usize>,
    blocks: UnsafeCell<[(usize, usize, usize); ROOM]>,
    bad: Cell<&'static str>,
    total: Cell<u64>,
}
thread_local! {
    static BOOK: Book = const { Book { on: Cell::new(false), n: Cell::new(0), blocks: UnsafeCell::new([(0, 0, 0); ROOM]), bad: Cell::new(""), total: Cell::new(0) } };
}
const fn guarded() -> bool {
    !cfg!(miri) && !cfg!(sanitize = "address")
}
fn pad(l: Layout) -> Layout {
    if guarded() { Layout::from_size_align(l.size() + GUARD, l.align()).unwrap() } else { l }
}
impl Book {
    fn enter(&self, p: *mut u8, l: Layout) {
        self.total.set(self.total.get() + 1);
        let n = self.n.get();
        unsafe {
            (*self.blocks.get())[n] = (p as usize, l.size(), l.align());
            if guarded() {
                std::ptr::write_bytes(p.add(l.size()), 0xC7, GUARD);
            }
        }
        self.n.set(n + 1);
    }
    fn find(&self, p: *mut u8) -> Option<usize> {
        let b = unsafe { &*self.blocks.get() };
        (0..self.n.get()).find(|&i| b[i].0 == p as usize)
    }
    fn intact(&self, i: usize) -> bool {
        let b = unsafe { (*self.blocks.get())[i] };
        !guarded() || unsafe { std::slice::from_raw_parts((b.0 + b.1) as *const u8, GUARD) }.iter().all(|x| *x == 0xC7)
    }
    /// True when the block was ours.
    fn leave(&self, p: *mut u8, l: Layout) -> bool {
        let Some(i) = self.find(p) else { return false };
        let b = unsafe { (*self.blocks.get())[i] };
        if (b.1, b.2) != (l.size(), l.align()) {
            self.bad.set("a block was given back with a size or alignment it was not requested with");
        }
        if !self.intact(i) {
            self.bad.set("bytes after a block were overwritten");
        }
        unsafe { (*self.blocks.get())[i] = (*self.blocks.get())[self.n.get() - 1] };
        self.n.set(self.n.get() - 1);
        true
    }
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BOOK.with(|b| unsafe {
            if !b.on.get() {
                return System.alloc(l);
            }
            if l.size() == 0 {
                b.bad.set("a block of no bytes was requested");
            }
            let p = System.alloc(pad(l));
            if !p.is_null() {
                // what a new block holds is arbitrary
                if !cfg!(miri) {
                    std::ptr::write_bytes(p, 0xA5, l.size());
                }
                b.enter(p, l);
            }
            p
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BOOK.with(|b| unsafe {
            if b.n.get() > 0 && b.leave(p, l) {
                System.dealloc(p, pad(l));
            } else {
                if b.on.get() {
                    b.bad.set("a block was given back that is not outstanding");
                    return;
                }
                System.dealloc(p, l);
            }
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        BOOK.with(|b| unsafe {
            if !b.on.get() {
                return System.realloc(p, l, size);
            }
            let Some(i) = b.find(p) else {
                b.bad.set("a block was resized that is not outstanding");
                return std::ptr::null_mut();
            };
            let real = (*b.blocks.get())[i];
            // always move, so that a stale pointer shows
            let n = Layout::from_size_align_unchecked(size, l.align());
            let q = System.alloc(pad(n));
            if !cfg!(miri) {
                std::ptr::write_bytes(q, 0xA5, size);
            }
            std::ptr::copy_nonoverlapping(p, q, real.1.min(size));
            b.leave(p, l);
            System.dealloc(p, pad(Layout::from_size_align_unchecked(real.1, real.2)));
            b.enter(q, n);
            q
        })
    }
}
#[global_allocator]
static HEAP: Watch = Watch;

fn watched<R>(f: impl FnOnce() -> R) -> Result<R, Violation> {
    BOOK.with(|b| b.on.set(true));
    let r = vh_catch(f);
    BOOK.with(|b| {
        b.on.set(false);
        for i in 0..b.n.get() {
            if !b.intact(i) {
                b.bad.set("bytes after a block were overwritten");
            }
        }
        let bad = b.bad.replace("");
        if !bad.is_empty() {
            return Err(Violation(bad.to_string()));
        }
        r.map_err(|m| Violation(format!("the storage panicked: {m}")))
    })
}
fn vh_catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = vh::catch(|| {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                BOOK.with(|b| b.on.set(false));
            }
        }
        let _off = Off;
        f()
    });
    r.map_err(|e| e.0)
}
fn outstanding() -> usize {
    BOOK.with(|b| b.n.get())
}

/// An element type: made from a number, and what a never-written element reads as.
trait Elem: Copy + PartialEq + std::fmt::Debug {
    fn make(n: u64) -> Self;
    fn zero() -> Self;
}
impl Elem for Option<Value> {
    fn make(n: u64) -> Self {
        if n % 7 == 0 { None } else { Some(Value::new(n)) }
    }
    fn zero() -> Self {
        None
    }
}
impl Elem for u8 {
    fn make(n: u64) -> Self {
        n as u8
    }
    fn zero() -> Self {
        0
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(32))]
struct Wide([u64; 4]);
impl Elem for Wide {
    fn make(n: u64) -> Self {
        Wide([n, !n, n * 3, 1])
    }
    fn zero() -> Self {
        Wide([0; 4])
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Odd([u32; 3]);
impl Elem for Odd {
    fn make(n: u64) -> Self {
        Odd([n as u32, (n >> 8) as u32, 9])
    }
    fn zero() -> Self {
        Odd([0; 3])
    }
}

fn word<T>(v: &MonoVec<T>, at: usize) -> usize {
    unsafe { *((v as *const MonoVec<T> as *const u8).add(at) as *const usize) }
}

struct Pair<T: Elem> {
    real: MonoVec<T>,
    model: Vec<T>,
    /// elements that may be added without the block changing
    promised: usize,
}

fn check<T: Elem>(p: &Pair<T>, at: &str) -> Verdict {
    veq!(p.real.len(), p.model.len(), "length after {at}");
    for i in 0..p.model.len() {
        veq!(p.real[i], p.model[i], "element {i} after {at}");
    }
    // compiled code reads the three fields where they are
    let (ptr, cap, len) = (word(&p.real, MONOVEC_PTR), word(&p.real, MONOVEC_CAPA), word(&p.real, MONOVEC_LEN));
    veq!(len, p.model.len(), "stored length after {at}");
    veq!(ptr, p.real.as_ptr() as usize, "stored address after {at}");
    vcheck!(cap >= len, "capacity {cap} below length {len} after {at}");
    vcheck!(ptr != 0 && ptr % std::mem::align_of::<T>() == 0, "address {ptr:x} is not usable after {at}");
    let held = BOOK.with(|b| b.find(ptr as *mut u8).map(|i| unsafe { (*b.blocks.get())[i] }));
    match held {
        Some(b) => {
            veq!(b.1, cap * std::mem::size_of::<T>(), "bytes owned after {at}");
            veq!(b.2, std::mem::align_of::<T>(), "alignment owned after {at}");
        }
        None => veq!(cap, 0, "capacity without a block after {at}"),
    }
    Ok(())
}

fn history<T: Elem>(case: &mut Case) -> Verdict {
    veq!(outstanding(), 0, "blocks outstanding at the start");
    let mut all: Vec<Pair<T>> = vec![];
    let mut n = 1 + case.rng.below(1000);
    let mut next = move || {
        n += 1;
        n
    };
    let steps = 1 + case.rng.us(if cfg!(miri) { 25 } else { 80 });
    for _ in 0..steps {
        if all.is_empty() {
            let c = case.rng.us(10);
            case.op(|| format!("create {c}"));
            case.sig(c as u64);
            let real = watched(|| MonoVec::<T>::with_capacity(c))?;
            vcheck!(word(&real, MONOVEC_CAPA) >= c, "capacity {} asked for {c}", word(&real, MONOVEC_CAPA));
            all.push(Pair { real, model: vec![], promised: c });
            case.count(if c == 0 { "created_empty" } else { "created" });
            check(all.last().unwrap(), "creation")?;
        }
        let i = case.rng.us(all.len());
        let k = case.rng.weighted(&[8, 4, 3, 6, 3, 2, 1]);
        case.sig(k as u64 | (i as u64) << 8);
        let before = all[i].real.as_ptr() as usize;
        let mut grew = 0;
        match k {
            0 => {
                let v = T::make(next());
                case.op(|| format!("#{i} push"));
                let p = &mut all[i];
                watched(|| p.real.push(v))?;
                p.model.push(v);
                grew = 1;
                case.count("pushes");
            }
            1 => {
                let len = all[i].model.len();
                let l = if case.rng.chance(1, 4) { case.rng.us(len + 1) } else { len + case.rng.us(12) };
                case.op(|| format!("#{i} resize {l}"));
                let p = &mut all[i];
                watched(|| p.real.resize(l))?;
                if l > p.model.len() {
                    grew = l - p.model.len();
                    p.model.resize(l, T::zero());
                    case.count("resizes");
                } else {
                    case.count("resizes_to_less");
                }
            }
            2 => {
                let r = case.rng.us(20);
                case.op(|| format!("#{i} reserve {r}"));
                let p = &mut all[i];
                watched(|| p.real.reserve(r))?;
                let cap = word(&p.real, MONOVEC_CAPA);
                vcheck!(cap >= p.model.len() + r, "capacity {cap} after reserving {r} beyond {}", p.model.len());
                p.promised = r;
                check(p, "a reservation")?;
                case.count("reserves");
                continue;
            }
            3 => {
                let len = all[i].model.len();
                if len > 0 {
                    let j = case.rng.us(len);
                    let v = T::make(next());
                    case.op(|| format!("#{i}[{j}] ="));
                    all[i].real[j] = v;
                    all[i].model[j] = v;
                    case.count("writes");
                }
                let out = len + case.rng.us(3);
                let p = &all[i];
                vcheck!(vh::catch(|| p.real[out]).is_err() && p.real.get(out).is_none(), "element {out} of {len} could be read");
            }
            4 if all.len() < 6 => {
                case.op(|| format!("#{i} clone"));
                let p = &all[i];
                if word(&p.real, MONOVEC_CAPA) == 0 {
                    case.count("clones_of_nothing");
                }
                let real = watched(|| p.real.clone())?;
                let model = p.model.clone();
                vcheck!(model.is_empty() || real.as_ptr() != p.real.as_ptr(), "a copy shares its elements with the original");
                all.push(Pair { real, model, promised: 0 });
                case.count("clones");
            }
            5 => {
                case.op(|| format!("#{i} drop"));
                let p = all.swap_remove(i);
                let held = outstanding();
                let own = (word(&p.real, MONOVEC_CAPA) != 0) as usize;
                let r = p.real;
                watched(move || drop(r))?;
                veq!(outstanding(), held - own, "blocks outstanding after disposal");
                case.count("drops");
                for p in &all {
                    check(p, "the disposal of another")?;
                }
                continue;
            }
            6 if all.len() > 1 => {
                // moved as a whole, like the owner's memory is
                case.op(|| "swap".into());
                let j = case.rng.us(all.len());
                if i != j {
                    let (a, b) = if i < j { (i, j) } else { (j, i) };
                    let (x, y) = all.split_at_mut(b);
                    std::mem::swap(&mut x[a].real, &mut y[0].real);
                    std::mem::swap(&mut x[a].model, &mut y[0].model);
                    std::mem::swap(&mut x[a].promised, &mut y[0].promised);
                }
                case.count("moves");
                continue;
            }
            _ => {}
        }
        if grew > 0 {
            let p = &mut all[i];
            let moved = p.real.as_ptr() as usize != before;
            if moved {
                case.count("growths");
            }
            if grew <= p.promised {
                vcheck!(!moved, "the block moved although room for {} elements had been reserved", p.promised);
                p.promised -= grew;
                case.count("promises_kept");
            } else {
                p.promised = 0;
            }
        }
        for p in &all {
            check(p, "an operation")?;
        }
    }
    for p in all {
        let r = p.real;
        watched(move || drop(r))?;
    }
    veq!(outstanding(), 0, "blocks outstanding after everything was disposed of");
    case.nontrivial();
    case.count("histories");
    Ok(())
}

/// One long growth from nothing.
fn growth(case: &mut Case) -> Verdict {
    let c = case.rng.us(4);
    let mut v = watched(|| MonoVec::<Option<Value>>::with_capacity(c))?;
    let n = if cfg!(miri) { 40 } else { 1 + case.rng.us(3000) };
    case.sig(n as u64 * 8 + c as u64);
    let mut i = 0u64;
    while v.len() < n {
        if case.rng.chance(1, 10) {
            let l = v.len() + case.rng.us(40);
            watched(|| v.resize(l))?;
        } else {
            i += 1;
            watched(|| v.push(Some(Value::new(i * 2))))?;
        }
    }
    // pushed values come back in order, everything else was never written
    let got: Vec<u64> = v.iter().flatten().map(|v| v.0.get()).collect();
    veq!(got.len() as u64, i, "values present after growth");
    for (k, g) in got.iter().enumerate() {
        veq!(*g, Value::new((k as u64 + 1) * 2).0.get(), "value {k} after growth");
    }
    let w = watched(|| v.clone())?;
    vcheck!(w[..] == v[..], "a copy differs from the original");
    watched(move || drop(v))?;
    veq!(w.iter().flatten().count() as u64, i, "values in a copy after the original was disposed of");
    watched(move || drop(w))?;
    veq!(outstanding(), 0, "blocks outstanding after growth");
    case.nontrivial();
    case.count("long_growths");
    Ok(())
}

fn main() {
    vh::main_loop("c26", |case| {
        BOOK.with(|b| {
            b.on.set(false);
            b.n.set(0);
            b.bad.set("");
        });
        match case.rng.us(8) {
            0 => history::<u8>(case),
            1 => history::<Wide>(case),
            2 => history::<Odd>(case),
            3 => growth(case),
            _ => history::<Option<Value>>(case),
        }
    });
}
