//! C18: the collector against a shadow heap with its own reachability.
#![allow(dead_code, unused_imports, stable_features, clippy::all)]
#![feature(coverage_attribute)]
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ptr::NonNull;
use vh::{vbail, vcheck, veq, Case, Verdict, Violation};

#[path = "/repo/monoruby/src/alloc.rs"]
mod alloc;
#[path = "/repo/monoruby/src/poll_flag.rs"]
mod poll_flag;
use alloc::{Allocator, GCBox, GCRoot, GC};

#[derive(Clone, Copy)]
pub struct Value(usize);
impl Value {
    pub fn is_packed_value(&self) -> bool {
        self.0 == 0
    }
    pub fn id(&self) -> u64 {
        self.0 as u64
    }
}
pub mod value {
    pub mod rvalue {
        pub use crate::RValue;
    }
}

const OLD: u8 = 1;
const ARMED: u8 = 2;

/// One cell: the header is the link of a free cell or a live mark, as in the interpreter.
#[derive(PartialEq)]
#[repr(C)]
pub struct RValue {
    header: usize,
    serial: u32,
    flags: u8,
    age: u8,
    promotable: bool,
    kids: [usize; 3],
    more: Option<Box<Vec<usize>>>,
    check: u64,
    pad: u64,
}
fn seal(serial: u32) -> u64 {
    (serial as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
thread_local! {
    static FREED: RefCell<Vec<(usize, u32)>> = const { RefCell::new(vec![]) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
    static COLLECTING: Cell<bool> = const { Cell::new(false) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
    static DEEPEST: Cell<usize> = const { Cell::new(0) };
}
fn bad(s: impl FnOnce() -> String) {
    BAD.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            *b = Some(s());
        }
    })
}
impl RValue {
    pub fn ty(&self) -> u8 {
        1
    }
    fn live(&self) -> bool {
        self.header & 1 == 1
    }
    fn children(&self) -> impl Iterator<Item = usize> + '_ {
        self.kids.iter().copied().filter(|k| *k != 0).chain(self.more.iter().flat_map(|m| m.iter().copied()))
    }
    fn sound(&self) -> bool {
        self.live() && self.check == seal(self.serial)
    }
}
impl GC<RValue> for RValue {
    fn mark(&self, a: &mut Allocator<RValue>) {
        if !self.sound() {
            bad(|| format!("marking reached a reclaimed or damaged object ({})", self.serial));
            return;
        }
        if a.gc_check_and_mark(self) {
            return;
        }
        a.scan_children(self);
    }
}
impl GCBox for RValue {
    fn free(&mut self) {
        if !self.live() {
            return;
        }
        if self.check != seal(self.serial) {
            bad(|| "a damaged object was finalised".into());
            self.header = 0;
            return;
        }
        if !COLLECTING.with(|c| c.get()) {
            bad(|| format!("object {} was finalised outside a collection", self.serial));
        }
        FREED.with(|f| f.borrow_mut().push((self as *mut RValue as usize, self.serial)));
        self.header = 0;
        self.more = None;
    }
    fn next(&self) -> Option<NonNull<Self>> {
        if self.header & 1 == 1 {
            bad(|| format!("object {} is on the free list", self.serial));
            return None;
        }
        NonNull::new(self.header as *mut RValue)
    }
    fn set_next_none(&mut self) {
        self.header = 0;
    }
    fn set_next(&mut self, next: *mut Self) {
        self.header = next as usize;
    }
    fn new_invalid() -> Self {
        RValue { header: 0, serial: 0, flags: 0, age: 0, promotable: false, kids: [0; 3], more: None, check: 0, pad: 0 }
    }
    fn mark_children(&self, a: &mut Allocator<RValue>) {
        let d = DEPTH.with(|d| {
            d.set(d.get() + 1);
            d.get()
        });
        DEEPEST.with(|m| m.set(m.get().max(d)));
        if d > 20_000 {
            bad(|| format!("marking is {d} calls deep on the machine stack"));
            DEPTH.with(|d| d.set(d.get() - 1));
            return;
        }
        for k in self.children() {
            unsafe { &*(k as *const RValue) }.mark(a);
        }
        DEPTH.with(|d| d.set(d.get() - 1));
    }
    fn is_promotable(&self) -> bool {
        self.promotable
    }
    fn promote_to_old(&mut self) {
        self.flags |= OLD;
    }
    fn age_and_check_promote(&mut self) -> bool {
        self.age = self.age.saturating_add(1);
        self.age >= alloc::RGENGC_OLD_AGE
    }
    fn arm_barrier(&mut self) {
        self.flags |= ARMED;
    }
    fn enter_remembered(&mut self) {
        self.flags &= !ARMED;
    }
    fn young_child_exists(&self, a: &Allocator<RValue>) -> bool {
        self.children().any(|k| !a.is_old(unsafe { &*(k as *const RValue) }))
    }
}

struct Roots(Vec<usize>);
impl GC<RValue> for Roots {
    fn mark(&self, a: &mut Allocator<RValue>) {
        for r in &self.0 {
            unsafe { &*(*r as *const RValue) }.mark(a);
        }
    }
}
impl GCRoot<RValue> for Roots {}

/// What the program believes.
#[derive(Clone, Default)]
struct Obj {
    addr: usize,
    kids: [Option<u32>; 3],
    more: Option<Vec<u32>>,
    gone: bool,
}
struct World {
    a: Box<Allocator<RValue>>,
    base: usize,
    word: Box<u32>,
    objs: Vec<Obj>,
    at: HashMap<usize, u32>,
    roots: Vec<u32>,
    freed: usize,
    gcs: (usize, usize),
    inline: bool,
}
impl Drop for World {
    fn drop(&mut self) {
        poll_flag::unregister(&mut *self.word);
        // payloads of what is still there, then the arena
        for a in self.at.keys() {
            unsafe { (*(*a as *mut RValue)).more = None };
        }
        unsafe { libc::free(self.base as *mut _) };
    }
}
impl World {
    fn new() -> Self {
        let mut word = Box::new(0u32);
        poll_flag::register(&mut *word);
        let a = Box::new(Allocator::new());
        let base = unsafe { *a.current_page_addr() };
        FREED.with(|f| f.borrow_mut().clear());
        BAD.with(|b| *b.borrow_mut() = None);
        World { a, base, word, objs: vec![], at: HashMap::new(), roots: vec![], freed: 0, gcs: (0, 0), inline: false }
    }
    fn cell(&self, s: u32) -> &mut RValue {
        unsafe { &mut *(self.objs[s as usize].addr as *mut RValue) }
    }
    fn kids(&self, s: u32) -> impl Iterator<Item = u32> + '_ {
        let o = &self.objs[s as usize];
        o.kids.iter().flatten().copied().chain(o.more.iter().flat_map(|m| m.iter().copied()))
    }
    /// The cell holds what was stored in it.
    fn check(&self, s: u32) -> Verdict {
        let o = &self.objs[s as usize];
        vcheck!(!o.gone, "object {s} is in use but was reclaimed");
        let c = self.cell(s);
        vcheck!(c.sound() && c.serial == s, "object {s} is damaged: live={} serial={}", c.live(), c.serial);
        for i in 0..3 {
            let w = o.kids[i].map_or(0, |k| self.objs[k as usize].addr);
            vcheck!(c.kids[i] == w, "object {s}: reference {i} changed");
        }
        match (&o.more, &c.more) {
            (None, None) => {}
            (Some(m), Some(v)) => vcheck!(m.len() == v.len() && m.iter().zip(v.iter()).all(|(k, v)| self.objs[*k as usize].addr == *v), "object {s}: list changed"),
            _ => vbail!("object {s}: list lost"),
        }
        Ok(())
    }
    fn alloc(&mut self, case: &mut Case, kids: [Option<u32>; 3], more: Option<Vec<u32>>, promotable: bool) -> Result<u32, Violation> {
        let s = self.objs.len() as u32;
        let addr = |k: u32| self.objs[k as usize].addr;
        let data = RValue {
            header: 1,
            serial: s,
            flags: 0,
            age: 0,
            promotable,
            kids: kids.map(|k| k.map_or(0, addr)),
            more: more.as_ref().map(|m| Box::new(m.iter().map(|k| addr(*k)).collect())),
            check: seal(s),
            pad: s as u64,
        };
        let p = if self.inline { self.alloc_inline(case, data) } else { self.a.alloc(data) } as usize;
        vcheck!(p != 0 && p % 64 == 0, "object {s} was placed at {p:#x}");
        if let Some(o) = self.at.insert(p, s) {
            vbail!("object {s} was placed over object {o}");
        }
        self.objs.push(Obj { addr: p, kids, more, gone: false });
        case.count("allocated");
        Ok(s)
    }
    /// What compiled code does itself: take a free cell, or the next one of the page.
    fn alloc_inline(&mut self, case: &mut Case, data: RValue) -> *mut RValue {
        unsafe {
            let head = self.a.free_list_head_addr();
            let used = self.a.used_in_current_addr();
            let p = if *head != 0 {
                let p = *head as *mut RValue;
                *head = (*p).header;
                *self.a.free_list_count_addr() -= 1;
                p
            } else if *used < alloc::BUMP_INLINE_LIMIT {
                let p = *self.a.current_page_addr() + alloc::PAGE_DATA_OFFSET + (*used << alloc::CELL_SIZE_SHIFT);
                *used += 1;
                p as *mut RValue
            } else {
                return self.a.alloc(data);
            };
            *self.a.total_allocated_addr() += 1;
            std::ptr::write(p, data);
            case.count("allocated_inline");
            p
        }
    }
    fn barrier(&mut self, case: &mut Case, s: u32) {
        let c = self.cell(s);
        if c.flags & ARMED != 0 {
            c.enter_remembered();
            self.a.remember(NonNull::from(&*c));
            case.count("remembered");
        }
    }
    fn store(&mut self, case: &mut Case, s: u32, i: usize, k: Option<u32>) {
        self.objs[s as usize].kids[i] = k;
        self.cell(s).kids[i] = k.map_or(0, |k| self.objs[k as usize].addr);
        if k.is_some() {
            self.barrier(case, s);
        }
    }
    /// Some reachable object.
    fn pick(&self, case: &mut Case) -> Option<u32> {
        let mut s = *self.roots.get(case.rng.us(self.roots.len().max(1)))?;
        for _ in 0..case.rng.us(8) {
            let n = self.kids(s).count();
            if n == 0 {
                break;
            }
            let i = case.rng.us(n);
            s = self.kids(s).nth(i).unwrap();
        }
        Some(s)
    }
    fn make(&mut self, case: &mut Case) -> Result<u32, Violation> {
        let mut kids = [None; 3];
        for k in &mut kids {
            if case.rng.chance(1, 3) {
                *k = self.pick(case);
            }
        }
        let more = if case.rng.chance(1, 12) {
            let n = case.rng.us(20);
            Some((0..n).filter_map(|_| self.pick(case)).collect())
        } else {
            None
        };
        let promotable = case.rng.chance(5, 6);
        self.alloc(case, kids, more, promotable)
    }
    fn reach(&self) -> Vec<bool> {
        let mut seen = vec![false; self.objs.len()];
        let mut todo = self.roots.clone();
        while let Some(s) = todo.pop() {
            if !std::mem::replace(&mut seen[s as usize], true) {
                todo.extend(self.kids(s));
            }
        }
        seen
    }
    fn gc(&mut self, case: &mut Case, force: bool) -> Verdict {
        let seen = self.reach();
        let (minor, major) = (self.a.minor_gc_count(), self.a.major_gc_count());
        if force {
            alloc::request_gc(true);
        }
        vh::step();
        let roots = Roots(self.roots.iter().map(|r| self.objs[*r as usize].addr).collect());
        COLLECTING.with(|c| c.set(true));
        DEEPEST.with(|d| d.set(0));
        self.a.gc(&roots);
        COLLECTING.with(|c| c.set(false));
        case.max("max_mark_depth", DEEPEST.with(|d| d.get()) as u64);
        self.sound()?;
        let freed = FREED.with(|f| std::mem::take(&mut *f.borrow_mut()));
        let (dm, dj) = (self.a.minor_gc_count() - minor, self.a.major_gc_count() - major);
        veq!(dm + dj, 1, "collections counted for one collection");
        vcheck!(!force || dj == 1, "a requested full collection was a young one");
        self.gcs.0 += dm;
        self.gcs.1 += dj;
        case.count(if dj == 1 { "majors" } else { "minors" });
        if dj == 1 && !force {
            case.count("own_majors");
        }
        for (p, s) in &freed {
            let Some(o) = self.objs.get_mut(*s as usize) else { vbail!("an object that never was ({s}) was reclaimed") };
            vcheck!(o.addr == *p, "object {s} was reclaimed at another place");
            vcheck!(!o.gone, "object {s} was finalised twice");
            vcheck!(!seen[*s as usize], "object {s} was reclaimed while reachable ({} collection)", if dj == 1 { "full" } else { "young" });
            o.gone = true;
            self.at.remove(p);
        }
        self.freed += freed.len();
        case.count_n("freed", freed.len() as u64);
        let mut old = 0;
        let mut remembered = 0;
        for s in self.at.values() {
            let c = self.cell(*s);
            vcheck!(c.sound() && c.serial == *s, "object {s} is damaged after a collection");
            if c.flags & OLD != 0 {
                old += 1;
                remembered += (c.flags & ARMED == 0) as usize;
            }
            if dj == 1 {
                vcheck!(seen[*s as usize], "object {s} is unreachable but survived a full collection");
            }
        }
        for (s, r) in seen.iter().enumerate() {
            if *r {
                self.check(s as u32)?;
            }
        }
        case.count_n("checked", self.at.len() as u64);
        case.max("max_old", old as u64);
        // counters against the heap
        let n = self.at.len();
        let a = &self.a;
        veq!(a.live_count(), n, "live objects reported after a {} collection", if dj == 1 { "full" } else { "young" });
        veq!(a.old_count(), old, "old objects reported");
        veq!(a.remembered_count(), remembered, "remembered objects reported");
        veq!(a.available_slots(), n + a.allocatable_slots(), "slots that are neither live nor allocatable");
        veq!(a.total_gc_counter(), self.gcs.0 + self.gcs.1, "collections reported");
        self.free_list(case)?;
        self.counters()
    }
    /// The free list holds as many cells as reported, each once, none in use.
    fn free_list(&self, case: &mut Case) -> Verdict {
        let mut p = unsafe { *self.a.free_list_head_addr() } as usize;
        let mut seen = std::collections::HashSet::new();
        while p != 0 {
            if let Some(s) = self.at.get(&p) {
                vbail!("object {s} is on the free list");
            }
            vcheck!(seen.insert(p), "a free cell is listed twice");
            p = unsafe { (*(p as *const RValue)).header };
        }
        veq!(self.a.free_count(), seen.len(), "free cells reported");
        case.count_n("free_cells", seen.len() as u64);
        Ok(())
    }
    fn counters(&self) -> Verdict {
        let a = &self.a;
        veq!(a.total_allocated(), self.objs.len(), "objects ever allocated");
        veq!(a.total_freed(), self.freed, "objects ever reclaimed");
        veq!(a.total_allocated_pages() - a.total_freed_pages(), a.page_count(), "pages in service");
        vcheck!(a.page_count() * 4096 * 64 >= self.at.len() * 64, "fewer pages than objects");
        Ok(())
    }
    fn sound(&self) -> Verdict {
        match BAD.with(|b| b.borrow_mut().take()) {
            Some(s) => Err(Violation(s)),
            None => Ok(()),
        }
    }
}

fn history(case: &mut Case) -> Verdict {
    let mut w = World::new();
    w.a.set_profile_enabled(true);
    let size = case.rng.weighted(&[10, 6, 3, 1]);
    case.sig(size as u64);
    let steps = match size {
        0 => 50 + case.rng.us(500),
        1 => 200 + case.rng.us(2000),
        _ => 100 + case.rng.us(400),
    };
    // how much is kept, how often the collector runs
    let keep = 1 + case.rng.us(9);
    let every = *case.rng.pick(&[3, 10, 40, 200]);
    let cap = 5 + case.rng.us(60);
    let mut records = 0;
    for _ in 0..steps {
        w.inline = case.rng.chance(1, 2);
        let k = case.rng.weighted(&[20, 6, 10, 3, 2, if size >= 2 { 2 } else { 0 }]);
        case.sig(k as u64);
        match k {
            0 => {
                let s = w.make(case)?;
                match case.rng.us(10) {
                    n if n >= keep => {
                        case.count("dropped_at_once");
                    }
                    n if n % 2 == 0 => w.roots.push(s),
                    _ => {
                        if let Some(p) = w.pick(case) {
                            let i = case.rng.us(3);
                            w.store(case, p, i, Some(s));
                        } else {
                            w.roots.push(s);
                        }
                    }
                }
            }
            1 => {
                if !w.roots.is_empty() && (w.roots.len() > cap || case.rng.chance(1, 3)) {
                    let i = case.rng.us(w.roots.len());
                    w.roots.swap_remove(i);
                }
            }
            2 => {
                let (a, b) = (w.pick(case), w.pick(case));
                if let Some(a) = a {
                    w.check(a)?;
                    let i = case.rng.us(3);
                    let b = if case.rng.chance(1, 4) { None } else { b };
                    w.store(case, a, i, b);
                    case.count("stores");
                }
            }
            3 => {
                // a list grows or is replaced
                let Some(a) = w.pick(case) else { continue };
                let n = case.rng.us(8);
                let add: Vec<u32> = (0..n).filter_map(|_| w.pick(case)).collect();
                let fresh = if case.rng.chance(1, 2) { Some(w.make(case)?) } else { None };
                let mut m = if case.rng.chance(1, 2) { w.objs[a as usize].more.clone().unwrap_or_default() } else { vec![] };
                m.extend(add);
                m.extend(fresh);
                m.truncate(60);
                let v = m.iter().map(|k| w.objs[*k as usize].addr).collect();
                w.cell(a).more = Some(Box::new(v));
                w.objs[a as usize].more = Some(m);
                w.barrier(case, a);
                case.count("bulk_stores");
            }
            4 => {
                // a chain or a tree, kept by one reference
                let n = 2 + case.rng.us(if size == 0 { 100 } else { 600 });
                let tree = case.rng.chance(1, 2);
                let mut line: Vec<u32> = vec![];
                for i in 0..n {
                    let mut kids = [None; 3];
                    if let Some(l) = line.last() {
                        kids[0] = Some(*l);
                        if tree {
                            kids[1] = Some(line[i / 2]);
                        }
                    }
                    line.push(w.alloc(case, kids, None, true)?);
                }
                // a cycle sometimes
                if case.rng.chance(1, 2) {
                    let (h, t) = (*line.last().unwrap(), line[0]);
                    w.store(case, t, 2, Some(h));
                    case.count("cycles");
                }
                if case.rng.chance(2, 3) {
                    w.roots.push(*line.last().unwrap());
                }
            }
            _ => {
                // pages full
                let n = 2000 + case.rng.us(if size == 3 { 30000 } else { 9000 });
                let hold = case.rng.us(4);
                let mut last = None;
                for i in 0..n {
                    let s = w.alloc(case, [last, None, None], None, true)?;
                    if hold == 3 || (hold == 2 && i % 97 == 0) {
                        last = Some(s);
                    }
                }
                if let Some(l) = last {
                    w.roots.push(l);
                }
                case.count("page_fills");
            }
        }
        w.sound()?;
        let due = case.rng.chance(1, every) || (poll_flag::gc_requested() && case.rng.chance(1, 2));
        if due && w.at.len() < 60000 || w.at.len() >= 60000 {
            if poll_flag::gc_requested() {
                case.count("requested");
            }
            let force = case.rng.chance(1, 6) || w.at.len() >= 60000;
            if case.rng.chance(1, 20) {
                // switched off: nothing may happen
                w.a.gc_enabled = false;
                let (n, c) = (w.at.len(), w.a.total_gc_counter());
                w.a.gc(&Roots(vec![]));
                w.sound()?;
                vcheck!(FREED.with(|f| f.borrow().is_empty()) && w.a.total_gc_counter() == c && w.at.len() == n, "a collection ran although switched off");
                w.a.gc_enabled = true;
                case.count("switched_off");
            }
            let full = w.a.allow_full_mark();
            if case.rng.chance(1, 30) {
                w.a.set_allow_full_mark(!full);
            }
            let pages = w.a.total_freed_pages();
            w.gc(case, force)?;
            records += 1;
            if w.a.total_freed_pages() > pages {
                case.count("pages_released");
            }
            veq!(w.a.profile_records().len(), records, "profile records");
            let r = w.a.profile_records()[records - 1];
            veq!(r.heap_use_size, w.at.len() * 64, "bytes in use in the profile");
            if w.a.empty_page_count() > 0 {
                case.count("pages_waiting");
            }
            if w.at.len() >= 60000 {
                w.roots.clear();
                w.gc(case, true)?;
                records += 1;
            }
        } else {
            w.counters()?;
        }
    }
    // nothing is left when nothing is held
    w.roots.clear();
    w.gc(case, true)?;
    veq!(w.at.len(), 0, "objects left after the last collection");
    veq!(w.a.live_count(), 0, "live objects reported at the end");
    veq!(w.freed, w.objs.len(), "objects reclaimed in all");
    case.count("histories");
    case.nontrivial();
    Ok(())
}

/// Many young collections over a small heap, then old garbage.
fn long_run(case: &mut Case) -> Verdict {
    let mut w = World::new();
    let n = 80 + case.rng.us(100);
    for i in 0..n {
        for _ in 0..1 + case.rng.us(12) {
            let s = w.make(case)?;
            if case.rng.chance(1, 3) {
                if w.roots.len() > 12 {
                    let i = case.rng.us(12);
                    w.roots[i] = s;
                } else {
                    w.roots.push(s);
                }
            } else if let Some(p) = w.pick(case) {
                let j = case.rng.us(3);
                w.store(case, p, j, Some(s));
            }
        }
        if case.rng.chance(1, 8) && !w.roots.is_empty() {
            let j = case.rng.us(w.roots.len());
            w.roots.swap_remove(j);
        }
        case.sig(i as u64 ^ w.at.len() as u64);
        w.gc(case, false)?;
    }
    w.gc(case, true)?;
    case.count("long_runs");
    case.nontrivial();
    Ok(())
}

/// A very deep graph, and a large old generation.
fn deep(case: &mut Case) -> Verdict {
    let mut w = World::new();
    let n = 60_000 + case.rng.us(60_000);
    case.sig(n as u64);
    let mut last = None;
    for i in 0..n {
        let mut k = [last, None, None];
        if i % 1000 == 0 {
            k[1] = w.roots.first().copied();
        }
        let s = w.alloc(case, k, None, i % 7 != 0)?;
        last = Some(s);
        if i == 5 || i == n / 2 {
            w.roots.push(s);
        }
    }
    w.roots.push(last.unwrap());
    for _ in 0..5 {
        w.gc(case, false)?;
        // young objects held only by old ones
        for _ in 0..20 {
            let s = w.alloc(case, [None; 3], None, true)?;
            if let Some(p) = w.pick(case) {
                w.store(case, p, 2, Some(s));
            }
        }
    }
    // the middle of the chain lets go of its lower half
    let cut = (n / 2 + case.rng.us(1000)) as u32;
    w.store(case, cut, 0, None);
    w.gc(case, false)?;
    w.gc(case, true)?;
    w.roots.clear();
    w.gc(case, true)?;
    veq!(w.at.len(), 0, "objects left after the last collection");
    // the pages are used again
    let pages = w.a.page_count() + w.a.empty_page_count();
    for _ in 0..n / 2 {
        w.alloc(case, [None; 3], None, true)?;
    }
    veq!(w.a.page_count() + w.a.empty_page_count(), pages, "pages although enough were free");
    w.gc(case, true)?;
    case.count("deep_graphs");
    case.nontrivial();
    Ok(())
}

/// Buffers outside the heap are accounted for byte by byte.
fn buffers(case: &mut Case) -> Verdict {
    let mut w = World::new();
    let mut kept: Vec<Vec<u8>> = Vec::with_capacity(64);
    for _ in 0..20 {
        let top = if case.rng.chance(1, 10) { 70 << 20 } else { 100_000 };
        let n = 1 + case.rng.us(top);
        let small = n < 32 << 20;
        let mut ok = false;
        // other threads may allocate in between
        for _ in 0..5 {
            let before = alloc::malloc_amount();
            let v: Vec<u8> = Vec::with_capacity(n);
            let during = alloc::malloc_amount();
            let cap = v.capacity();
            drop(v);
            let after = alloc::malloc_amount();
            if (!small || during.wrapping_sub(before) == cap) && after == before {
                ok = true;
                break;
            }
        }
        vcheck!(ok, "a buffer of {n} bytes is not accounted for");
        case.count("buffers");
        if n < 200_000 && kept.len() < 60 {
            kept.push(Vec::with_capacity(n));
        }
    }
    // over the limit a collection is asked for, and the limit moves on
    w.gc(case, true)?;
    let limit = alloc::malloc_gc_threshold();
    let big: Vec<u8> = Vec::with_capacity(limit.saturating_sub(alloc::malloc_amount()).min(60 << 20) + 4096);
    if alloc::malloc_amount() >= limit {
        vcheck!(poll_flag::gc_requested(), "{} bytes in buffers with a limit of {limit} and no request", alloc::malloc_amount());
        case.count("limit_reached");
        w.gc(case, false)?;
        vcheck!(alloc::malloc_gc_threshold() > alloc::malloc_amount(), "the limit stayed below what is in use");
    }
    drop(big);
    case.nontrivial();
    Ok(())
}

fn main() {
    vh::main_loop("c18", |case| match case.rng.weighted(&[60, 12, 1, 6]) {
        0 => history(case),
        1 => long_run(case),
        2 => deep(case),
        _ => buffers(case),
    });
}
