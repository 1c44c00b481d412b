//! The map machine: operations as data, an executor on the real ordered map and an
//! executor on the reference model, plus snapshot comparison.
use crate::key::*;
use rubymap::map::Entry;
use rubymap::RubyMap;
use vh::{veq, Case, Rng, Verdict};

pub type M = RubyMap<K, V, Vm, Gl, Exc, Bh>;

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub core: Core,
    pub tag: u64,
    pub v: u64,
}
pub type Model = Vec<Ent>;

pub type Out = Vec<u64>;
pub const PANIC: u64 = 0xDEAD_0001;
pub const ERR: u64 = 0xDEAD_0002;
const NONE: u64 = 0xDEAD_0003;
const SOME: u64 = 0xDEAD_0004;
const OK: u64 = 0xDEAD_0005;

#[derive(Clone, Debug, PartialEq)]
pub enum Rg {
    Full,
    From(usize),
    To(usize),
    ToInc(usize),
    Half(usize, usize),
    Inc(usize, usize),
    Excl(usize, usize),
}
impl Rg {
    pub fn bounds(&self) -> (std::ops::Bound<usize>, std::ops::Bound<usize>) {
        use std::ops::Bound::*;
        match *self {
            Rg::Full => (Unbounded, Unbounded),
            Rg::From(a) => (Included(a), Unbounded),
            Rg::To(b) => (Unbounded, Excluded(b)),
            Rg::ToInc(b) => (Unbounded, Included(b)),
            Rg::Half(a, b) => (Included(a), Excluded(b)),
            Rg::Inc(a, b) => (Included(a), Included(b)),
            Rg::Excl(a, b) => (Excluded(a), Excluded(b)),
        }
    }
    /// The range a sequence of `len` elements resolves to, or None if refused.
    pub fn resolve(&self, len: usize) -> Option<(usize, usize)> {
        let (a, b) = match *self {
            Rg::Full => (0, len),
            Rg::From(a) => (a, len),
            Rg::To(b) => (0, b),
            Rg::ToInc(b) => (0, b.checked_add(1)?),
            Rg::Half(a, b) => (a, b),
            Rg::Inc(a, b) => (a, b.checked_add(1)?),
            Rg::Excl(a, b) => (a.checked_add(1)?, b),
        };
        if a <= b && b <= len {
            Some((a, b))
        } else {
            None
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct KV(pub Core, pub u64, pub u64); // core, tag, value

#[derive(Clone, Debug, PartialEq)]
pub enum EntOp {
    OrInsert(u64),
    OrInsertWith(u64),
    OrInsertWithKey(u64),
    OrDefault,
    AndModify(u64, u64),
    InsertEntry(u64),
    OccInsert(u64),
    OccSwapRemove,
    OccSwapRemoveEntry,
    OccShiftRemove,
    OccShiftRemoveEntry,
    OccRemove,
    OccMove(usize),
    OccIntoIndexedMove(usize),
    VacInsertSorted(u64),
    VacShiftInsert(usize, u64),
    VacIntoKey,
    Peek,
}
#[derive(Clone, Debug, PartialEq)]
pub enum IxOp {
    Insert(u64),
    IntoMut(u64),
    SwapRemove,
    SwapRemoveEntry,
    ShiftRemove,
    ShiftRemoveEntry,
    Move(usize),
    ToOccupiedMove(usize),
    ToOccupiedRemove,
    Peek,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Insert(KV),
    InsertFull(KV),
    Get(Core, bool),
    GetKV(Core),
    GetFull(Core, bool),
    GetIndexOf(Core),
    Contains(Core, bool),
    GetMut(Core, u64),
    GetFullMut(Core, u64),
    GetDisjoint([Core; 3], u64),
    SwapRemove(Core, bool),
    SwapRemoveEntry(Core),
    SwapRemoveFull(Core),
    RemoveEntry(Core),
    ShiftRemove(Core, bool),
    ShiftRemoveEntry(Core),
    ShiftRemoveFull(Core),
    Pop,
    Clear,
    Truncate(usize),
    Drain(Rg, usize, usize),
    SplitOff(usize, bool),
    Append(Vec<KV>, usize),
    Extend(Vec<KV>, bool),
    FromIter(Vec<KV>),
    Retain(u64, u64),
    RetainWrite(u64, u64, u64),
    InsertSorted(KV),
    InsertBefore(usize, KV),
    ShiftInsert(usize, KV),
    Entry(Core, u64, EntOp),
    IndexEntry(usize, IxOp),
    FirstEntry(IxOp),
    LastEntry(IxOp),
    MoveIndex(usize, usize),
    Reverse,
    SortKeys,
    SortBy(u64),
    SortUnstableKeys,
    SortUnstableBy,
    SortCached(u64),
    SortedBy(u64),
    SortedUnstableBy,
    BinSearchKeys(Core),
    BinSearchBy(u64),
    PartPoint(u64),
    Reserve(usize),
    ReserveExact(usize),
    ShrinkToFit,
    ShrinkTo(usize),
    Renew(usize),
    GetIndex(usize),
    GetIndexMut(usize, u64),
    IndexUsize(usize),
    IndexMutUsize(usize, u64),
    GetRange(Rg),
    GetRangeMut(Rg, u64),
    FirstLast,
    FirstMut(u64),
    LastMut(u64),
    SwapRemoveIndex(usize),
    ShiftRemoveIndex(usize),
    DisjointIdx([usize; 3], u64),
    IterMut(u64),
    ValuesMut(u64),
    CloneSelf,
    CloneFromInto(Vec<KV>, usize),
    MapKeys,
    IntoIterRebuild(bool),
}

fn kv(x: &KV) -> (K, V) {
    (K::new(x.0, x.1), V::new(x.2))
}
fn put_v(o: &mut Out, v: Option<u64>) {
    match v {
        None => o.push(NONE),
        Some(x) => {
            o.push(SOME);
            o.push(x);
        }
    }
}
fn put_e(o: &mut Out, e: Option<(u64, u64)>) {
    match e {
        None => o.push(NONE),
        Some((t, v)) => {
            o.push(SOME);
            o.push(t);
            o.push(v);
        }
    }
}
fn put_ie(o: &mut Out, e: Option<(usize, u64, u64)>) {
    match e {
        None => o.push(NONE),
        Some((i, t, v)) => {
            o.push(SOME);
            o.push(i as u64);
            o.push(t);
            o.push(v);
        }
    }
}
fn put_r(o: &mut Out, r: Result<usize, usize>) {
    match r {
        Ok(i) => {
            o.push(OK);
            o.push(i as u64);
        }
        Err(i) => {
            o.push(NONE);
            o.push(i as u64);
        }
    }
}
fn tv(k: &K, v: &V) -> (u64, u64) {
    k.touch();
    v.touch();
    (k.tag, v.v)
}

/// Run `op` on the real map. `Err` is the user callback's error.
#[allow(deprecated)]
pub fn real(m: &mut M, op: &Op, vm: &mut Vm, g: &mut Gl) -> Result<Out, Exc> {
    let mut o: Out = vec![];
    match op {
        Op::Insert(x) => {
            let (k, v) = kv(x);
            let r = m.insert(k, v, vm, g)?;
            put_v(&mut o, r.map(|v| v.v));
        }
        Op::InsertFull(x) => {
            let (k, v) = kv(x);
            let (i, r) = m.insert_full(k, v, vm, g)?;
            o.push(i as u64);
            put_v(&mut o, r.map(|v| v.v));
        }
        Op::Get(q, owned) => {
            let r = if *owned { m.get(&K::new(*q, 1), vm, g)?.map(|v| v.v) } else { m.get(q, vm, g)?.map(|v| v.v) };
            put_v(&mut o, r);
        }
        Op::GetKV(q) => put_e(&mut o, m.get_key_value(q, vm, g)?.map(|(k, v)| tv(k, v))),
        Op::GetFull(q, owned) => {
            let r = if *owned { m.get_full(&K::new(*q, 1), vm, g)? } else { m.get_full(q, vm, g)? };
            put_ie(&mut o, r.map(|(i, k, v)| (i, k.tag, v.v)))
        }
        Op::GetIndexOf(q) => put_v(&mut o, m.get_index_of(q, vm, g)?.map(|i| i as u64)),
        Op::Contains(q, owned) => {
            let r = if *owned { m.contains_key(&K::new(*q, 1), vm, g)? } else { m.contains_key(q, vm, g)? };
            o.push(r as u64)
        }
        Op::GetMut(q, nv) => {
            let r = m.get_mut(q, vm, g)?.map(|v| {
                let old = v.v;
                v.set(*nv);
                old
            });
            put_v(&mut o, r)
        }
        Op::GetFullMut(q, nv) => {
            let r = m.get_full_mut(q, vm, g)?.map(|(i, k, v)| {
                let old = v.v;
                v.set(*nv);
                (i, k.tag, old)
            });
            put_ie(&mut o, r)
        }
        Op::GetDisjoint(qs, nv) => {
            let r = vh::catch(|| {
                let rs = m.get_disjoint_mut([&qs[0], &qs[1], &qs[2]], vm, g)?;
                let mut o = vec![];
                for (j, r) in rs.into_iter().enumerate() {
                    put_v(&mut o, r.map(|v| {
                        let old = v.v;
                        v.set(nv + j as u64);
                        old
                    }));
                }
                Ok(o)
            });
            match r {
                Ok(x) => o = x?,
                Err(_) => o.push(PANIC),
            }
        }
        Op::SwapRemove(q, owned) => {
            let r = if *owned { m.swap_remove(&K::new(*q, 1), vm, g)? } else { m.swap_remove(q, vm, g)? };
            put_v(&mut o, r.map(|v| v.v))
        }
        Op::SwapRemoveEntry(q) => put_e(&mut o, m.swap_remove_entry(q, vm, g)?.map(|(k, v)| tv(&k, &v))),
        Op::SwapRemoveFull(q) => put_ie(&mut o, m.swap_remove_full(q, vm, g)?.map(|(i, k, v)| (i, k.tag, v.v))),
        Op::RemoveEntry(q) => put_e(&mut o, m.remove_entry(q, vm, g)?.map(|(k, v)| tv(&k, &v))),
        Op::ShiftRemove(q, owned) => {
            let r = if *owned { m.shift_remove(&K::new(*q, 1), vm, g)? } else { m.shift_remove(q, vm, g)? };
            put_v(&mut o, r.map(|v| v.v))
        }
        Op::ShiftRemoveEntry(q) => put_e(&mut o, m.shift_remove_entry(q, vm, g)?.map(|(k, v)| tv(&k, &v))),
        Op::ShiftRemoveFull(q) => put_ie(&mut o, m.shift_remove_full(q, vm, g)?.map(|(i, k, v)| (i, k.tag, v.v))),
        Op::Pop => put_e(&mut o, m.pop(vm, g)?.map(|(k, v)| tv(&k, &v))),
        Op::Clear => m.clear(),
        Op::Truncate(n) => m.truncate(*n, vm, g)?,
        Op::Drain(rg, f, b) => {
            let r = vh::catch(|| -> Result<Out, Exc> {
                let mut o = vec![];
                let mut d = m.drain(rg.bounds(), vm, g)?;
                o.push(d.len() as u64);
                for _ in 0..*f {
                    put_e(&mut o, d.next().map(|(k, v)| tv(&k, &v)));
                }
                for _ in 0..*b {
                    put_e(&mut o, d.next_back().map(|(k, v)| tv(&k, &v)));
                }
                o.push(d.len() as u64);
                Ok(o)
            });
            match r {
                Ok(x) => o = x?,
                Err(_) => o.push(PANIC),
            }
        }
        Op::SplitOff(at, keep_tail) => {
            let r = vh::catch(|| m.split_off(*at, vm, g));
            match r {
                Err(_) => o.push(PANIC),
                Ok(t) => {
                    let mut t = t?;
                    if *keep_tail {
                        std::mem::swap(m, &mut t);
                    }
                    for (k, v) in t.iter() {
                        put_e(&mut o, Some(tv(k, v)));
                    }
                    // the detached part must be a working map of its own
                    for i in 0..t.len() {
                        let c = t.get_index(i).map(|(k, _)| k.core);
                        if let Some(c) = c {
                            put_v(&mut o, t.get_index_of(&c, vm, g)?.map(|i| i as u64));
                        }
                    }
                }
            }
        }
        Op::Append(xs, cap) => {
            let mut other = M::with_capacity_and_hasher(*cap, Bh);
            for x in xs {
                let (k, v) = kv(x);
                other.insert(k, v, vm, g)?;
            }
            m.append(&mut other, vm, g)?;
            o.push(other.len() as u64);
        }
        Op::Extend(xs, sized) => {
            let it = xs.iter().map(kv);
            if *sized {
                m.extend(it, vm, g)?
            } else {
                m.extend(it.filter(|_| true), vm, g)?
            }
        }
        Op::FromIter(xs) => {
            *m = M::from_iter(xs.iter().map(kv), vm, g)?;
        }
        Op::Retain(md, r) => m.retain(|k, v| {
            tv(k, v);
            o.push(k.tag);
            k.core.val as u64 % md != *r
        }),
        Op::RetainWrite(md, r, nv) => {
            let mut n = *nv;
            m.retain(|k, v| {
                v.set(n);
                n += 1;
                k.core.val as u64 % md != *r
            })
        }
        Op::InsertSorted(x) => {
            let (k, v) = kv(x);
            let (i, r) = m.insert_sorted(k, v, vm, g)?;
            o.push(i as u64);
            put_v(&mut o, r.map(|v| v.v));
        }
        Op::InsertBefore(i, x) => {
            let r = vh::catch(|| {
                let (k, v) = kv(x);
                m.insert_before(*i, k, v, vm, g)
            });
            match r {
                Err(_) => o.push(PANIC),
                Ok(r) => {
                    let (i, r) = r?;
                    o.push(i as u64);
                    put_v(&mut o, r.map(|v| v.v));
                }
            }
        }
        Op::ShiftInsert(i, x) => {
            let r = vh::catch(|| {
                let (k, v) = kv(x);
                m.shift_insert(*i, k, v, vm, g)
            });
            match r {
                Err(_) => o.push(PANIC),
                Ok(r) => put_v(&mut o, r?.map(|v| v.v)),
            }
        }
        Op::Entry(c, tag, eo) => {
            let r = vh::catch(|| real_entry(m, *c, *tag, eo, vm, g));
            match r {
                Err(_) => o.push(PANIC),
                Ok(x) => o = x?,
            }
        }
        Op::IndexEntry(i, x) => {
            let r = vh::catch(|| {
                let e = m.get_index_entry(*i);
                real_ix(e, x, vm, g)
            });
            match r {
                Err(_) => o.push(PANIC),
                Ok(x) => o = x?,
            }
        }
        Op::FirstEntry(x) => {
            let r = vh::catch(|| real_ix(m.first_entry(), x, vm, g));
            match r {
                Err(_) => o.push(PANIC),
                Ok(x) => o = x?,
            }
        }
        Op::LastEntry(x) => {
            let r = vh::catch(|| real_ix(m.last_entry(), x, vm, g));
            match r {
                Err(_) => o.push(PANIC),
                Ok(x) => o = x?,
            }
        }
        Op::MoveIndex(a, b) => {
            let r = vh::catch(|| m.move_index(*a, *b, vm, g));
            match r {
                Err(_) => o.push(PANIC),
                Ok(r) => r?,
            }
        }
        Op::Reverse => m.reverse(),
        Op::SortKeys => m.sort_keys(),
        Op::SortBy(md) => m.sort_by(|_, a, _, b| {
            a.touch();
            (a.v % md).cmp(&(b.v % md))
        }),
        Op::SortUnstableKeys => m.sort_unstable_keys(),
        Op::SortUnstableBy => m.sort_unstable_by(|k, _, k2, _| {
            k.touch();
            k2.core.cmp(&k.core)
        }),
        Op::SortCached(md) => m.sort_by_cached_key(|_, v| {
            v.touch();
            v.v % md
        }),
        Op::SortedBy(md) => {
            let c = std::mem::replace(m, M::with_hasher(Bh));
            let it = c.sorted_by(|_, a, _, b| (a.v % md).cmp(&(b.v % md)));
            o.push(it.len() as u64);
            m.extend(it, vm, g)?;
        }
        Op::SortedUnstableBy => {
            let c = std::mem::replace(m, M::with_hasher(Bh));
            let it = c.sorted_unstable_by(|k, _, k2, _| k2.core.cmp(&k.core));
            o.push(it.len() as u64);
            m.extend(it, vm, g)?;
        }
        Op::BinSearchKeys(c) => put_r(&mut o, m.binary_search_keys(&K::new(*c, 1))),
        Op::BinSearchBy(x) => {
            put_r(&mut o, m.binary_search_by(|k, _| (k.core.val as u64).cmp(x)));
            put_r(&mut o, m.binary_search_by_key(x, |k, _| k.core.val as u64));
        }
        Op::PartPoint(x) => o.push(m.partition_point(|k, _| (k.core.val as u64) < *x) as u64),
        Op::Reserve(n) => m.reserve(*n),
        Op::ReserveExact(n) => m.reserve_exact(*n),
        Op::ShrinkToFit => m.shrink_to_fit(),
        Op::ShrinkTo(n) => m.shrink_to(*n),
        Op::Renew(n) => *m = M::with_capacity_and_hasher(*n, Bh),
        Op::GetIndex(i) => put_e(&mut o, m.get_index(*i).map(|(k, v)| tv(k, v))),
        Op::GetIndexMut(i, nv) => {
            let r = m.get_index_mut(*i).map(|(k, v)| {
                let old = (k.tag, v.v);
                v.set(*nv);
                old
            });
            put_e(&mut o, r)
        }
        Op::IndexUsize(i) => match vh::catch(|| m[*i].v) {
            Err(_) => o.push(PANIC),
            Ok(v) => o.push(v),
        },
        Op::IndexMutUsize(i, nv) => match vh::catch(|| m[*i].set(*nv)) {
            Err(_) => o.push(PANIC),
            Ok(()) => {}
        },
        Op::GetRange(r) => match m.get_range(r.bounds()) {
            None => o.push(NONE),
            Some(s) => {
                o.push(s.len() as u64);
                for (k, v) in s {
                    put_e(&mut o, Some(tv(k, v)));
                }
            }
        },
        Op::GetRangeMut(r, nv) => match m.get_range_mut(r.bounds()) {
            None => o.push(NONE),
            Some(s) => {
                o.push(s.len() as u64);
                for (j, (k, v)) in s.iter_mut().enumerate() {
                    o.push(k.tag);
                    v.set(nv + j as u64);
                }
            }
        },
        Op::FirstLast => {
            put_e(&mut o, m.first().map(|(k, v)| tv(k, v)));
            put_e(&mut o, m.last().map(|(k, v)| tv(k, v)));
        }
        Op::FirstMut(nv) => {
            let r = m.first_mut().map(|(k, v)| {
                v.set(*nv);
                k.tag
            });
            put_v(&mut o, r)
        }
        Op::LastMut(nv) => {
            let r = m.last_mut().map(|(k, v)| {
                v.set(*nv);
                k.tag
            });
            put_v(&mut o, r)
        }
        Op::SwapRemoveIndex(i) => put_e(&mut o, m.swap_remove_index(*i, vm, g)?.map(|(k, v)| tv(&k, &v))),
        Op::ShiftRemoveIndex(i) => put_e(&mut o, m.shift_remove_index(*i, vm, g)?.map(|(k, v)| tv(&k, &v))),
        Op::DisjointIdx(ix, nv) => match m.get_disjoint_indices_mut(*ix) {
            Err(_) => o.push(NONE),
            Ok(rs) => {
                for (j, (k, v)) in rs.into_iter().enumerate() {
                    put_e(&mut o, Some(tv(k, v)));
                    v.set(nv + j as u64);
                }
            }
        },
        Op::IterMut(nv) => {
            let mut n = *nv;
            for (k, v) in m.iter_mut() {
                o.push(k.tag);
                v.set(n);
                n += 1;
            }
        }
        Op::ValuesMut(nv) => {
            let mut n = *nv;
            for v in m.values_mut() {
                o.push(v.v);
                v.set(n);
                n += 1;
            }
        }
        Op::CloneSelf => {
            let c = m.clone();
            *m = c;
        }
        Op::CloneFromInto(xs, cap) => {
            let mut d = M::with_capacity_and_hasher(*cap, Bh);
            for x in xs {
                let (k, v) = kv(x);
                d.insert(k, v, vm, g)?;
            }
            d.clone_from(m);
            *m = d;
        }
        Op::MapKeys => {
            let c = std::mem::replace(m, M::with_hasher(Bh));
            *m = c.map_keys(|k| k);
        }
        Op::IntoIterRebuild(rev) => {
            let c = std::mem::replace(m, M::with_hasher(Bh));
            if *rev {
                m.extend(c.into_iter().rev(), vm, g)?;
            } else {
                m.extend(c, vm, g)?;
            }
        }
    }
    Ok(o)
}

#[allow(deprecated)]
fn real_entry(m: &mut M, c: Core, tag: u64, eo: &EntOp, vm: &mut Vm, g: &mut Gl) -> Result<Out, Exc> {
    let mut o: Out = vec![];
    let e = m.entry(K::new(c, tag), vm, g)?;
    o.push(e.index() as u64);
    o.push(e.key().tag);
    match (eo, e) {
        (EntOp::OrInsert(v), e) => {
            let r = e.or_insert(V::new(*v));
            o.push(r.v);
            r.set(r.v + 1);
        }
        (EntOp::OrInsertWith(v), e) => o.push(e.or_insert_with(|| {
            vh::ledger::tick();
            V::new(*v)
        }).v),
        (EntOp::OrInsertWithKey(v), e) => {
            let mut seen = 0;
            let x = e.or_insert_with_key(|k| {
                seen = k.tag;
                V::new(*v)
            }).v;
            o.push(x);
            o.push(seen);
        }
        (EntOp::OrDefault, e) => o.push(e.or_default().v),
        (EntOp::AndModify(a, b), e) => o.push(e.and_modify(|x| x.set(*a)).or_insert(V::new(*b)).v),
        (EntOp::InsertEntry(v), e) => {
            let mut oe = e.insert_entry(V::new(*v));
            o.push(oe.index() as u64);
            o.push(oe.key().tag);
            o.push(oe.get().v);
            oe.get_mut().set(v + 1);
        }
        (EntOp::OccInsert(v), Entry::Occupied(mut x)) => {
            o.push(x.insert(V::new(*v)).v);
            o.push(x.into_mut().v)
        }
        (EntOp::OccSwapRemove, Entry::Occupied(x)) => o.push(x.swap_remove(vm, g)?.v),
        (EntOp::OccSwapRemoveEntry, Entry::Occupied(x)) => {
            let (k, v) = x.swap_remove_entry(vm, g)?;
            put_e(&mut o, Some(tv(&k, &v)))
        }
        (EntOp::OccShiftRemove, Entry::Occupied(x)) => o.push(x.shift_remove(vm, g)?.v),
        (EntOp::OccShiftRemoveEntry, Entry::Occupied(x)) => {
            let (k, v) = x.shift_remove_entry(vm, g)?;
            put_e(&mut o, Some(tv(&k, &v)))
        }
        (EntOp::OccRemove, Entry::Occupied(x)) => o.push(x.remove(vm, g)?.v),
        (EntOp::OccMove(to), Entry::Occupied(x)) => x.move_index(*to, vm, g)?,
        (EntOp::OccIntoIndexedMove(to), Entry::Occupied(x)) => {
            let ie: rubymap::map::IndexedEntry<_, _, _, _, _> = x.into();
            o.push(ie.index() as u64);
            ie.move_index(*to, vm, g)?
        }
        (EntOp::VacInsertSorted(v), Entry::Vacant(x)) => {
            let (i, r) = x.insert_sorted(V::new(*v), vm, g)?;
            o.push(i as u64);
            o.push(r.v);
        }
        (EntOp::VacShiftInsert(i, v), Entry::Vacant(x)) => {
            let r = x.shift_insert(*i, V::new(*v), vm, g)?;
            o.push(r.v);
        }
        (EntOp::VacIntoKey, Entry::Vacant(x)) => o.push(x.into_key().tag),
        (_, Entry::Occupied(x)) => o.push(x.get().v),
        (_, Entry::Vacant(x)) => o.push(x.key().tag),
    }
    Ok(o)
}

fn real_ix(
    e: Option<rubymap::map::IndexedEntry<'_, K, V, Vm, Gl, Exc>>,
    x: &IxOp,
    vm: &mut Vm,
    g: &mut Gl,
) -> Result<Out, Exc> {
    let mut o = vec![];
    let Some(mut e) = e else {
        o.push(NONE);
        return Ok(o);
    };
    o.push(e.index() as u64);
    o.push(e.key().tag);
    o.push(e.get().v);
    match x {
        IxOp::Insert(v) => {
            o.push(e.insert(V::new(*v)).v);
            e.get_mut().set(v + 1);
        }
        IxOp::IntoMut(v) => e.into_mut().set(*v),
        IxOp::SwapRemove => o.push(e.swap_remove(vm, g)?.v),
        IxOp::SwapRemoveEntry => {
            let (k, v) = e.swap_remove_entry(vm, g)?;
            put_e(&mut o, Some(tv(&k, &v)))
        }
        IxOp::ShiftRemove => o.push(e.shift_remove(vm, g)?.v),
        IxOp::ShiftRemoveEntry => {
            let (k, v) = e.shift_remove_entry(vm, g)?;
            put_e(&mut o, Some(tv(&k, &v)))
        }
        IxOp::Move(t) => e.move_index(*t, vm, g)?,
        IxOp::ToOccupiedMove(t) => {
            let oe = rubymap::map::OccupiedEntry::from_index(e, vm, g)?;
            o.push(oe.index() as u64);
            oe.move_index(*t, vm, g)?
        }
        IxOp::ToOccupiedRemove => {
            let oe = rubymap::map::OccupiedEntry::from_index(e, vm, g)?;
            o.push(oe.shift_remove(vm, g)?.v)
        }
        IxOp::Peek => {}
    }
    Ok(o)
}

// ---------------------------------------------------------------- the model

pub fn pos(m: &Model, c: &Core) -> Option<usize> {
    m.iter().position(|e| e.core == *c)
}
fn m_insert(m: &mut Model, x: &KV) -> (usize, Option<u64>) {
    match pos(m, &x.0) {
        Some(i) => {
            let old = m[i].v;
            m[i].v = x.2;
            (i, Some(old))
        }
        None => {
            m.push(Ent { core: x.0, tag: x.1, v: x.2 });
            (m.len() - 1, None)
        }
    }
}
fn m_move(m: &mut Model, a: usize, b: usize) -> bool {
    if a >= m.len() || b >= m.len() {
        return false;
    }
    let e = m.remove(a);
    m.insert(b, e);
    true
}
pub fn is_sorted(m: &Model) -> bool {
    m.windows(2).all(|w| w[0].core < w[1].core)
}
fn is_sorted_val(m: &Model) -> bool {
    m.windows(2).all(|w| w[0].core.val < w[1].core.val)
}
fn bs(m: &Model, f: impl Fn(&Ent) -> std::cmp::Ordering) -> Result<usize, usize> {
    for (i, e) in m.iter().enumerate() {
        match f(e) {
            std::cmp::Ordering::Equal => return Ok(i),
            std::cmp::Ordering::Greater => return Err(i),
            _ => {}
        }
    }
    Err(m.len())
}

/// Run `op` on the reference model.
pub fn model(m: &mut Model, op: &Op) -> Out {
    let mut o: Out = vec![];
    match op {
        Op::Insert(x) => put_v(&mut o, m_insert(m, x).1),
        Op::InsertFull(x) => {
            let (i, r) = m_insert(m, x);
            o.push(i as u64);
            put_v(&mut o, r)
        }
        Op::Get(q, _) => put_v(&mut o, pos(m, q).map(|i| m[i].v)),
        Op::GetKV(q) => put_e(&mut o, pos(m, q).map(|i| (m[i].tag, m[i].v))),
        Op::GetFull(q, _) => put_ie(&mut o, pos(m, q).map(|i| (i, m[i].tag, m[i].v))),
        Op::GetIndexOf(q) => put_v(&mut o, pos(m, q).map(|i| i as u64)),
        Op::Contains(q, _) => o.push(pos(m, q).is_some() as u64),
        Op::GetMut(q, nv) => put_v(&mut o, pos(m, q).map(|i| std::mem::replace(&mut m[i].v, *nv))),
        Op::GetFullMut(q, nv) => put_ie(
            &mut o,
            pos(m, q).map(|i| (i, m[i].tag, std::mem::replace(&mut m[i].v, *nv))),
        ),
        Op::GetDisjoint(qs, nv) => {
            let p: Vec<Option<usize>> = qs.iter().map(|q| pos(m, q)).collect();
            let dup = (0..3).any(|a| (0..a).any(|b| p[a].is_some() && p[a] == p[b]));
            if dup {
                o.push(PANIC)
            } else {
                for (j, p) in p.into_iter().enumerate() {
                    put_v(&mut o, p.map(|i| std::mem::replace(&mut m[i].v, nv + j as u64)));
                }
            }
        }
        Op::SwapRemove(q, _) => put_v(&mut o, pos(m, q).map(|i| m.swap_remove(i).v)),
        Op::SwapRemoveEntry(q) | Op::RemoveEntry(q) => put_e(
            &mut o,
            pos(m, q).map(|i| {
                let e = m.swap_remove(i);
                (e.tag, e.v)
            }),
        ),
        Op::SwapRemoveFull(q) => put_ie(
            &mut o,
            pos(m, q).map(|i| {
                let e = m.swap_remove(i);
                (i, e.tag, e.v)
            }),
        ),
        Op::ShiftRemove(q, _) => put_v(&mut o, pos(m, q).map(|i| m.remove(i).v)),
        Op::ShiftRemoveEntry(q) => put_e(
            &mut o,
            pos(m, q).map(|i| {
                let e = m.remove(i);
                (e.tag, e.v)
            }),
        ),
        Op::ShiftRemoveFull(q) => put_ie(
            &mut o,
            pos(m, q).map(|i| {
                let e = m.remove(i);
                (i, e.tag, e.v)
            }),
        ),
        Op::Pop => put_e(&mut o, m.pop().map(|e| (e.tag, e.v))),
        Op::Clear => m.clear(),
        Op::Truncate(n) => m.truncate(*n),
        Op::Drain(rg, f, b) => match rg.resolve(m.len()) {
            None => o.push(PANIC),
            Some((s, e)) => {
                let mut d = m.drain(s..e);
                o.push(d.len() as u64);
                for _ in 0..*f {
                    put_e(&mut o, d.next().map(|e| (e.tag, e.v)));
                }
                for _ in 0..*b {
                    put_e(&mut o, d.next_back().map(|e| (e.tag, e.v)));
                }
                o.push(d.len() as u64);
            }
        },
        Op::SplitOff(at, keep_tail) => {
            if *at > m.len() {
                o.push(PANIC);
            } else {
                let mut t = m.split_off(*at);
                if *keep_tail {
                    std::mem::swap(m, &mut t);
                }
                for e in &t {
                    put_e(&mut o, Some((e.tag, e.v)));
                }
                for i in 0..t.len() {
                    put_v(&mut o, Some(i as u64));
                }
            }
        }
        Op::Append(xs, _) => {
            let mut other: Model = vec![];
            for x in xs {
                m_insert(&mut other, x);
            }
            for e in other {
                m_insert(m, &KV(e.core, e.tag, e.v));
            }
            o.push(0);
        }
        Op::Extend(xs, _) => {
            for x in xs {
                m_insert(m, x);
            }
        }
        Op::FromIter(xs) => {
            m.clear();
            for x in xs {
                m_insert(m, x);
            }
        }
        Op::Retain(md, r) => m.retain(|e| {
            o.push(e.tag);
            e.core.val as u64 % md != *r
        }),
        Op::RetainWrite(md, r, nv) => {
            let mut n = *nv;
            for e in m.iter_mut() {
                e.v = n;
                n += 1;
            }
            m.retain(|e| e.core.val as u64 % md != *r)
        }
        Op::InsertSorted(x) => match bs(m, |e| e.core.cmp(&x.0)) {
            Ok(i) => {
                o.push(i as u64);
                put_v(&mut o, Some(std::mem::replace(&mut m[i].v, x.2)));
            }
            Err(i) => {
                m.insert(i, Ent { core: x.0, tag: x.1, v: x.2 });
                o.push(i as u64);
                put_v(&mut o, None);
            }
        },
        Op::InsertBefore(i, x) => {
            if *i > m.len() {
                o.push(PANIC);
            } else {
                match pos(m, &x.0) {
                    None => {
                        m.insert(*i, Ent { core: x.0, tag: x.1, v: x.2 });
                        o.push(*i as u64);
                        put_v(&mut o, None);
                    }
                    Some(p) => {
                        // "before the entry currently at i"
                        let mut e = m.remove(p);
                        let t = if *i > p { *i - 1 } else { *i };
                        let old = std::mem::replace(&mut e.v, x.2);
                        m.insert(t, e);
                        o.push(t as u64);
                        put_v(&mut o, Some(old));
                    }
                }
            }
        }
        Op::ShiftInsert(i, x) => match pos(m, &x.0) {
            None if *i <= m.len() => {
                m.insert(*i, Ent { core: x.0, tag: x.1, v: x.2 });
                put_v(&mut o, None);
            }
            Some(p) if *i < m.len() => {
                let old = std::mem::replace(&mut m[p].v, x.2);
                m_move(m, p, *i);
                put_v(&mut o, Some(old));
            }
            _ => o.push(PANIC),
        },
        Op::Entry(c, tag, eo) => o = model_entry(m, *c, *tag, eo),
        Op::IndexEntry(i, x) => o = model_ix(m, Some(*i), x),
        Op::FirstEntry(x) => o = model_ix(m, Some(0), x),
        Op::LastEntry(x) => o = model_ix(m, m.len().checked_sub(1), x),
        Op::MoveIndex(a, b) => {
            if !m_move(m, *a, *b) {
                o.push(PANIC)
            }
        }
        Op::Reverse => m.reverse(),
        Op::SortKeys | Op::SortUnstableKeys => m.sort_by(|a, b| a.core.cmp(&b.core)),
        Op::SortBy(md) | Op::SortCached(md) => m.sort_by_key(|e| e.v % md),
        Op::SortUnstableBy => m.sort_by(|a, b| b.core.cmp(&a.core)),
        Op::SortedBy(md) => {
            m.sort_by_key(|e| e.v % md);
            o.push(m.len() as u64);
        }
        Op::SortedUnstableBy => {
            m.sort_by(|a, b| b.core.cmp(&a.core));
            o.push(m.len() as u64);
        }
        Op::BinSearchKeys(c) => put_r(&mut o, bs(m, |e| e.core.cmp(c))),
        Op::BinSearchBy(x) => {
            let r = bs(m, |e| (e.core.val as u64).cmp(x));
            put_r(&mut o, r);
            put_r(&mut o, r);
        }
        Op::PartPoint(x) => o.push(m.iter().position(|e| e.core.val as u64 >= *x).unwrap_or(m.len()) as u64),
        Op::Reserve(_) | Op::ReserveExact(_) | Op::ShrinkToFit | Op::ShrinkTo(_) => {}
        Op::Renew(_) => m.clear(),
        Op::GetIndex(i) => put_e(&mut o, m.get(*i).map(|e| (e.tag, e.v))),
        Op::GetIndexMut(i, nv) => {
            let r = m.get_mut(*i).map(|e| (e.tag, std::mem::replace(&mut e.v, *nv)));
            put_e(&mut o, r)
        }
        Op::IndexUsize(i) => o.push(m.get(*i).map(|e| e.v).unwrap_or(PANIC)),
        Op::IndexMutUsize(i, nv) => match m.get_mut(*i) {
            None => o.push(PANIC),
            Some(e) => e.v = *nv,
        },
        Op::GetRange(r) => match r.resolve(m.len()) {
            None => o.push(NONE),
            Some((a, b)) => {
                o.push((b - a) as u64);
                for e in &m[a..b] {
                    put_e(&mut o, Some((e.tag, e.v)));
                }
            }
        },
        Op::GetRangeMut(r, nv) => match r.resolve(m.len()) {
            None => o.push(NONE),
            Some((a, b)) => {
                o.push((b - a) as u64);
                for (j, e) in m[a..b].iter_mut().enumerate() {
                    o.push(e.tag);
                    e.v = nv + j as u64;
                }
            }
        },
        Op::FirstLast => {
            put_e(&mut o, m.first().map(|e| (e.tag, e.v)));
            put_e(&mut o, m.last().map(|e| (e.tag, e.v)));
        }
        Op::FirstMut(nv) => {
            let r = m.first_mut().map(|e| {
                e.v = *nv;
                e.tag
            });
            put_v(&mut o, r)
        }
        Op::LastMut(nv) => {
            let r = m.last_mut().map(|e| {
                e.v = *nv;
                e.tag
            });
            put_v(&mut o, r)
        }
        Op::SwapRemoveIndex(i) => {
            let r = if *i < m.len() { Some(m.swap_remove(*i)) } else { None };
            put_e(&mut o, r.map(|e| (e.tag, e.v)))
        }
        Op::ShiftRemoveIndex(i) => {
            let r = if *i < m.len() { Some(m.remove(*i)) } else { None };
            put_e(&mut o, r.map(|e| (e.tag, e.v)))
        }
        Op::DisjointIdx(ix, nv) => {
            let bad = ix.iter().any(|i| *i >= m.len()) || ix[0] == ix[1] || ix[1] == ix[2] || ix[0] == ix[2];
            if bad {
                o.push(NONE)
            } else {
                for (j, i) in ix.iter().enumerate() {
                    put_e(&mut o, Some((m[*i].tag, m[*i].v)));
                    m[*i].v = nv + j as u64;
                }
            }
        }
        Op::IterMut(nv) => {
            for (j, e) in m.iter_mut().enumerate() {
                o.push(e.tag);
                e.v = nv + j as u64;
            }
        }
        Op::ValuesMut(nv) => {
            for (j, e) in m.iter_mut().enumerate() {
                o.push(e.v);
                e.v = nv + j as u64;
            }
        }
        Op::CloneSelf | Op::CloneFromInto(..) | Op::MapKeys => {}
        Op::IntoIterRebuild(rev) => {
            if *rev {
                m.reverse()
            }
        }
    }
    o
}

fn model_entry(m: &mut Model, c: Core, tag: u64, eo: &EntOp) -> Out {
    let mut o = vec![];
    let p = pos(m, &c);
    o.push(p.unwrap_or(m.len()) as u64);
    o.push(p.map(|i| m[i].tag).unwrap_or(tag));
    let or_ins = |m: &mut Model, v: u64| -> usize {
        match p {
            Some(i) => i,
            None => {
                m.push(Ent { core: c, tag, v });
                m.len() - 1
            }
        }
    };
    match (eo, p) {
        (EntOp::OrInsert(v), _) => {
            let i = or_ins(m, *v);
            o.push(m[i].v);
            m[i].v += 1;
        }
        (EntOp::OrInsertWith(v), _) => {
            let i = or_ins(m, *v);
            o.push(m[i].v)
        }
        (EntOp::OrInsertWithKey(v), _) => {
            let i = or_ins(m, *v);
            o.push(m[i].v);
            o.push(if p.is_none() { tag } else { 0 })
        }
        (EntOp::OrDefault, _) => {
            let i = or_ins(m, 0xdef);
            o.push(m[i].v)
        }
        (EntOp::AndModify(a, b), _) => {
            if let Some(i) = p {
                m[i].v = *a
            }
            let i = or_ins(m, *b);
            o.push(m[i].v)
        }
        (EntOp::InsertEntry(v), _) => {
            let i = or_ins(m, *v);
            o.push(i as u64);
            o.push(m[i].tag);
            o.push(*v);
            m[i].v = v + 1;
        }
        (EntOp::OccInsert(v), Some(i)) => {
            o.push(std::mem::replace(&mut m[i].v, *v));
            o.push(*v)
        }
        (EntOp::OccSwapRemove | EntOp::OccRemove, Some(i)) => o.push(m.swap_remove(i).v),
        (EntOp::OccSwapRemoveEntry, Some(i)) => {
            let e = m.swap_remove(i);
            put_e(&mut o, Some((e.tag, e.v)))
        }
        (EntOp::OccShiftRemove, Some(i)) => o.push(m.remove(i).v),
        (EntOp::OccShiftRemoveEntry, Some(i)) => {
            let e = m.remove(i);
            put_e(&mut o, Some((e.tag, e.v)))
        }
        (EntOp::OccMove(t), Some(i)) => {
            if !m_move(m, i, *t) {
                return vec![PANIC];
            }
        }
        (EntOp::OccIntoIndexedMove(t), Some(i)) => {
            o.push(i as u64);
            if !m_move(m, i, *t) {
                return vec![PANIC];
            }
        }
        (EntOp::VacInsertSorted(v), None) => {
            let i = bs(m, |e| e.core.cmp(&c)).unwrap_or_else(|i| i);
            m.insert(i, Ent { core: c, tag, v: *v });
            o.push(i as u64);
            o.push(*v);
        }
        (EntOp::VacShiftInsert(i, v), None) => {
            if *i > m.len() {
                return vec![PANIC];
            }
            m.insert(*i, Ent { core: c, tag, v: *v });
            o.push(*v);
        }
        (EntOp::VacIntoKey, None) => o.push(tag),
        (_, Some(i)) => o.push(m[i].v),
        (_, None) => o.push(tag),
    }
    o
}

fn model_ix(m: &mut Model, i: Option<usize>, x: &IxOp) -> Out {
    let mut o = vec![];
    let Some(i) = i.filter(|i| *i < m.len()) else {
        o.push(NONE);
        return o;
    };
    o.push(i as u64);
    o.push(m[i].tag);
    o.push(m[i].v);
    match x {
        IxOp::Insert(v) => {
            o.push(m[i].v);
            m[i].v = v + 1;
        }
        IxOp::IntoMut(v) => m[i].v = *v,
        IxOp::SwapRemove => o.push(m.swap_remove(i).v),
        IxOp::SwapRemoveEntry => {
            let e = m.swap_remove(i);
            put_e(&mut o, Some((e.tag, e.v)))
        }
        IxOp::ShiftRemove | IxOp::ToOccupiedRemove => o.push(m.remove(i).v),
        IxOp::ShiftRemoveEntry => {
            let e = m.remove(i);
            put_e(&mut o, Some((e.tag, e.v)))
        }
        IxOp::Move(t) => {
            if !m_move(m, i, *t) {
                return vec![PANIC];
            }
        }
        IxOp::ToOccupiedMove(t) => {
            o.push(i as u64);
            if !m_move(m, i, *t) {
                return vec![PANIC];
            }
        }
        IxOp::Peek => {}
    }
    o
}

// ------------------------------------------------------------- op generation

/// Weights: [keyed dictionary ops, positional/reorder, entry handles, bulk, capacity]
#[derive(Clone, Copy)]
pub struct Profile {
    pub dict: u32,
    pub positional: u32,
    pub entry: u32,
    pub bulk: u32,
    pub cap: u32,
    /// insertions outweigh removals by this factor (churn when 1)
    pub grow: u32,
    pub target_len: usize,
    /// full comparison every that many steps
    pub check_every: usize,
}

pub struct Gen {
    pub uni: Universe,
    pub next: u64,
}
impl Gen {
    pub fn new(uni: Universe) -> Gen {
        Gen { uni, next: 10 }
    }
    pub fn fresh(&mut self) -> u64 {
        self.next += 7;
        self.next
    }
    pub fn key(&mut self, r: &mut Rng, m: &Model) -> Core {
        // bias towards present keys
        if !m.is_empty() && r.chance(1, 2) {
            r.pick(m).core
        } else {
            *r.pick(&self.uni.cores)
        }
    }
    pub fn kv(&mut self, r: &mut Rng, m: &Model) -> KV {
        let c = self.key(r, m);
        let t = self.fresh();
        let v = self.fresh();
        KV(c, t, v)
    }
    /// About `target` distinct keys in random order.
    pub fn prefill(&mut self, r: &mut Rng, target: usize) -> Vec<KV> {
        let mut cs = self.uni.cores.clone();
        r.shuffle(&mut cs);
        cs.truncate(target.saturating_sub(r.us(3)));
        cs.into_iter().map(|c| KV(c, self.fresh(), self.fresh())).collect()
    }
    pub fn kvs(&mut self, r: &mut Rng, n: usize) -> Vec<KV> {
        (0..n)
            .map(|_| {
                let c = *r.pick(&self.uni.cores);
                let t = self.fresh();
                let v = self.fresh();
                KV(c, t, v)
            })
            .collect()
    }
    fn idx(&mut self, r: &mut Rng, len: usize) -> usize {
        match r.below(20) {
            0 => len,
            1 => len + 1 + r.us(3),
            2 => 0,
            3 => len.saturating_sub(1),
            4 if r.chance(1, 8) => usize::MAX - r.us(2),
            _ => r.us(len.max(1)),
        }
    }
    pub fn rg(&mut self, r: &mut Rng, len: usize) -> Rg {
        let mut a = self.idx(r, len);
        let mut b = self.idx(r, len);
        if a > b && !r.chance(1, 6) {
            std::mem::swap(&mut a, &mut b);
        }
        match r.below(8) {
            0 => Rg::Full,
            1 => Rg::From(a),
            2 => Rg::To(a),
            3 => Rg::ToInc(a),
            4 | 5 => Rg::Half(a, b),
            6 => Rg::Inc(a, b),
            _ => Rg::Excl(a, b),
        }
    }
    fn ix_op(&mut self, r: &mut Rng, len: usize) -> IxOp {
        let v = self.fresh();
        match r.below(10) {
            0 => IxOp::Insert(v),
            1 => IxOp::IntoMut(v),
            2 => IxOp::SwapRemove,
            3 => IxOp::SwapRemoveEntry,
            4 => IxOp::ShiftRemove,
            5 => IxOp::ShiftRemoveEntry,
            6 => IxOp::Move(self.idx(r, len)),
            7 => IxOp::ToOccupiedMove(self.idx(r, len)),
            8 => IxOp::ToOccupiedRemove,
            _ => IxOp::Peek,
        }
    }
    pub fn dict_op(&mut self, r: &mut Rng, m: &Model, p: &Profile) -> Op {
        let c = self.key(r, m);
        let v = self.fresh();
        let owned = r.chance(1, 3);
        let over = m.len() > p.target_len;
        let ins = if over { 2 } else { 4 * p.grow };
        match r.weighted(&[ins, ins, 2, 2, 2, 2, 2, 2, 2, 1, 2, 1, 1, 1, 2, 1, 2, 2]) {
            0 => Op::Insert(self.kv(r, m)),
            1 => Op::InsertFull(self.kv(r, m)),
            2 => Op::Get(c, owned),
            3 => Op::GetKV(c),
            4 => Op::GetFull(c, owned),
            5 => Op::GetIndexOf(c),
            6 => Op::Contains(c, owned),
            7 => Op::GetMut(c, v),
            8 => Op::GetFullMut(c, v),
            9 => {
                let qs = [self.key(r, m), self.key(r, m), self.key(r, m)];
                Op::GetDisjoint(qs, v)
            }
            10 => Op::SwapRemove(c, owned),
            11 => Op::SwapRemoveEntry(c),
            12 => Op::SwapRemoveFull(c),
            13 => Op::RemoveEntry(c),
            14 => Op::ShiftRemove(c, owned),
            15 => Op::ShiftRemoveEntry(c),
            16 => Op::ShiftRemoveFull(c),
            _ => Op::Pop,
        }
    }
    pub fn entry_op(&mut self, r: &mut Rng, m: &Model) -> Op {
        let c = self.key(r, m);
        let t = self.fresh();
        let v = self.fresh();
        let v2 = self.fresh();
        let i = self.idx(r, m.len());
        if r.chance(1, 3) {
            let x = self.ix_op(r, m.len());
            return match r.below(3) {
                0 => Op::FirstEntry(x),
                1 => Op::LastEntry(x),
                _ => Op::IndexEntry(i, x),
            };
        }
        let e = match r.below(18) {
            0 => EntOp::OrInsert(v),
            1 => EntOp::OrInsertWith(v),
            2 => EntOp::OrInsertWithKey(v),
            3 => EntOp::OrDefault,
            4 => EntOp::AndModify(v, v2),
            5 => EntOp::InsertEntry(v),
            6 => EntOp::OccInsert(v),
            7 => EntOp::OccSwapRemove,
            8 => EntOp::OccSwapRemoveEntry,
            9 => EntOp::OccShiftRemove,
            10 => EntOp::OccShiftRemoveEntry,
            11 => EntOp::OccRemove,
            12 => EntOp::OccMove(i),
            13 => EntOp::OccIntoIndexedMove(i),
            14 if is_sorted(m) => EntOp::VacInsertSorted(v),
            14 | 15 => EntOp::VacShiftInsert(i, v),
            16 => EntOp::VacIntoKey,
            _ => EntOp::Peek,
        };
        Op::Entry(c, t, e)
    }
    pub fn pos_op(&mut self, r: &mut Rng, m: &Model) -> Op {
        let len = m.len();
        let (i, j) = (self.idx(r, len), self.idx(r, len));
        let v = self.fresh();
        match r.below(25) {
            0 | 1 => Op::InsertBefore(i, self.kv(r, m)),
            2 | 3 => Op::ShiftInsert(i, self.kv(r, m)),
            4 | 5 => Op::MoveIndex(i, j),
            6 => Op::Reverse,
            7 if r.chance(1, 2) => Op::SortKeys,
            7 => Op::SortUnstableKeys,
            8 => Op::SortBy(r.range(1, 4)),
            9 => Op::SortUnstableBy,
            10 => Op::SortCached(r.range(1, 4)),
            11 if r.chance(1, 3) => Op::SortedBy(r.range(1, 4)),
            11 if r.chance(1, 2) => Op::SortedUnstableBy,
            12 => Op::GetIndex(i),
            13 => Op::GetIndexMut(i, v),
            14 => Op::IndexUsize(i),
            15 => Op::IndexMutUsize(i, v),
            16 => Op::GetRange(self.rg(r, len)),
            17 => Op::GetRangeMut(self.rg(r, len), v),
            18 => Op::SwapRemoveIndex(i),
            19 => Op::ShiftRemoveIndex(i),
            20 => {
                let k = self.idx(r, len);
                Op::DisjointIdx([i, j, k], v)
            }
            21 => match r.below(3) {
                0 => Op::FirstLast,
                1 => Op::FirstMut(v),
                _ => Op::LastMut(v),
            },
            _ if is_sorted(m) => match r.below(4) {
                0 | 1 => Op::InsertSorted(self.kv(r, m)),
                2 => Op::BinSearchKeys(self.key(r, m)),
                _ if is_sorted_val(m) => {
                    let x = r.below(self.uni.cores.len() as u64 + 2);
                    if r.chance(1, 2) {
                        Op::BinSearchBy(x)
                    } else {
                        Op::PartPoint(x)
                    }
                }
                _ => Op::Reverse,
            },
            22 => Op::SortKeys,
            _ => Op::ShiftInsert(i, self.kv(r, m)),
        }
    }
    pub fn bulk_op(&mut self, r: &mut Rng, m: &Model) -> Op {
        let len = m.len();
        let n = match r.below(4) {
            0 => r.us(4),
            1 => r.us(12),
            2 => r.us(24),
            _ => r.us(self.uni.cores.len() + 1),
        };
        let v = self.fresh();
        self.next += 1000;
        match r.below(18) {
            0 => Op::Clear,
            1 => Op::Truncate(self.idx(r, len)),
            2 | 3 | 4 => {
                let (f, b) = match r.below(4) {
                    0 => (0, 0),
                    1 => (r.us(len + 2), 0),
                    2 => (0, r.us(len + 2)),
                    _ => (r.us(len / 2 + 2), r.us(len / 2 + 2)),
                };
                Op::Drain(self.rg(r, len), f, b)
            }
            5 | 6 => Op::SplitOff(self.idx(r, len), r.chance(1, 2)),
            7 => Op::Append(self.kvs(r, n), r.us(20)),
            8 | 9 => Op::Extend(self.kvs(r, n), r.chance(1, 2)),
            10 => Op::FromIter(self.kvs(r, n)),
            11 => {
                let md = r.range(1, 5);
                Op::Retain(md, r.below(md + 1))
            }
            12 => {
                let md = r.range(1, 5);
                Op::RetainWrite(md, r.below(md + 1), v)
            }
            13 => {
                if r.chance(1, 2) {
                    Op::IterMut(v)
                } else {
                    Op::ValuesMut(v)
                }
            }
            14 => Op::CloneSelf,
            15 => Op::CloneFromInto(self.kvs(r, n), r.us(20)),
            16 => Op::MapKeys,
            _ => Op::IntoIterRebuild(r.chance(1, 2)),
        }
    }
    pub fn cap_op(&mut self, r: &mut Rng, m: &Model) -> Op {
        let n = match r.below(3) {
            0 => r.us(4),
            1 => r.us(20),
            _ => r.us(130),
        };
        match r.below(9) {
            0 | 1 => Op::Reserve(n),
            2 => Op::ReserveExact(n),
            3 | 4 => Op::ShrinkToFit,
            5 | 6 => Op::ShrinkTo(n),
            7 if r.chance(1, 4) => Op::Renew(n),
            _ => Op::Reserve(m.len()),
        }
    }
    pub fn op(&mut self, r: &mut Rng, m: &Model, p: &Profile) -> Op {
        match r.weighted(&[p.dict, p.positional, p.entry, p.bulk, p.cap]) {
            0 => self.dict_op(r, m, p),
            1 => self.pos_op(r, m),
            2 => self.entry_op(r, m),
            3 => self.bulk_op(r, m),
            _ => self.cap_op(r, m),
        }
    }
}

impl Op {
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            Insert(..) => "op_insert",
            InsertFull(..) => "op_insert_full",
            Get(..) => "op_get",
            GetKV(..) => "op_get_key_value",
            GetFull(..) => "op_get_full",
            GetIndexOf(..) => "op_get_index_of",
            Contains(..) => "op_contains_key",
            GetMut(..) => "op_get_mut",
            GetFullMut(..) => "op_get_full_mut",
            GetDisjoint(..) => "op_get_disjoint_mut",
            SwapRemove(..) | SwapRemoveEntry(..) | SwapRemoveFull(..) | RemoveEntry(..) => "op_swap_remove",
            ShiftRemove(..) | ShiftRemoveEntry(..) | ShiftRemoveFull(..) => "op_shift_remove",
            Pop => "op_pop",
            Clear => "op_clear",
            Truncate(..) => "op_truncate",
            Drain(..) => "op_drain",
            SplitOff(..) => "op_split_off",
            Append(..) => "op_append",
            Extend(..) => "op_extend",
            FromIter(..) => "op_from_iter",
            Retain(..) | RetainWrite(..) => "op_retain",
            InsertSorted(..) => "op_insert_sorted",
            InsertBefore(..) => "op_insert_before",
            ShiftInsert(..) => "op_shift_insert",
            Entry(..) => "op_entry",
            IndexEntry(..) | FirstEntry(..) | LastEntry(..) => "op_indexed_entry",
            MoveIndex(..) => "op_move_index",
            Reverse => "op_reverse",
            SortKeys | SortBy(..) | SortUnstableKeys | SortUnstableBy | SortCached(..) | SortedBy(..) | SortedUnstableBy => "op_sort",
            BinSearchKeys(..) | BinSearchBy(..) | PartPoint(..) => "op_binary_search",
            Reserve(..) | ReserveExact(..) => "op_reserve",
            ShrinkToFit | ShrinkTo(..) => "op_shrink",
            Renew(..) => "op_with_capacity",
            GetIndex(..) | GetIndexMut(..) | IndexUsize(..) | IndexMutUsize(..) => "op_index",
            GetRange(..) | GetRangeMut(..) => "op_get_range",
            FirstLast | FirstMut(..) | LastMut(..) => "op_first_last",
            SwapRemoveIndex(..) => "op_swap_remove_index",
            ShiftRemoveIndex(..) => "op_shift_remove_index",
            DisjointIdx(..) => "op_get_disjoint_indices",
            IterMut(..) | ValuesMut(..) => "op_iter_mut",
            CloneSelf => "op_clone",
            CloneFromInto(..) => "op_clone_from",
            MapKeys => "op_map_keys",
            IntoIterRebuild(..) => "op_into_iter",
        }
    }
}

// ------------------------------------------------------------------ checking

/// Contents and order.
pub fn check_contents(m: &M, md: &Model) -> Verdict {
    veq!(m.len(), md.len(), "length");
    veq!(m.is_empty(), md.is_empty(), "is_empty");
    let mut i = 0;
    for (k, v) in m.iter() {
        k.touch();
        v.touch();
        match md.get(i) {
            Some(e) => {
                if k.core != e.core || k.tag != e.tag || v.v != e.v {
                    vh::vbail!("entry {i}: observed {k:?}=>{v:?}, expected {e:?}");
                }
            }
            None => vh::vbail!("iteration yields more than len entries"),
        }
        i += 1;
    }
    veq!(i, md.len(), "entries yielded by iteration");
    Ok(())
}

/// Every key findable at its own position; absent keys not found.
pub fn check_lookups(m: &M, md: &Model, uni: &Universe, vm: &mut Vm, g: &mut Gl, r: &mut Rng, limit: usize) -> Verdict {
    let n = md.len();
    let step = if n > limit { n / limit + 1 } else { 1 };
    let mut i = if step > 1 { r.us(step) } else { 0 };
    while i < n {
        match m.get_index_of(&md[i].core, vm, g) {
            Ok(p) => veq!(p, Some(i), "position of key {:?}", md[i].core),
            Err(e) => vh::vbail!("lookup of a present key raised {e:?}"),
        }
        i += step;
    }
    let un = uni.cores.len();
    let tries = un.min(limit);
    for t in 0..tries {
        let c = if un <= limit { uni.cores[t] } else { *r.pick(&uni.cores) };
        if pos(md, &c).is_none() {
            match m.get_index_of(&c, vm, g) {
                Ok(p) => veq!(p, None, "lookup of absent key {c:?}"),
                Err(e) => vh::vbail!("lookup of an absent key raised {e:?}"),
            }
        }
    }
    Ok(())
}

pub fn anomalies() -> Verdict {
    let a = vh::ledger::take_anomalies();
    if !a.is_empty() {
        vh::vbail!("element ledger: {}", a.join("; "));
    }
    Ok(())
}

/// One step on both sides, comparing the outcome.
pub fn step(case: &mut Case, m: &mut M, md: &mut Model, op: &Op, vm: &mut Vm, g: &mut Gl) -> Verdict {
    case.op(|| format!("{op:?}"));
    case.count(op.name());
    let want = model(md, op);
    let got = match vh::catch(|| real(m, op, vm, g)) {
        Err((l, msg)) => vh::vbail!("{op:?}: panicked at {l}: {msg}"),
        Ok(Ok(o)) => o,
        Ok(Err(e)) => vh::vbail!("{op:?}: returned error {e:?} though no callback raised"),
    };
    if got != want {
        vh::vbail!("{op:?}: outcome {got:x?}, expected {want:x?}");
    }
    if want.first() == Some(&PANIC) {
        case.count("refused_out_of_range");
    }
    Ok(())
}

/// Drive a whole history. Returns the final pair.
pub fn history(
    case: &mut Case,
    gen: &mut Gen,
    p: &Profile,
    steps: usize,
    m: &mut M,
    md: &mut Model,
    vm: &mut Vm,
    g: &mut Gl,
) -> Verdict {
    let limit = if case.slow { 8 } else { 64 };
    let mut crossed_up = false;
    for st in 0..steps {
        let mut r = case.rng.clone();
        let op = gen.op(&mut r, md, p);
        case.rng = r;
        let before = md.len();
        step(case, m, md, &op, vm, g)?;
        case.sig(match &op {
            Op::Insert(x) | Op::InsertFull(x) => x.0.h ^ x.0.val as u64,
            o => o.name().len() as u64 ^ (o.name().as_bytes()[4] as u64) << 8,
        });
        let full = st % p.check_every == 0;
        if full {
            check_contents(m, md)?;
        }
        anomalies()?;
        let after = md.len();
        if before <= 8 && after > 8 {
            case.count("crossed_up");
            crossed_up = true;
            case.nontrivial();
        }
        if before > 8 && after <= 8 {
            case.count("crossed_down");
        }
        if full && (after <= 16 || case.rng.chance(1, 4)) {
            let mut r = case.rng.clone();
            check_lookups(m, md, &gen.uni, vm, g, &mut r, limit)?;
            case.rng = r;
        }
        case.max("max_len", after as u64);
    }
    check_contents(m, md)?;
    let mut r = case.rng.clone();
    check_lookups(m, md, &gen.uni, vm, g, &mut r, 600)?;
    case.rng = r;
    if !crossed_up {
        case.count("stayed_small");
    }
    Ok(())
}
impl Op {
    /// touches a single key through its hash/eql?
    pub fn single_key(&self) -> bool {
        use Op::*;
        matches!(
            self,
            Insert(..) | InsertFull(..) | Get(..) | GetKV(..) | GetFull(..) | GetIndexOf(..) | Contains(..) | GetMut(..) | GetFullMut(..)
                | SwapRemove(..) | SwapRemoveEntry(..) | SwapRemoveFull(..) | RemoveEntry(..) | ShiftRemove(..) | ShiftRemoveEntry(..)
                | ShiftRemoveFull(..) | Entry(..) | InsertSorted(..) | InsertBefore(..) | ShiftInsert(..)
        )
    }
}
