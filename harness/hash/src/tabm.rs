//! Machine for the unordered containers (map, set and table): operations as data,
//! real executor, reference executor.
use crate::key::*;
use crate::mapm::{Ent, Gen, Model, KV, PANIC};
use hashbrown::hash_map::{Entry, EntryRef, HashMap};
use hashbrown::hash_set::HashSet;
use hashbrown::hash_table::{self, HashTable};
use ruby_traits::RubyEql;
use vh::Rng;

pub type HM = HashMap<K, V, Vm, Gl, Exc, Bh>;
pub type HS = HashSet<K, Vm, Gl, Exc, Bh>;
pub type HT = HashTable<(K, V), Vm, Gl, Exc>;

pub enum T {
    M(HM),
    S(HS),
    T(HT),
}
impl T {
    pub fn new(kind: u64, cap: usize) -> T {
        match kind {
            0 => T::M(HM::with_capacity_and_hasher(cap, Bh)),
            1 => T::S(HS::with_capacity_and_hasher(cap, Bh)),
            _ => T::T(HT::with_capacity(cap)),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            T::M(m) => m.len(),
            T::S(m) => m.len(),
            T::T(m) => m.len(),
        }
    }
    pub fn capacity(&self) -> usize {
        match self {
            T::M(m) => m.capacity(),
            T::S(m) => m.capacity(),
            T::T(m) => m.capacity(),
        }
    }
    pub fn alloc_size(&self) -> usize {
        match self {
            T::M(m) => m.allocation_size(),
            T::S(m) => m.allocation_size(),
            T::T(m) => m.allocation_size(),
        }
    }
    /// Contents in iteration order.
    pub fn dump(&self) -> Vec<Ent> {
        let mut o = vec![];
        let mut put = |k: &K, v: u64| {
            k.touch();
            o.push(Ent { core: k.core, tag: k.tag, v });
        };
        match self {
            T::M(m) => m.iter().for_each(|(k, v)| {
                v.touch();
                put(k, v.v)
            }),
            T::S(m) => m.iter().for_each(|k| put(k, 0)),
            T::T(m) => m.iter().for_each(|(k, v)| {
                v.touch();
                put(k, v.v)
            }),
        }
        o
    }
}
fn th(x: &(K, V)) -> u64 {
    x.0.touch();
    x.0.core.h
}

#[derive(Clone, Debug, PartialEq)]
pub enum EOp {
    OrInsert(u64),
    OrInsertWithKey(u64),
    OrDefault,
    AndModify(u64, u64),
    Insert(u64),
    AndReplace(u64, bool),
    OccReplace(u64, bool),
    OccInsert(u64),
    OccRemove,
    OccRemoveEntry,
    VacInsert(u64),
    VacInsertEntry(u64),
    /// table only: remove, then put a new element into the freed slot
    Reinsert(u64),
    Peek,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TOp {
    Insert(KV),
    TryInsert(KV),
    InsertUnique(KV),
    Replace(KV),
    GetOrInsert(KV),
    GetOrInsertWith(Core, u64),
    Get(Core),
    GetKVMut(Core, u64),
    Contains(Core),
    GetMut(Core, u64),
    Remove(Core),
    RemoveEntry(Core),
    Entry(Core, u64, EOp),
    EntryRef(Core, EOp),
    IterHash(u64, u64),
    Retain(u64, u64),
    /// modulus, residue, how many items to take from the iterator
    ExtractIf(u64, u64, usize),
    Drain(usize),
    Clear,
    Extend(Vec<KV>),
    FromIter(Vec<KV>),
    Reserve(usize),
    ShrinkToFit,
    ShrinkTo(usize),
    CloneSelf,
    CloneFromInto(Vec<KV>, usize),
    IterMut(u64),
    IntoIter(usize),
    EqlClone(bool),
}
impl TOp {
    pub fn name(&self) -> &'static str {
        use TOp::*;
        match self {
            Insert(..) => "op_insert",
            TryInsert(..) => "op_try_insert",
            InsertUnique(..) => "op_insert_unique",
            Replace(..) => "op_replace",
            GetOrInsert(..) | GetOrInsertWith(..) => "op_get_or_insert",
            Get(..) => "op_get",
            GetKVMut(..) => "op_get_key_value_mut",
            Contains(..) => "op_contains",
            GetMut(..) => "op_get_mut",
            Remove(..) | RemoveEntry(..) => "op_remove",
            Entry(..) => "op_entry",
            EntryRef(..) => "op_entry_ref",
            IterHash(..) => "op_iter_hash",
            Retain(..) => "op_retain",
            ExtractIf(..) => "op_extract_if",
            Drain(..) => "op_drain",
            Clear => "op_clear",
            Extend(..) => "op_extend",
            FromIter(..) => "op_from_iter",
            Reserve(..) => "op_reserve",
            ShrinkToFit | ShrinkTo(..) => "op_shrink",
            CloneSelf => "op_clone",
            CloneFromInto(..) => "op_clone_from",
            IterMut(..) => "op_iter_mut",
            IntoIter(..) => "op_into_iter",
            EqlClone(..) => "op_eql",
        }
    }
    /// touches a single key
    pub fn single_key(&self) -> bool {
        use TOp::*;
        matches!(
            self,
            Insert(..) | TryInsert(..) | Replace(..) | GetOrInsert(..) | GetOrInsertWith(..) | Get(..) | GetKVMut(..) | Contains(..) | GetMut(..) | Remove(..) | RemoveEntry(..) | Entry(..) | EntryRef(..)
        )
    }
}

/// Observation of one operation. `unordered` parts are sorted before comparing.
#[derive(Default, Debug, PartialEq, Clone)]
pub struct Obs {
    pub seq: Vec<u64>,
    pub bag: Vec<(u64, u64)>,
}
const NONE: u64 = 0xDEAD_0003;
const SOME: u64 = 0xDEAD_0004;
impl Obs {
    fn v(&mut self, v: Option<u64>) {
        match v {
            None => self.seq.push(NONE),
            Some(x) => self.seq.extend([SOME, x]),
        }
    }
    fn e(&mut self, v: Option<(u64, u64)>) {
        match v {
            None => self.seq.push(NONE),
            Some((a, b)) => self.seq.extend([SOME, a, b]),
        }
    }
    fn b(&mut self, x: bool) {
        self.seq.push(x as u64)
    }
}
pub fn from_core_tag(c: &Core) -> u64 {
    SYM_TAG | c.val as u64
}
impl<'a> From<&'a Core> for K {
    fn from(c: &'a Core) -> K {
        K::new(*c, from_core_tag(c))
    }
}

fn keep(e: &Core, md: u64, r: u64) -> bool {
    e.val as u64 % md != r
}

/// What partial consumers took: the elements taken (as a bag) and how many remain.
pub fn real(t: &mut T, op: &TOp, vm: &mut Vm, g: &mut Gl) -> Result<Obs, Exc> {
    let mut o = Obs::default();
    match t {
        T::M(m) => real_map(m, op, &mut o, vm, g)?,
        T::S(s) => real_set(s, op, &mut o, vm, g)?,
        T::T(t) => real_table(t, op, &mut o, vm, g)?,
    }
    Ok(o)
}

fn real_map(m: &mut HM, op: &TOp, o: &mut Obs, vm: &mut Vm, g: &mut Gl) -> Result<(), Exc> {
    match op {
        TOp::Insert(x) => {
            let r = m.insert(K::new(x.0, x.1), V::new(x.2), vm, g)?;
            o.v(r.map(|v| v.v))
        }
        TOp::TryInsert(x) => match m.try_insert(K::new(x.0, x.1), V::new(x.2), vm, g)? {
            Ok(v) => o.seq.extend([1, v.v]),
            Err(e) => o.seq.extend([0, e.entry.get().v, e.entry.key().tag, e.value.v]),
        },
        TOp::InsertUnique(x) => {
            let (k, v) = unsafe { m.insert_unique_unchecked(K::new(x.0, x.1), V::new(x.2)) };
            o.seq.extend([k.tag, v.v])
        }
        TOp::Get(q) => {
            let r = m.get_key_value(q, vm, g)?.map(|(k, v)| (k.tag, v.v));
            o.e(r);
            let r2 = m.get(q, vm, g)?.map(|v| v.v);
            o.v(r2)
        }
        TOp::GetKVMut(q, nv) => {
            let r = m.get_key_value_mut(q, vm, g)?.map(|(k, v)| {
                let old = v.v;
                v.set(*nv);
                (k.tag, old)
            });
            o.e(r)
        }
        TOp::Contains(q) => o.b(m.contains_key(q, vm, g)?),
        TOp::GetMut(q, nv) => {
            let r = m.get_mut(q, vm, g)?.map(|v| {
                let old = v.v;
                v.set(*nv);
                old
            });
            o.v(r)
        }
        TOp::Remove(q) => {
            let r = m.remove(q, vm, g)?;
            o.v(r.map(|v| v.v))
        }
        TOp::RemoveEntry(q) => {
            let r = m.remove_entry(q, vm, g)?;
            o.e(r.map(|(k, v)| (k.tag, v.v)))
        }
        TOp::Entry(c, tag, e) => {
            let en = m.entry(K::new(*c, *tag), vm, g)?;
            o.seq.push(en.key().tag);
            match (e, en) {
                (EOp::OrInsert(v), en) => {
                    let r = en.or_insert(V::new(*v));
                    o.seq.push(r.v);
                    r.set(r.v + 1)
                }
                (EOp::OrInsertWithKey(v), en) => {
                    let r = en.or_insert_with_key(|k| V::new(*v + k.tag % 2));
                    o.seq.push(r.v)
                }
                (EOp::OrDefault, en) => o.seq.push(en.or_default().v),
                (EOp::AndModify(a, b), en) => o.seq.push(en.and_modify(|v| v.set(*a)).or_insert_with(|| V::new(*b)).v),
                (EOp::Insert(v), en) => {
                    let mut oe = en.insert(V::new(*v));
                    o.seq.extend([oe.key().tag, oe.get().v]);
                    oe.get_mut().set(v + 1)
                }
                (EOp::AndReplace(v, kp), en) => {
                    let r = en.and_replace_entry_with(|_, old| {
                        old.touch();
                        if *kp { Some(V::new(*v)) } else { None }
                    });
                    match r {
                        Entry::Occupied(x) => o.seq.extend([1, x.key().tag, x.get().v]),
                        Entry::Vacant(x) => o.seq.extend([0, x.key().tag]),
                    }
                }
                (EOp::OccReplace(v, kp), Entry::Occupied(x)) => {
                    let r = x.replace_entry_with(|_, old| {
                        old.touch();
                        if *kp { Some(V::new(*v)) } else { None }
                    });
                    match r {
                        Entry::Occupied(x) => o.seq.extend([1, x.key().tag, x.get().v]),
                        Entry::Vacant(x) => {
                            // the slot that was just vacated must be reusable
                            o.seq.extend([0, x.key().tag]);
                            x.insert(V::new(*v + 3));
                        }
                    }
                }
                (EOp::OccInsert(v), Entry::Occupied(mut x)) => {
                    o.seq.push(x.insert(V::new(*v)).v);
                    x.into_mut().touch()
                }
                (EOp::OccRemove, Entry::Occupied(x)) => o.seq.push(x.remove().v),
                (EOp::OccRemoveEntry, Entry::Occupied(x)) => {
                    let (k, v) = x.remove_entry();
                    o.seq.extend([k.tag, v.v])
                }
                (EOp::VacInsert(v), Entry::Vacant(x)) => o.seq.push(x.insert(V::new(*v)).v),
                (EOp::VacInsertEntry(v), Entry::Vacant(x)) => {
                    let oe = x.insert_entry(V::new(*v));
                    o.seq.extend([oe.key().tag, oe.get().v])
                }
                (_, Entry::Occupied(x)) => o.seq.push(x.get().v),
                (_, Entry::Vacant(x)) => o.seq.push(x.into_key().tag),
            }
        }
        TOp::EntryRef(c, e) => {
            let en = m.entry_ref(c, vm, g)?;
            match (e, en) {
                (EOp::OrInsert(v), en) => {
                    let r = en.or_insert(V::new(*v));
                    o.seq.push(r.v);
                    r.set(r.v + 1)
                }
                (EOp::OrInsertWithKey(v), en) => o.seq.push(en.or_insert_with_key(|q| V::new(*v + q.val as u64 % 2)).v),
                (EOp::OrDefault, en) => o.seq.push(en.or_default().v),
                (EOp::AndModify(a, b), en) => o.seq.push(en.and_modify(|v| v.set(*a)).or_insert_with(|| V::new(*b)).v),
                (EOp::Insert(v), en) => {
                    let oe = en.insert(V::new(*v));
                    o.seq.extend([oe.key().tag, oe.get().v])
                }
                (EOp::OccRemove, EntryRef::Occupied(x)) => o.seq.push(x.remove().v),
                (EOp::VacInsert(v), EntryRef::Vacant(x)) => o.seq.push(x.insert(V::new(*v)).v),
                (EOp::VacInsertEntry(v), EntryRef::Vacant(x)) => {
                    let oe = x.insert_entry(V::new(*v));
                    o.seq.extend([oe.key().tag, oe.get().v])
                }
                (_, EntryRef::Occupied(x)) => o.seq.push(x.get().v),
                (_, EntryRef::Vacant(x)) => o.seq.push(x.key().val as u64),
            }
        }
        TOp::Retain(md, r) => m.retain(|k, v| {
            v.touch();
            o.bag.push((k.tag, v.v));
            keep(&k.core, *md, *r)
        }),
        TOp::ExtractIf(md, r, n) => {
            let mut left = *n;
            let mut it = m.extract_if(|k, v| {
                v.touch();
                !keep(&k.core, *md, *r)
            });
            while left > 0 {
                match it.next() {
                    None => break,
                    Some((k, v)) => o.bag.push((k.tag, v.v)),
                }
                left -= 1;
            }
            // what is not consumed stays
        }
        TOp::Drain(n) => {
            let mut d = m.drain();
            o.seq.push(d.len() as u64);
            for _ in 0..*n {
                match d.next() {
                    None => break,
                    Some((k, v)) => o.bag.push((k.tag, v.v)),
                }
            }
            o.seq.push(d.len() as u64);
        }
        TOp::Clear => m.clear(),
        TOp::Extend(xs) => m.extend(xs.iter().map(|x| (K::new(x.0, x.1), V::new(x.2))), vm, g)?,
        TOp::FromIter(xs) => *m = HM::from_iter(xs.iter().map(|x| (K::new(x.0, x.1), V::new(x.2))), vm, g)?,
        TOp::Reserve(n) => m.reserve(*n),
        TOp::ShrinkToFit => m.shrink_to_fit(),
        TOp::ShrinkTo(n) => m.shrink_to(*n),
        TOp::CloneSelf => {
            let c = m.clone();
            *m = c
        }
        TOp::CloneFromInto(xs, cap) => {
            let mut d = HM::with_capacity_and_hasher(*cap, Bh);
            d.extend(xs.iter().map(|x| (K::new(x.0, x.1), V::new(x.2))), vm, g)?;
            d.clone_from(m);
            *m = d
        }
        TOp::IterMut(nv) => {
            for (k, v) in m.iter_mut() {
                o.bag.push((k.tag, v.v));
                v.set(*nv + k.tag)
            }
            for v in m.values_mut() {
                v.set(v.v + 1)
            }
        }
        TOp::IntoIter(n) => {
            let c = std::mem::replace(m, HM::with_hasher(Bh));
            let mut it = c.into_iter();
            o.seq.push(it.len() as u64);
            for _ in 0..*n {
                match it.next() {
                    None => break,
                    Some((k, v)) => o.bag.push((k.tag, v.v)),
                }
            }
        }
        TOp::EqlClone(change) => {
            let mut c = m.clone();
            if *change {
                if let Some(v) = c.values_mut().next() {
                    v.set(v.v + 1)
                }
            }
            o.b(m.eql(&c, vm, g)?)
        }
        _ => {}
    }
    Ok(())
}

fn real_set(s: &mut HS, op: &TOp, o: &mut Obs, vm: &mut Vm, g: &mut Gl) -> Result<(), Exc> {
    use hashbrown::hash_set::Entry;
    match op {
        TOp::Insert(x) => o.b(s.insert(K::new(x.0, x.1), vm, g)?),
        TOp::InsertUnique(x) => o.seq.push(unsafe { s.insert_unique_unchecked(K::new(x.0, x.1)) }.tag),
        TOp::Replace(x) => {
            let r = s.replace(K::new(x.0, x.1), vm, g)?;
            o.v(r.map(|k| k.tag))
        }
        TOp::GetOrInsert(x) => o.seq.push(s.get_or_insert(K::new(x.0, x.1), vm, g)?.tag),
        TOp::GetOrInsertWith(c, t) => o.seq.push(s.get_or_insert_with(c, |q| K::new(*q, *t), vm, g)?.tag),
        TOp::Get(q) => {
            let r = s.get(q, vm, g)?.map(|k| k.tag);
            o.v(r)
        }
        TOp::Contains(q) => o.b(s.contains(q, vm, g)?),
        TOp::Remove(q) => o.b(s.remove(q, vm, g)?),
        TOp::RemoveEntry(q) => {
            let r = s.take(q, vm, g)?;
            o.v(r.map(|k| k.tag))
        }
        TOp::Entry(c, tag, e) => {
            let en = s.entry(K::new(*c, *tag), vm, g)?;
            o.seq.push(en.get().tag);
            match (e, en) {
                (EOp::OrInsert(_), en) => en.or_insert(),
                (EOp::Insert(_), en) => {
                    let x = en.insert();
                    o.seq.push(x.get().tag)
                }
                (EOp::OccRemove | EOp::OccRemoveEntry, Entry::Occupied(x)) => o.seq.push(x.remove().tag),
                (EOp::VacInsert(_), Entry::Vacant(x)) => {
                    x.insert();
                }
                (_, Entry::Occupied(x)) => o.seq.push(x.get().tag),
                (_, Entry::Vacant(x)) => o.seq.push(x.into_value().tag),
            }
        }
        TOp::Retain(md, r) => s.retain(|k| {
            k.touch();
            o.bag.push((k.tag, 0));
            keep(&k.core, *md, *r)
        }),
        TOp::ExtractIf(md, r, n) => {
            let mut it = s.extract_if(|k| {
                k.touch();
                !keep(&k.core, *md, *r)
            });
            for _ in 0..*n {
                match it.next() {
                    None => break,
                    Some(k) => o.bag.push((k.tag, 0)),
                }
            }
        }
        TOp::Drain(n) => {
            let mut d = s.drain();
            o.seq.push(d.len() as u64);
            for _ in 0..*n {
                match d.next() {
                    None => break,
                    Some(k) => o.bag.push((k.tag, 0)),
                }
            }
            o.seq.push(d.len() as u64);
        }
        TOp::Clear => s.clear(),
        TOp::Extend(xs) => s.extend(xs.iter().map(|x| K::new(x.0, x.1)), vm, g)?,
        TOp::FromIter(xs) => *s = HS::from_iter(xs.iter().map(|x| K::new(x.0, x.1)), vm, g)?,
        TOp::Reserve(n) => s.reserve(*n),
        TOp::ShrinkToFit => s.shrink_to_fit(),
        TOp::ShrinkTo(n) => s.shrink_to(*n),
        TOp::CloneSelf => {
            let c = s.clone();
            *s = c
        }
        TOp::CloneFromInto(xs, cap) => {
            let mut d = HS::with_capacity_and_hasher(*cap, Bh);
            d.extend(xs.iter().map(|x| K::new(x.0, x.1)), vm, g)?;
            d.clone_from(s);
            *s = d
        }
        TOp::IntoIter(n) => {
            let c = std::mem::replace(s, HS::with_hasher(Bh));
            let mut it = c.into_iter();
            o.seq.push(it.len() as u64);
            for _ in 0..*n {
                match it.next() {
                    None => break,
                    Some(k) => o.bag.push((k.tag, 0)),
                }
            }
        }
        TOp::EqlClone(change) => {
            let mut c = s.clone();
            if *change {
                let x = c.iter().next().map(|k| k.core);
                if let Some(x) = x {
                    c.remove(&x, vm, g)?;
                }
            }
            o.b(s.eql(&c, vm, g)?);
            o.b(c.is_subset(s, vm, g)?);
            o.b(c.is_superset(s, vm, g)?);
        }
        _ => {}
    }
    Ok(())
}

fn teq<'a>(c: &'a Core) -> impl Fn(&(K, V), &mut Vm, &mut Gl) -> Result<bool, Exc> + 'a {
    move |x, vm, g| RubyEql::eql(c, &x.0.core, vm, g)
}

fn real_table(t: &mut HT, op: &TOp, o: &mut Obs, vm: &mut Vm, g: &mut Gl) -> Result<(), Exc> {
    match op {
        TOp::Insert(x) | TOp::Replace(x) => {
            match t.entry(x.0.h, teq(&x.0), th, vm, g)? {
                hash_table::Entry::Occupied(mut e) => {
                    let old = e.get().1.v;
                    e.get_mut().1.set(x.2);
                    o.v(Some(old))
                }
                hash_table::Entry::Vacant(e) => {
                    let e = e.insert((K::new(x.0, x.1), V::new(x.2)));
                    e.get().0.touch();
                    o.v(None)
                }
            };
        }
        TOp::InsertUnique(x) => {
            let e = t.insert_unique(x.0.h, (K::new(x.0, x.1), V::new(x.2)), th);
            o.seq.push(e.get().0.tag)
        }
        TOp::Get(q) => {
            let r = t.find(q.h, teq(q), vm, g)?.map(|(k, v)| (k.tag, v.v));
            o.e(r)
        }
        TOp::Contains(q) => o.b(t.find(q.h, teq(q), vm, g)?.is_some()),
        TOp::GetMut(q, nv) | TOp::GetKVMut(q, nv) => {
            let r = t.find_mut(q.h, teq(q), vm, g)?.map(|(_, v)| {
                let old = v.v;
                v.set(*nv);
                old
            });
            o.v(r)
        }
        TOp::Remove(q) | TOp::RemoveEntry(q) => match t.find_entry(q.h, teq(q), vm, g)? {
            Ok(e) => {
                let ((k, v), _) = e.remove();
                o.e(Some((k.tag, v.v)))
            }
            Err(_) => o.e(None),
        },
        TOp::Entry(c, tag, e) => {
            let en = t.entry(c.h, teq(c), th, vm, g)?;
            match (e, en) {
                (EOp::OrInsert(v), en) => {
                    let mut x = en.or_insert((K::new(*c, *tag), V::new(*v)));
                    o.seq.extend([x.get().0.tag, x.get().1.v]);
                    let nv = x.get().1.v + 1;
                    x.get_mut().1.set(nv)
                }
                (EOp::OrInsertWithKey(v), en) => {
                    let x = en.or_insert_with(|| (K::new(*c, *tag), V::new(*v)));
                    o.seq.extend([x.get().0.tag, x.into_mut().1.v])
                }
                (EOp::AndModify(a, b), en) => {
                    let x = en.and_modify(|x| x.1.set(*a)).or_insert((K::new(*c, *tag), V::new(*b)));
                    o.seq.push(x.get().1.v)
                }
                (EOp::Insert(v), en) => {
                    let x = en.insert((K::new(*c, *tag), V::new(*v)));
                    o.seq.extend([x.get().0.tag, x.get().1.v])
                }
                (EOp::Reinsert(v), hash_table::Entry::Occupied(x)) => {
                    let ((k, ov), vac) = x.remove();
                    o.seq.extend([k.tag, ov.v]);
                    vac.insert((K::new(*c, *tag), V::new(*v)));
                }
                (EOp::OccRemove | EOp::OccRemoveEntry, hash_table::Entry::Occupied(x)) => {
                    let ((k, v), vac) = x.remove();
                    o.seq.extend([k.tag, v.v, vac.into_table().len() as u64])
                }
                (EOp::VacInsert(v), hash_table::Entry::Vacant(x)) => {
                    let oe = x.insert((K::new(*c, *tag), V::new(*v)));
                    o.seq.push(oe.into_table().len() as u64)
                }
                (_, hash_table::Entry::Occupied(x)) => o.seq.push(x.get().1.v),
                (_, hash_table::Entry::Vacant(_)) => o.seq.push(NONE),
            }
        }
        TOp::IterHash(h, nv) => {
            // everything with this hash must be offered, exactly once, and nothing foreign
            let mut seen: Vec<u64> = vec![];
            for (k, v) in t.iter_hash(*h) {
                k.touch();
                v.touch();
                if k.core.h == *h {
                    o.bag.push((k.tag, v.v));
                }
                seen.push(k.tr.id());
            }
            let n = seen.len();
            seen.sort();
            seen.dedup();
            o.b(seen.len() == n && n <= t.len());
            for x in t.iter_hash_mut(*h) {
                if x.0.core.h == *h {
                    x.1.set(*nv)
                }
            }
        }
        TOp::Retain(md, r) => t.retain(|(k, v)| {
            v.touch();
            o.bag.push((k.tag, v.v));
            keep(&k.core, *md, *r)
        }),
        TOp::ExtractIf(md, r, n) => {
            let mut it = t.extract_if(|(k, _)| {
                k.touch();
                !keep(&k.core, *md, *r)
            });
            for _ in 0..*n {
                match it.next() {
                    None => break,
                    Some((k, v)) => o.bag.push((k.tag, v.v)),
                }
            }
        }
        TOp::Drain(n) => {
            let mut d = t.drain();
            o.seq.push(d.len() as u64);
            for _ in 0..*n {
                match d.next() {
                    None => break,
                    Some((k, v)) => o.bag.push((k.tag, v.v)),
                }
            }
            o.seq.push(d.len() as u64);
        }
        TOp::Clear => t.clear(),
        TOp::Reserve(n) => t.reserve(*n, th),
        TOp::ShrinkToFit => t.shrink_to_fit(th),
        TOp::ShrinkTo(n) => t.shrink_to(*n, th),
        TOp::CloneSelf => {
            let c = t.clone();
            *t = c
        }
        TOp::CloneFromInto(_, cap) => {
            let mut d = HT::with_capacity(*cap);
            d.clone_from(t);
            *t = d
        }
        TOp::IterMut(nv) => {
            for (k, v) in t.iter_mut() {
                o.bag.push((k.tag, v.v));
                v.set(*nv + k.tag)
            }
        }
        TOp::IntoIter(n) => {
            let c = std::mem::replace(t, HT::new());
            let mut it = c.into_iter();
            o.seq.push(it.len() as u64);
            for _ in 0..*n {
                match it.next() {
                    None => break,
                    Some((k, v)) => o.bag.push((k.tag, v.v)),
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn find(m: &Model, c: &Core) -> Option<usize> {
    m.iter().position(|e| e.core == *c)
}

/// Reference semantics. Operations that consume an unspecified subset (`take n of a bag`)
/// take the real observation to know which elements were chosen, after checking
/// that the choice was a legal one.
pub fn model(kind: u64, m: &mut Model, op: &TOp, real: &Obs) -> Result<Obs, String> {
    let mut o = Obs::default();
    let z = |v: u64| if kind == 1 { 0 } else { v };
    let ins = |m: &mut Model, x: &KV| -> Option<u64> {
        match find(m, &x.0) {
            Some(i) => {
                let old = m[i].v;
                m[i].v = z(x.2);
                Some(old)
            }
            None => {
                m.push(Ent { core: x.0, tag: x.1, v: z(x.2) });
                None
            }
        }
    };
    match (op, kind) {
        (TOp::Insert(x), 1) => o.b(ins(m, x).is_none()),
        (TOp::Insert(x), _) => o.v(ins(m, x)),
        (TOp::Replace(x), 2) => o.v(ins(m, x)),
        (TOp::Replace(x), 1) => match find(m, &x.0) {
            Some(i) => o.v(Some(std::mem::replace(&mut m[i].tag, x.1))),
            None => {
                ins(m, x);
                o.v(None)
            }
        },
        (TOp::TryInsert(x), 0) => match find(m, &x.0) {
            Some(i) => o.seq.extend([0, m[i].v, m[i].tag, x.2]),
            None => {
                ins(m, x);
                o.seq.extend([1, x.2])
            }
        },
        (TOp::InsertUnique(x), k) => {
            ins(m, x);
            if k == 0 {
                o.seq.extend([x.1, x.2])
            } else {
                o.seq.push(x.1)
            }
        }
        (TOp::GetOrInsert(x), 1) => match find(m, &x.0) {
            Some(i) => o.seq.push(m[i].tag),
            None => {
                ins(m, x);
                o.seq.push(x.1)
            }
        },
        (TOp::GetOrInsertWith(c, t), 1) => match find(m, c) {
            Some(i) => o.seq.push(m[i].tag),
            None => {
                m.push(Ent { core: *c, tag: *t, v: 0 });
                o.seq.push(*t)
            }
        },
        (TOp::Get(q), 0) => {
            let r = find(m, q);
            o.e(r.map(|i| (m[i].tag, m[i].v)));
            o.v(r.map(|i| m[i].v))
        }
        (TOp::Get(q), 1) => o.v(find(m, q).map(|i| m[i].tag)),
        (TOp::Get(q), _) => o.e(find(m, q).map(|i| (m[i].tag, m[i].v))),
        (TOp::GetKVMut(q, nv), 0) => o.e(find(m, q).map(|i| (m[i].tag, std::mem::replace(&mut m[i].v, *nv)))),
        (TOp::Contains(q), _) => o.b(find(m, q).is_some()),
        (TOp::GetMut(q, nv), 0 | 2) | (TOp::GetKVMut(q, nv), 2) => o.v(find(m, q).map(|i| std::mem::replace(&mut m[i].v, *nv))),
        (TOp::Remove(q), 0) => o.v(find(m, q).map(|i| m.swap_remove(i).v)),
        (TOp::Remove(q), 1) => o.b(find(m, q).map(|i| m.swap_remove(i)).is_some()),
        (TOp::RemoveEntry(q), 1) => o.v(find(m, q).map(|i| m.swap_remove(i).tag)),
        (TOp::RemoveEntry(q), _) | (TOp::Remove(q), _) => o.e(find(m, q).map(|i| {
            let e = m.swap_remove(i);
            (e.tag, e.v)
        })),
        (TOp::Entry(c, tag, e), k) => entry_model(k, m, *c, *tag, e, false, &mut o),
        (TOp::EntryRef(c, e), 0) => entry_model(0, m, *c, from_core_tag(c), e, true, &mut o),
        (TOp::IterHash(h, nv), 2) => {
            for e in m.iter_mut() {
                if e.core.h == *h {
                    o.bag.push((e.tag, e.v));
                    e.v = *nv
                }
            }
            o.b(true)
        }
        (TOp::Retain(md, r), _) => m.retain(|e| {
            o.bag.push((e.tag, e.v));
            keep(&e.core, *md, *r)
        }),
        (TOp::ExtractIf(md, r, n), _) => {
            let elig: Vec<(u64, u64)> = m.iter().filter(|e| !keep(&e.core, *md, *r)).map(|e| (e.tag, e.v)).collect();
            let want = elig.len().min(*n);
            take_some(m, &elig, want, real, &mut o)?;
        }
        (TOp::Drain(n), _) => {
            let all: Vec<(u64, u64)> = m.iter().map(|e| (e.tag, e.v)).collect();
            o.seq.push(all.len() as u64);
            let want = all.len().min(*n);
            take_some(m, &all, want, real, &mut o)?;
            o.seq.push((all.len() - want) as u64);
            m.clear();
        }
        (TOp::IntoIter(n), _) => {
            let all: Vec<(u64, u64)> = m.iter().map(|e| (e.tag, e.v)).collect();
            o.seq.push(all.len() as u64);
            let want = all.len().min(*n);
            take_some(m, &all, want, real, &mut o)?;
            m.clear();
        }
        (TOp::Clear, _) => m.clear(),
        (TOp::Extend(xs), 0 | 1) => xs.iter().for_each(|x| {
            ins(m, x);
        }),
        (TOp::FromIter(xs), 0 | 1) => {
            m.clear();
            xs.iter().for_each(|x| {
                ins(m, x);
            })
        }
        (TOp::IterMut(nv), 0) => {
            for e in m.iter_mut() {
                o.bag.push((e.tag, e.v));
                e.v = nv + e.tag + 1
            }
        }
        (TOp::IterMut(nv), 2) => {
            for e in m.iter_mut() {
                o.bag.push((e.tag, e.v));
                e.v = nv + e.tag
            }
        }
        (TOp::EqlClone(change), 0) => o.b(!change || m.is_empty()),
        (TOp::EqlClone(change), 1) => {
            let same = !change || m.is_empty();
            o.b(same);
            o.b(true);
            o.b(same)
        }
        _ => {}
    }
    Ok(o)
}

fn take_some(m: &mut Model, elig: &[(u64, u64)], want: usize, real: &Obs, o: &mut Obs) -> Result<(), String> {
    if real.bag.len() != want {
        return Err(format!("yielded {} elements, expected {want}", real.bag.len()));
    }
    let mut seen = std::collections::HashSet::new();
    for b in &real.bag {
        if !elig.contains(b) || !seen.insert(b.0) {
            return Err(format!("yielded element {b:?} twice or though it is not eligible"));
        }
    }
    o.bag = real.bag.clone();
    m.retain(|e| !seen.contains(&e.tag));
    Ok(())
}

fn entry_model(kind: u64, m: &mut Model, c: Core, tag: u64, e: &EOp, by_ref: bool, o: &mut Obs) {
    let p = find(m, &c);
    let zz = |v: u64| if kind == 1 { 0 } else { v };
    let add = |m: &mut Model, v: u64| -> usize {
        m.push(Ent { core: c, tag, v: zz(v) });
        m.len() - 1
    };
    if kind == 1 {
        o.seq.push(p.map(|i| m[i].tag).unwrap_or(tag));
        match (e, p) {
            (EOp::OrInsert(_) | EOp::VacInsert(_), None) => {
                add(m, 0);
            }
            (EOp::OrInsert(_), Some(_)) => {}
            (EOp::Insert(_), _) => {
                let i = p.unwrap_or_else(|| add(m, 0));
                o.seq.push(m[i].tag)
            }
            (EOp::OccRemove | EOp::OccRemoveEntry, Some(i)) => o.seq.push(m.swap_remove(i).tag),
            (_, Some(i)) => o.seq.push(m[i].tag),
            (_, None) => o.seq.push(tag),
        }
        return;
    }
    if kind == 2 {
        match (e, p) {
            (EOp::OrInsert(v), _) => {
                let i = p.unwrap_or_else(|| add(m, *v));
                o.seq.extend([m[i].tag, m[i].v]);
                m[i].v += 1
            }
            (EOp::OrInsertWithKey(v), _) => {
                let i = p.unwrap_or_else(|| add(m, *v));
                o.seq.extend([m[i].tag, m[i].v])
            }
            (EOp::AndModify(a, b), _) => {
                let i = match p {
                    Some(i) => {
                        m[i].v = *a;
                        i
                    }
                    None => add(m, *b),
                };
                o.seq.push(m[i].v)
            }
            (EOp::Insert(v), _) => {
                let i = match p {
                    Some(i) => {
                        m[i] = Ent { core: c, tag, v: *v };
                        i
                    }
                    None => add(m, *v),
                };
                o.seq.extend([m[i].tag, m[i].v])
            }
            (EOp::Reinsert(v), Some(i)) => {
                o.seq.extend([m[i].tag, m[i].v]);
                m[i] = Ent { core: c, tag, v: *v }
            }
            (EOp::OccRemove | EOp::OccRemoveEntry, Some(i)) => {
                let x = m.swap_remove(i);
                o.seq.extend([x.tag, x.v, m.len() as u64])
            }
            (EOp::VacInsert(v), None) => {
                add(m, *v);
                o.seq.push(m.len() as u64)
            }
            (_, Some(i)) => o.seq.push(m[i].v),
            (_, None) => o.seq.push(NONE),
        }
        return;
    }
    if !by_ref {
        o.seq.push(p.map(|i| m[i].tag).unwrap_or(tag));
    }
    match (e, p) {
        (EOp::OrInsert(v), _) => {
            let i = p.unwrap_or_else(|| add(m, *v));
            o.seq.push(m[i].v);
            m[i].v += 1
        }
        (EOp::OrInsertWithKey(v), _) => {
            let bit = if by_ref { c.val as u64 % 2 } else { tag % 2 };
            let i = p.unwrap_or_else(|| add(m, *v + bit));
            o.seq.push(m[i].v)
        }
        (EOp::OrDefault, _) => {
            let i = p.unwrap_or_else(|| add(m, 0xdef));
            o.seq.push(m[i].v)
        }
        (EOp::AndModify(a, b), _) => {
            let i = match p {
                Some(i) => {
                    m[i].v = *a;
                    i
                }
                None => add(m, *b),
            };
            o.seq.push(m[i].v)
        }
        (EOp::Insert(v), _) => {
            let i = p.unwrap_or_else(|| add(m, *v));
            m[i].v = *v;
            o.seq.extend([m[i].tag, *v]);
            if !by_ref {
                m[i].v += 1
            }
        }
        (EOp::AndReplace(v, kp), _) if !by_ref => match p {
            None => o.seq.extend([0, tag]),
            Some(i) => {
                if *kp {
                    m[i].v = *v;
                    o.seq.extend([1, m[i].tag, *v])
                } else {
                    o.seq.extend([0, m[i].tag]);
                    m.swap_remove(i);
                }
            }
        },
        (EOp::OccReplace(v, kp), Some(i)) if !by_ref => {
            if *kp {
                m[i].v = *v;
                o.seq.extend([1, m[i].tag, *v])
            } else {
                o.seq.extend([0, m[i].tag]);
                m[i].v = *v + 3
            }
        }
        (EOp::OccInsert(v), Some(i)) if !by_ref => o.seq.push(std::mem::replace(&mut m[i].v, *v)),
        (EOp::OccRemove, Some(i)) => o.seq.push(m.swap_remove(i).v),
        (EOp::OccRemoveEntry, Some(i)) if !by_ref => {
            let x = m.swap_remove(i);
            o.seq.extend([x.tag, x.v])
        }
        (EOp::VacInsert(v), None) => {
            add(m, *v);
            o.seq.push(*v)
        }
        (EOp::VacInsertEntry(v), None) => {
            add(m, *v);
            o.seq.extend([tag, *v])
        }
        (_, Some(i)) => o.seq.push(m[i].v),
        (_, None) => o.seq.push(if by_ref { c.val as u64 } else { tag }),
    }
}

pub struct TProfile {
    pub grow: u32,
    pub target_len: usize,
    pub bulk: u32,
    pub cap: u32,
}

pub fn gen_eop(gen: &mut Gen, r: &mut Rng) -> EOp {
    let v = gen.fresh();
    let v2 = gen.fresh();
    match r.below(14) {
        0 => EOp::OrInsert(v),
        1 => EOp::OrInsertWithKey(v),
        2 => EOp::OrDefault,
        3 => EOp::AndModify(v, v2),
        4 => EOp::Insert(v),
        5 => EOp::AndReplace(v, r.chance(1, 2)),
        6 => EOp::OccReplace(v, r.chance(1, 2)),
        7 => EOp::OccInsert(v),
        8 => EOp::OccRemove,
        9 => EOp::OccRemoveEntry,
        10 => EOp::VacInsert(v),
        11 => EOp::VacInsertEntry(v),
        12 => EOp::Reinsert(v),
        _ => EOp::Peek,
    }
}

pub fn gen_op(gen: &mut Gen, r: &mut Rng, kind: u64, m: &Model, p: &TProfile) -> TOp {
    let c = gen.key(r, m);
    let v = gen.fresh();
    let over = m.len() > p.target_len;
    let ins = if over { 2 } else { 5 * p.grow };
    let rem = if over { 10 } else { 6 };
    loop {
        let op = match r.weighted(&[ins, 2, 2, 2, 2, 3, 2, 2, 2, rem, rem, 5, 3, 2, p.bulk, p.cap]) {
            0 => TOp::Insert(gen.kv(r, m)),
            1 => TOp::TryInsert(gen.kv(r, m)),
            2 => {
                let x = gen.kv(r, m);
                if find(m, &x.0).is_some() {
                    continue;
                }
                TOp::InsertUnique(x)
            }
            3 => TOp::Replace(gen.kv(r, m)),
            4 => {
                if r.chance(1, 2) {
                    TOp::GetOrInsert(gen.kv(r, m))
                } else {
                    TOp::GetOrInsertWith(c, v)
                }
            }
            5 => TOp::Get(c),
            6 => TOp::GetKVMut(c, v),
            7 => TOp::Contains(c),
            8 => TOp::GetMut(c, v),
            9 => TOp::Remove(c),
            10 => TOp::RemoveEntry(c),
            11 => TOp::Entry(c, v, gen_eop(gen, r)),
            12 => TOp::EntryRef(c, gen_eop(gen, r)),
            13 => TOp::IterHash(c.h, v),
            14 => {
                let md = r.range(1, 5);
                let res = r.below(md + 1);
                let len = m.len();
                let n = match r.below(3) {
                    0 => 0,
                    1 => r.us(len + 2),
                    _ => usize::MAX,
                };
                let cnt = r.us(30);
                match r.below(11) {
                    0 | 1 => TOp::Retain(md, res),
                    2 | 3 => TOp::ExtractIf(md, res, n),
                    4 => TOp::Drain(n),
                    5 if r.chance(1, 3) => TOp::Clear,
                    6 => TOp::Extend(gen.kvs(r, cnt)),
                    7 => TOp::FromIter(gen.kvs(r, cnt)),
                    8 => TOp::IterMut(v),
                    9 if r.chance(1, 3) => TOp::IntoIter(n),
                    _ => TOp::EqlClone(r.chance(1, 2)),
                }
            }
            _ => match r.below(7) {
                0 => TOp::Reserve(r.us(10)),
                1 => TOp::Reserve(r.us(140)),
                2 => TOp::ShrinkToFit,
                3 => TOp::ShrinkTo(r.us(60)),
                4 => TOp::CloneSelf,
                5 => {
                    let n = r.us(30);
                    TOp::CloneFromInto(gen.kvs(r, n), r.us(60))
                }
                _ => TOp::Reserve(0),
            },
        };
        let ok = match (&op, kind) {
            (TOp::TryInsert(..) | TOp::EntryRef(..), 1 | 2) => false,
            (TOp::GetOrInsert(..) | TOp::GetOrInsertWith(..), 0 | 2) => false,
            (TOp::Replace(..), 0) => false,
            (TOp::GetKVMut(..) | TOp::GetMut(..) | TOp::IterMut(..), 1) => false,
            (TOp::IterHash(..), 0 | 1) => false,
            (TOp::Extend(..) | TOp::FromIter(..) | TOp::EqlClone(..), 2) => false,
            _ => true,
        };
        if ok {
            return op;
        }
    }
}

pub fn sorted(mut v: Vec<Ent>) -> Vec<Ent> {
    v.sort_by_key(|e| (e.core, e.tag, e.v));
    v
}

pub fn check_contents(t: &T, m: &Model) -> vh::Verdict {
    vh::veq!(t.len(), m.len(), "length");
    let a = sorted(t.dump());
    let b = sorted(m.clone());
    if a != b {
        let miss: Vec<_> = b.iter().filter(|x| !a.contains(x)).take(3).collect();
        let extra: Vec<_> = a.iter().filter(|x| !b.contains(x)).take(3).collect();
        vh::vbail!("contents differ: missing {miss:?}, unexpected {extra:?}, {} vs {} elements", a.len(), b.len());
    }
    Ok(())
}

pub fn lookup(t: &T, c: &Core, vm: &mut Vm, g: &mut Gl) -> Result<Option<u64>, Exc> {
    Ok(match t {
        T::M(m) => m.get_key_value(c, vm, g)?.map(|(k, _)| k.tag),
        T::S(s) => s.get(c, vm, g)?.map(|k| k.tag),
        T::T(t) => t.find(c.h, teq(c), vm, g)?.map(|(k, _)| k.tag),
    })
}

pub fn check_lookups(t: &T, m: &Model, uni: &Universe, vm: &mut Vm, g: &mut Gl) -> vh::Verdict {
    for c in &uni.cores {
        let want = find(m, c).map(|i| m[i].tag);
        match lookup(t, c, vm, g) {
            Ok(x) => vh::veq!(x, want, "lookup of {c:?}"),
            Err(e) => vh::vbail!("lookup raised {e:?}"),
        }
    }
    Ok(())
}

pub fn step(case: &mut vh::Case, kind: u64, t: &mut T, m: &mut Model, op: &TOp, vm: &mut Vm, g: &mut Gl) -> vh::Verdict {
    case.op(|| format!("{op:?}"));
    case.count(op.name());
    let mut got = match vh::catch(|| real(t, op, vm, g)) {
        Err((l, msg)) => vh::vbail!("{op:?}: panicked at {l}: {msg}"),
        Ok(Err(e)) => vh::vbail!("{op:?}: returned error {e:?} though no callback raised"),
        Ok(Ok(o)) => o,
    };
    let mut want = match model(kind, m, op, &got) {
        Ok(o) => o,
        Err(e) => vh::vbail!("{op:?}: {e}"),
    };
    got.bag.sort();
    want.bag.sort();
    if got != want {
        vh::vbail!("{op:?}: observed {got:x?}, expected {want:x?}");
    }
    let _ = PANIC;
    Ok(())
}
