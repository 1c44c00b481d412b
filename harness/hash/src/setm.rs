//! Machine for the ordered set.
use crate::key::*;
use crate::mapm::{pos, Ent, Gen, Model, Out, Rg, KV, PANIC};
use rubymap::RubySet;
use ruby_traits::RubyEql;
use vh::Rng;

pub type S = RubySet<K, Vm, Gl, Exc, Bh>;

const NONE: u64 = 0xDEAD_0003;
const SOME: u64 = 0xDEAD_0004;

#[derive(Clone, Debug, PartialEq)]
pub enum SOp {
    Insert(KV),
    InsertFull(KV),
    InsertSorted(KV),
    InsertBefore(usize, KV),
    ShiftInsert(usize, KV),
    Replace(KV),
    ReplaceFull(KV),
    Contains(Core),
    Get(Core),
    GetFull(Core),
    GetIndexOf(Core),
    SwapRemove(Core),
    ShiftRemove(Core),
    SwapTake(Core),
    ShiftTake(Core),
    SwapRemoveFull(Core),
    ShiftRemoveFull(Core),
    Pop,
    Retain(u64, u64),
    Sort,
    SortUnstable,
    SortBy(u64),
    SortUnstableBy,
    SortCached(u64),
    SortedBy(u64),
    BinSearch(Core),
    PartPoint(u32),
    Reverse,
    GetIndex(usize),
    GetRange(Rg),
    IndexUsize(usize),
    FirstLast,
    SwapRemoveIndex(usize),
    ShiftRemoveIndex(usize),
    MoveIndex(usize, usize),
    Clear,
    Truncate(usize),
    Drain(Rg, usize, usize),
    SplitOff(usize, bool),
    Append(Vec<KV>, usize),
    Extend(Vec<KV>),
    FromIter(Vec<KV>),
    Reserve(usize),
    ReserveExact(usize),
    ShrinkToFit,
    ShrinkTo(usize),
    IntoIterRebuild(bool),
    /// relations with another set built from these elements
    Relate(Vec<KV>, usize),
}
impl SOp {
    pub fn name(&self) -> &'static str {
        use SOp::*;
        match self {
            Insert(..) => "op_insert",
            InsertFull(..) => "op_insert_full",
            InsertSorted(..) => "op_insert_sorted",
            InsertBefore(..) => "op_insert_before",
            ShiftInsert(..) => "op_shift_insert",
            Replace(..) | ReplaceFull(..) => "op_replace",
            Contains(..) => "op_contains",
            Get(..) => "op_get",
            GetFull(..) => "op_get_full",
            GetIndexOf(..) => "op_get_index_of",
            SwapRemove(..) | SwapTake(..) | SwapRemoveFull(..) => "op_swap_remove",
            ShiftRemove(..) | ShiftTake(..) | ShiftRemoveFull(..) => "op_shift_remove",
            Pop => "op_pop",
            Retain(..) => "op_retain",
            Sort | SortUnstable | SortBy(..) | SortUnstableBy | SortCached(..) | SortedBy(..) => "op_sort",
            BinSearch(..) | PartPoint(..) => "op_binary_search",
            Reverse => "op_reverse",
            GetIndex(..) | IndexUsize(..) => "op_index",
            GetRange(..) => "op_get_range",
            FirstLast => "op_first_last",
            SwapRemoveIndex(..) | ShiftRemoveIndex(..) => "op_remove_index",
            MoveIndex(..) => "op_move_index",
            Clear => "op_clear",
            Truncate(..) => "op_truncate",
            Drain(..) => "op_drain",
            SplitOff(..) => "op_split_off",
            Append(..) => "op_append",
            Extend(..) => "op_extend",
            FromIter(..) => "op_from_iter",
            Reserve(..) | ReserveExact(..) => "op_reserve",
            ShrinkToFit | ShrinkTo(..) => "op_shrink",
            IntoIterRebuild(..) => "op_into_iter",
            Relate(..) => "op_relate",
        }
    }
    pub fn single_key(&self) -> bool {
        use SOp::*;
        matches!(
            self,
            Insert(..) | InsertFull(..) | InsertSorted(..) | InsertBefore(..) | ShiftInsert(..) | Replace(..) | ReplaceFull(..) | Contains(..) | Get(..) | GetFull(..) | GetIndexOf(..) | SwapRemove(..) | ShiftRemove(..) | SwapTake(..) | ShiftTake(..) | SwapRemoveFull(..) | ShiftRemoveFull(..)
        )
    }
}

fn k(x: &KV) -> K {
    K::new(x.0, x.1)
}
fn pv(o: &mut Out, v: Option<u64>) {
    match v {
        None => o.push(NONE),
        Some(x) => o.extend([SOME, x]),
    }
}
fn pe(o: &mut Out, v: Option<(usize, u64)>) {
    match v {
        None => o.push(NONE),
        Some((i, x)) => o.extend([SOME, i as u64, x]),
    }
}
fn tg(k: &K) -> u64 {
    k.touch();
    k.tag
}

pub fn real(s: &mut S, op: &SOp, vm: &mut Vm, g: &mut Gl) -> Result<Out, Exc> {
    let mut o: Out = vec![];
    macro_rules! guarded {
        ($e:expr) => {
            match vh::catch(|| $e) {
                Err(_) => {
                    o.push(PANIC);
                    return Ok(o);
                }
                Ok(x) => x,
            }
        };
    }
    match op {
        SOp::Insert(x) => o.push(s.insert(k(x), vm, g)? as u64),
        SOp::InsertFull(x) => {
            let (i, n) = s.insert_full(k(x), vm, g)?;
            o.extend([i as u64, n as u64])
        }
        SOp::InsertSorted(x) => {
            let (i, n) = s.insert_sorted(k(x), vm, g)?;
            o.extend([i as u64, n as u64])
        }
        SOp::InsertBefore(i, x) => {
            let (i, n) = guarded!(s.insert_before(*i, k(x), vm, g))?;
            o.extend([i as u64, n as u64])
        }
        SOp::ShiftInsert(i, x) => {
            let n = guarded!(s.shift_insert(*i, k(x), vm, g))?;
            o.push(n as u64)
        }
        SOp::Replace(x) => {
            let r = s.replace(k(x), vm, g)?;
            pv(&mut o, r.map(|k| tg(&k)))
        }
        SOp::ReplaceFull(x) => {
            let (i, r) = s.replace_full(k(x), vm, g)?;
            o.push(i as u64);
            pv(&mut o, r.map(|k| tg(&k)))
        }
        SOp::Contains(q) => o.push(s.contains(q, vm, g)? as u64),
        SOp::Get(q) => pv(&mut o, s.get(q, vm, g)?.map(tg)),
        SOp::GetFull(q) => pe(&mut o, s.get_full(q, vm, g)?.map(|(i, k)| (i, tg(k)))),
        SOp::GetIndexOf(q) => pv(&mut o, s.get_index_of(q, vm, g)?.map(|i| i as u64)),
        SOp::SwapRemove(q) => o.push(s.swap_remove(q, vm, g)? as u64),
        SOp::ShiftRemove(q) => o.push(s.shift_remove(q, vm, g)? as u64),
        SOp::SwapTake(q) => pv(&mut o, s.swap_take(q, vm, g)?.map(|k| tg(&k))),
        SOp::ShiftTake(q) => pv(&mut o, s.shift_take(q, vm, g)?.map(|k| tg(&k))),
        SOp::SwapRemoveFull(q) => pe(&mut o, s.swap_remove_full(q, vm, g)?.map(|(i, k)| (i, tg(&k)))),
        SOp::ShiftRemoveFull(q) => pe(&mut o, s.shift_remove_full(q, vm, g)?.map(|(i, k)| (i, tg(&k)))),
        SOp::Pop => pv(&mut o, s.pop(vm, g)?.map(|k| tg(&k))),
        SOp::Retain(md, r) => s.retain(|k| {
            o.push(tg(k));
            k.core.val as u64 % md != *r
        }),
        SOp::Sort => s.sort(),
        SOp::SortUnstable => s.sort_unstable(),
        SOp::SortBy(md) => s.sort_by(|a, b| {
            a.touch();
            (a.tag % md).cmp(&(b.tag % md))
        }),
        SOp::SortUnstableBy => s.sort_unstable_by(|a, b| {
            a.touch();
            b.core.cmp(&a.core)
        }),
        SOp::SortCached(md) => s.sort_by_cached_key(|a| {
            a.touch();
            a.tag % md
        }),
        SOp::SortedBy(md) => {
            let c = std::mem::replace(s, S::with_hasher(Bh));
            let it = c.sorted_by(|a, b| (a.tag % md).cmp(&(b.tag % md)));
            s.extend(it, vm, g)?;
        }
        SOp::BinSearch(c) => {
            for r in [s.binary_search(&K::new(*c, 1)), s.binary_search_by(|k| k.core.cmp(c)), s.binary_search_by_key(c, |k| k.core)] {
                match r {
                    Ok(i) => o.extend([SOME, i as u64]),
                    Err(i) => o.extend([NONE, i as u64]),
                }
            }
        }
        SOp::PartPoint(x) => o.push(s.partition_point(|k| k.core.val < *x) as u64),
        SOp::Reverse => s.reverse(),
        SOp::GetIndex(i) => pv(&mut o, s.get_index(*i).map(tg)),
        SOp::GetRange(r) => match s.get_range(r.bounds()) {
            None => o.push(NONE),
            Some(sl) => {
                o.push(sl.len() as u64);
                for x in sl {
                    o.push(tg(x))
                }
            }
        },
        SOp::IndexUsize(i) => {
            let t = guarded!(s.as_slice()[*i].tag);
            o.push(t)
        }
        SOp::FirstLast => {
            pv(&mut o, s.first().map(tg));
            pv(&mut o, s.last().map(tg))
        }
        SOp::SwapRemoveIndex(i) => pv(&mut o, s.swap_remove_index(*i, vm, g)?.map(|k| tg(&k))),
        SOp::ShiftRemoveIndex(i) => pv(&mut o, s.shift_remove_index(*i, vm, g)?.map(|k| tg(&k))),
        SOp::MoveIndex(a, b) => guarded!(s.move_index(*a, *b, vm, g))?,
        SOp::Clear => s.clear(),
        SOp::Truncate(n) => s.truncate(*n, vm, g)?,
        SOp::Drain(r, f, b) => {
            let x = guarded!({
                let mut o: Out = vec![];
                let mut d = s.drain(r.bounds(), vm, g)?;
                o.push(d.len() as u64);
                for _ in 0..*f {
                    pv(&mut o, d.next().map(|k| tg(&k)));
                }
                for _ in 0..*b {
                    pv(&mut o, d.next_back().map(|k| tg(&k)));
                }
                o.push(d.len() as u64);
                Ok::<Out, Exc>(o)
            })?;
            o = x
        }
        SOp::SplitOff(at, keep) => {
            let mut t = guarded!(s.split_off(*at, vm, g))?;
            if *keep {
                std::mem::swap(s, &mut t);
            }
            for x in t.iter() {
                o.push(tg(x));
                pv(&mut o, t.get_index_of(&x.core, vm, g)?.map(|i| i as u64))
            }
        }
        SOp::Append(xs, cap) => {
            let mut d = S::with_capacity_and_hasher(*cap, Bh);
            d.extend(xs.iter().map(k), vm, g)?;
            s.append(&mut d, vm, g)?;
            o.push(d.len() as u64)
        }
        SOp::Extend(xs) => s.extend(xs.iter().map(k), vm, g)?,
        SOp::FromIter(xs) => *s = S::from_iter(xs.iter().map(k), vm, g)?,
        SOp::Reserve(n) => s.reserve(*n),
        SOp::ReserveExact(n) => s.reserve_exact(*n),
        SOp::ShrinkToFit => s.shrink_to_fit(),
        SOp::ShrinkTo(n) => s.shrink_to(*n),
        SOp::IntoIterRebuild(rev) => {
            let c = std::mem::replace(s, S::with_hasher(Bh));
            if *rev {
                s.extend(c.into_iter().rev(), vm, g)?
            } else {
                s.extend(c, vm, g)?
            }
        }
        SOp::Relate(xs, cap) => {
            let mut d = S::with_capacity_and_hasher(*cap, Bh);
            d.extend(xs.iter().map(k), vm, g)?;
            o.push(s.is_disjoint(&d, vm, g)? as u64);
            o.push(d.is_disjoint(s, vm, g)? as u64);
            o.push(s.is_subset(&d, vm, g)? as u64);
            o.push(s.is_superset(&d, vm, g)? as u64);
            o.push(s.eql(&d, vm, g)? as u64);
            o.push(d.eql(s, vm, g)? as u64);
        }
    }
    Ok(o)
}

fn ins(m: &mut Model, x: &KV) -> (usize, bool) {
    match pos(m, &x.0) {
        Some(i) => (i, false),
        None => {
            m.push(Ent { core: x.0, tag: x.1, v: 0 });
            (m.len() - 1, true)
        }
    }
}
fn mv(m: &mut Model, a: usize, b: usize) {
    let e = m.remove(a);
    m.insert(b, e);
}

pub fn model(m: &mut Model, op: &SOp) -> Out {
    let mut o: Out = vec![];
    match op {
        SOp::Insert(x) => o.push(ins(m, x).1 as u64),
        SOp::InsertFull(x) => {
            let (i, n) = ins(m, x);
            o.extend([i as u64, n as u64])
        }
        SOp::InsertSorted(x) => match pos(m, &x.0) {
            Some(i) => o.extend([i as u64, 0]),
            None => {
                let i = m.iter().position(|e| e.core > x.0).unwrap_or(m.len());
                m.insert(i, Ent { core: x.0, tag: x.1, v: 0 });
                o.extend([i as u64, 1])
            }
        },
        SOp::InsertBefore(i, x) => {
            if *i > m.len() {
                return vec![PANIC];
            }
            match pos(m, &x.0) {
                None => {
                    m.insert(*i, Ent { core: x.0, tag: x.1, v: 0 });
                    o.extend([*i as u64, 1])
                }
                Some(p) => {
                    let t = if *i > p { *i - 1 } else { *i };
                    mv(m, p, t);
                    o.extend([t as u64, 0])
                }
            }
        }
        SOp::ShiftInsert(i, x) => match pos(m, &x.0) {
            None if *i <= m.len() => {
                m.insert(*i, Ent { core: x.0, tag: x.1, v: 0 });
                o.push(1)
            }
            Some(p) if *i < m.len() => {
                mv(m, p, *i);
                o.push(0)
            }
            _ => o.push(PANIC),
        },
        SOp::Replace(x) => match pos(m, &x.0) {
            Some(i) => pv(&mut o, Some(std::mem::replace(&mut m[i].tag, x.1))),
            None => {
                ins(m, x);
                pv(&mut o, None)
            }
        },
        SOp::ReplaceFull(x) => match pos(m, &x.0) {
            Some(i) => {
                o.push(i as u64);
                pv(&mut o, Some(std::mem::replace(&mut m[i].tag, x.1)))
            }
            None => {
                o.push(m.len() as u64);
                ins(m, x);
                pv(&mut o, None)
            }
        },
        SOp::Contains(q) => o.push(pos(m, q).is_some() as u64),
        SOp::Get(q) => pv(&mut o, pos(m, q).map(|i| m[i].tag)),
        SOp::GetFull(q) => pe(&mut o, pos(m, q).map(|i| (i, m[i].tag))),
        SOp::GetIndexOf(q) => pv(&mut o, pos(m, q).map(|i| i as u64)),
        SOp::SwapRemove(q) => o.push(pos(m, q).map(|i| m.swap_remove(i)).is_some() as u64),
        SOp::ShiftRemove(q) => o.push(pos(m, q).map(|i| m.remove(i)).is_some() as u64),
        SOp::SwapTake(q) => pv(&mut o, pos(m, q).map(|i| m.swap_remove(i).tag)),
        SOp::ShiftTake(q) => pv(&mut o, pos(m, q).map(|i| m.remove(i).tag)),
        SOp::SwapRemoveFull(q) => pe(&mut o, pos(m, q).map(|i| (i, m.swap_remove(i).tag))),
        SOp::ShiftRemoveFull(q) => pe(&mut o, pos(m, q).map(|i| (i, m.remove(i).tag))),
        SOp::Pop => pv(&mut o, m.pop().map(|e| e.tag)),
        SOp::Retain(md, r) => m.retain(|e| {
            o.push(e.tag);
            e.core.val as u64 % md != *r
        }),
        SOp::Sort | SOp::SortUnstable => m.sort_by_key(|e| e.core),
        SOp::SortBy(md) | SOp::SortCached(md) | SOp::SortedBy(md) => m.sort_by_key(|e| e.tag % md),
        SOp::SortUnstableBy => m.sort_by(|a, b| b.core.cmp(&a.core)),
        SOp::BinSearch(c) => {
            for _ in 0..3 {
                match pos(m, c) {
                    Some(i) => o.extend([SOME, i as u64]),
                    None => o.extend([NONE, m.iter().position(|e| e.core > *c).unwrap_or(m.len()) as u64]),
                }
            }
        }
        SOp::PartPoint(x) => o.push(m.iter().position(|e| e.core.val >= *x).unwrap_or(m.len()) as u64),
        SOp::Reverse => m.reverse(),
        SOp::GetIndex(i) => pv(&mut o, m.get(*i).map(|e| e.tag)),
        SOp::GetRange(r) => match r.resolve(m.len()) {
            None => o.push(NONE),
            Some((a, b)) => {
                o.push((b - a) as u64);
                m[a..b].iter().for_each(|e| o.push(e.tag))
            }
        },
        SOp::IndexUsize(i) => o.push(m.get(*i).map(|e| e.tag).unwrap_or(PANIC)),
        SOp::FirstLast => {
            pv(&mut o, m.first().map(|e| e.tag));
            pv(&mut o, m.last().map(|e| e.tag))
        }
        SOp::SwapRemoveIndex(i) => {
            let r = if *i < m.len() { Some(m.swap_remove(*i).tag) } else { None };
            pv(&mut o, r)
        }
        SOp::ShiftRemoveIndex(i) => {
            let r = if *i < m.len() { Some(m.remove(*i).tag) } else { None };
            pv(&mut o, r)
        }
        SOp::MoveIndex(a, b) => {
            if *a < m.len() && *b < m.len() {
                mv(m, *a, *b)
            } else {
                o.push(PANIC)
            }
        }
        SOp::Clear => m.clear(),
        SOp::Truncate(n) => m.truncate(*n),
        SOp::Drain(r, f, b) => match r.resolve(m.len()) {
            None => o.push(PANIC),
            Some((s, e)) => {
                let mut d = m.drain(s..e);
                o.push(d.len() as u64);
                for _ in 0..*f {
                    pv(&mut o, d.next().map(|e| e.tag));
                }
                for _ in 0..*b {
                    pv(&mut o, d.next_back().map(|e| e.tag));
                }
                o.push(d.len() as u64);
            }
        },
        SOp::SplitOff(at, keep) => {
            if *at > m.len() {
                return vec![PANIC];
            }
            let mut t = m.split_off(*at);
            if *keep {
                std::mem::swap(m, &mut t);
            }
            for (i, e) in t.iter().enumerate() {
                o.push(e.tag);
                pv(&mut o, Some(i as u64))
            }
        }
        SOp::Append(xs, _) => {
            let mut d: Model = vec![];
            xs.iter().for_each(|x| {
                ins(&mut d, x);
            });
            d.iter().for_each(|e| {
                ins(m, &KV(e.core, e.tag, 0));
            });
            o.push(0)
        }
        SOp::Extend(xs) => xs.iter().for_each(|x| {
            ins(m, x);
        }),
        SOp::FromIter(xs) => {
            m.clear();
            xs.iter().for_each(|x| {
                ins(m, x);
            })
        }
        SOp::Reserve(_) | SOp::ReserveExact(_) | SOp::ShrinkToFit | SOp::ShrinkTo(_) => {}
        SOp::IntoIterRebuild(rev) => {
            if *rev {
                m.reverse()
            }
        }
        SOp::Relate(xs, _) => {
            let mut d: Model = vec![];
            xs.iter().for_each(|x| {
                ins(&mut d, x);
            });
            let common = m.iter().filter(|e| pos(&d, &e.core).is_some()).count();
            let dis = (common == 0) as u64;
            let eq = (common == m.len() && common == d.len()) as u64;
            o.extend([dis, dis, (common == m.len()) as u64, (common == d.len()) as u64, eq, eq])
        }
    }
    o
}

fn sorted(m: &Model) -> bool {
    m.windows(2).all(|w| w[0].core < w[1].core)
}

fn idx(r: &mut Rng, len: usize) -> usize {
    match r.below(20) {
        0 => len,
        1 => len + 1 + r.us(3),
        2 => 0,
        3 => len.saturating_sub(1),
        4 if r.chance(1, 8) => usize::MAX - r.us(2),
        _ => r.us(len.max(1)),
    }
}

pub fn gen_op(gen: &mut Gen, r: &mut Rng, m: &Model, target: usize, bulk: u32) -> SOp {
    let len = m.len();
    let c = gen.key(r, m);
    let (i, j) = (idx(r, len), idx(r, len));
    let ins = if len > target { 3 } else { 12 };
    match r.weighted(&[ins, ins, 4, 10, 10, 10, bulk, 3]) {
        0 => SOp::Insert(gen.kv(r, m)),
        1 => SOp::InsertFull(gen.kv(r, m)),
        2 => {
            if r.chance(1, 2) {
                SOp::Replace(gen.kv(r, m))
            } else {
                SOp::ReplaceFull(gen.kv(r, m))
            }
        }
        3 => match r.below(4) {
            0 => SOp::Contains(c),
            1 => SOp::Get(c),
            2 => SOp::GetFull(c),
            _ => SOp::GetIndexOf(c),
        },
        4 => match r.below(7) {
            0 => SOp::SwapRemove(c),
            1 => SOp::ShiftRemove(c),
            2 => SOp::SwapTake(c),
            3 => SOp::ShiftTake(c),
            4 => SOp::SwapRemoveFull(c),
            5 => SOp::ShiftRemoveFull(c),
            _ => SOp::Pop,
        },
        5 => match r.below(16) {
            0 => SOp::InsertBefore(i, gen.kv(r, m)),
            1 => SOp::ShiftInsert(i, gen.kv(r, m)),
            2 => SOp::MoveIndex(i, j),
            3 => SOp::Reverse,
            4 if r.chance(1, 2) => SOp::Sort,
            4 => SOp::SortUnstable,
            5 => SOp::SortBy(r.range(1, 4)),
            6 => SOp::SortUnstableBy,
            7 => SOp::SortCached(r.range(1, 4)),
            8 => SOp::GetIndex(i),
            9 => SOp::GetRange(gen.rg(r, len)),
            10 => SOp::IndexUsize(i),
            11 => SOp::FirstLast,
            12 => SOp::SwapRemoveIndex(i),
            13 => SOp::ShiftRemoveIndex(i),
            _ if sorted(m) => match r.below(3) {
                0 => SOp::InsertSorted(gen.kv(r, m)),
                1 => SOp::BinSearch(c),
                _ if m.windows(2).all(|w| w[0].core.val < w[1].core.val) => SOp::PartPoint(c.val),
                _ => SOp::Reverse,
            },
            _ => SOp::Sort,
        },
        6 => {
            let n = r.us(20);
            match r.below(12) {
                0 if r.chance(1, 3) => SOp::Clear,
                1 => SOp::Truncate(i),
                2 | 3 => SOp::Drain(gen.rg(r, len), r.us(len + 2), r.us(len / 2 + 2)),
                4 => SOp::SplitOff(i, r.chance(1, 2)),
                5 => SOp::Append(gen.kvs(r, n), r.us(20)),
                6 => SOp::Extend(gen.kvs(r, n)),
                7 => SOp::FromIter(gen.kvs(r, n)),
                8 => {
                    let md = r.range(1, 5);
                    SOp::Retain(md, r.below(md + 1))
                }
                9 => SOp::IntoIterRebuild(r.chance(1, 2)),
                10 => SOp::SortedBy(r.range(1, 4)),
                _ => {
                    // near-copy of self, subset, superset or unrelated
                    let mut xs: Vec<KV> = match r.below(4) {
                        0 => gen.kvs(r, n),
                        _ => m.iter().map(|e| KV(e.core, e.tag, 0)).collect(),
                    };
                    if r.chance(1, 3) && !xs.is_empty() {
                        let i = r.us(xs.len());
                        xs.remove(i);
                    }
                    if r.chance(1, 3) {
                        xs.push(gen.kv(r, m));
                    }
                    r.shuffle(&mut xs);
                    SOp::Relate(xs, r.us(30))
                }
            }
        }
        _ => match r.below(5) {
            0 => SOp::Reserve(r.us(30)),
            1 => SOp::ReserveExact(r.us(30)),
            2 => SOp::ShrinkToFit,
            3 => SOp::ShrinkTo(r.us(30)),
            _ => SOp::Reserve(len),
        },
    }
}

pub fn check_contents(s: &S, m: &Model) -> vh::Verdict {
    vh::veq!(s.len(), m.len(), "length");
    vh::veq!(s.is_empty(), m.is_empty(), "is_empty");
    for (i, k) in s.iter().enumerate() {
        k.touch();
        match m.get(i) {
            Some(e) if e.core == k.core && e.tag == k.tag => {}
            e => vh::vbail!("element {i}: observed {k:?}, expected {e:?}"),
        }
    }
    vh::veq!(s.iter().count(), m.len(), "elements yielded by iteration");
    Ok(())
}
pub fn check_lookups(s: &S, m: &Model, uni: &Universe, vm: &mut Vm, g: &mut Gl) -> vh::Verdict {
    for c in &uni.cores {
        let want = pos(m, c);
        match s.get_index_of(c, vm, g) {
            Ok(x) => vh::veq!(x, want, "position of {c:?}"),
            Err(e) => vh::vbail!("lookup raised {e:?}"),
        }
    }
    Ok(())
}
