//! C12: capacity promises, judged by counting the allocations actually made.
use hash::mapm::{self, anomalies, pos, Ent, Gen, Model, Profile, M};
use hash::setm::{self, S};
use hash::tabm::{self, TProfile, T};
use hash::*;
use hashbrown::hash_table::HashTable;
use vh::{vbail, vcheck, veq, Case, Verdict};

vh::counting_alloc!();

fn allocs() -> u64 {
    vh::alloc::snapshot().0
}

enum C {
    M(M),
    S(S),
    T(u64, T),
}
impl C {
    fn new(kind: u64, cap: usize) -> C {
        match kind {
            0 => C::M(M::with_capacity_and_hasher(cap, Bh)),
            1 => C::S(S::with_capacity_and_hasher(cap, Bh)),
            k => C::T(k - 2, T::new(k - 2, cap)),
        }
    }
    fn len(&self) -> usize {
        match self {
            C::M(m) => m.len(),
            C::S(m) => m.len(),
            C::T(_, m) => m.len(),
        }
    }
    fn capacity(&self) -> usize {
        match self {
            C::M(m) => m.capacity(),
            C::S(m) => m.capacity(),
            C::T(_, m) => m.capacity(),
        }
    }
    fn reserve(&mut self, n: usize, exact: bool) {
        match self {
            C::M(m) if exact => m.reserve_exact(n),
            C::M(m) => m.reserve(n),
            C::S(m) if exact => m.reserve_exact(n),
            C::S(m) => m.reserve(n),
            C::T(_, T::M(m)) => m.reserve(n),
            C::T(_, T::S(m)) => m.reserve(n),
            C::T(_, T::T(m)) => m.reserve(n, |x| x.0.core.h),
        }
    }
    fn shrink(&mut self, to: Option<usize>) {
        let n = to.unwrap_or(0);
        match (self, to) {
            (C::M(m), None) => m.shrink_to_fit(),
            (C::M(m), _) => m.shrink_to(n),
            (C::S(m), None) => m.shrink_to_fit(),
            (C::S(m), _) => m.shrink_to(n),
            (C::T(_, T::M(m)), None) => m.shrink_to_fit(),
            (C::T(_, T::M(m)), _) => m.shrink_to(n),
            (C::T(_, T::S(m)), None) => m.shrink_to_fit(),
            (C::T(_, T::S(m)), _) => m.shrink_to(n),
            (C::T(_, T::T(m)), None) => m.shrink_to_fit(|x| x.0.core.h),
            (C::T(_, T::T(m)), _) => m.shrink_to(n, |x| x.0.core.h),
        }
    }
    fn set_like(&self) -> bool {
        matches!(self, C::S(_) | C::T(1, _))
    }
    fn check(&self, md: &Model, uni: &Universe, vm: &mut Vm, g: &mut Gl, r: &mut vh::Rng) -> Verdict {
        match self {
            C::M(m) => {
                mapm::check_contents(m, md)?;
                mapm::check_lookups(m, md, uni, vm, g, r, 60)
            }
            C::S(m) => {
                setm::check_contents(m, md)?;
                setm::check_lookups(m, md, uni, vm, g)
            }
            C::T(_, t) => {
                tabm::check_contents(t, md)?;
                tabm::check_lookups(t, md, uni, vm, g)
            }
        }
    }
    /// Insert one absent key by one of the container's insertion paths.
    fn insert(&mut self, how: u64, k: K, v: V, vm: &mut Vm, g: &mut Gl) -> Result<(), Exc> {
        match self {
            C::M(m) => match how % 7 {
                0 => drop(m.insert(k, v, vm, g)?),
                1 => drop(m.insert_full(k, v, vm, g)?),
                2 => drop(m.entry(k, vm, g)?.or_insert(v)),
                3 => drop(m.entry(k, vm, g)?.insert_entry(v)),
                4 => drop(m.shift_insert(m.len(), k, v, vm, g)?),
                5 => drop(m.insert_before(m.len(), k, v, vm, g)?),
                _ => m.extend(std::iter::once((k, v)), vm, g)?,
            },
            C::S(m) => match how % 4 {
                0 => drop(m.insert(k, vm, g)?),
                1 => drop(m.insert_full(k, vm, g)?),
                2 => drop(m.replace(k, vm, g)?),
                _ => m.extend(std::iter::once(k), vm, g)?,
            },
            C::T(_, T::M(m)) => match how % 5 {
                0 => drop(m.insert(k, v, vm, g)?),
                1 => drop(m.entry(k, vm, g)?.or_insert(v)),
                2 => drop(m.try_insert(k, v, vm, g)?),
                3 => unsafe { drop(m.insert_unique_unchecked(k, v)) },
                _ => m.extend(std::iter::once((k, v)), vm, g)?,
            },
            C::T(_, T::S(m)) => match how % 4 {
                0 => drop(m.insert(k, vm, g)?),
                1 => drop(m.get_or_insert(k, vm, g)?),
                2 => drop(m.replace(k, vm, g)?),
                _ => unsafe {
                    m.insert_unique_unchecked(k);
                },
            },
            C::T(_, T::T(m)) => {
                let h = k.core.h;
                match how % 2 {
                    0 => drop(m.insert_unique(h, (k, v), |x| x.0.core.h)),
                    _ => {
                        let c = k.core;
                        match m.entry(h, move |x: &(K, V), _: &mut Vm, _: &mut Gl| Ok(x.0.core == c), |x| x.0.core.h, vm, g)? {
                            hashbrown::hash_table::Entry::Vacant(e) => drop(e.insert((k, v))),
                            hashbrown::hash_table::Entry::Occupied(_) => {}
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn some_history(case: &mut Case, gen: &mut Gen, c: &mut C, md: &mut Model, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let steps = if case.slow { 6 } else { case.rng.range(0, 40) };
    let target = *case.rng.pick(&[4usize, 8, 10, 16, 40, 90]);
    for _ in 0..steps {
        let mut r = case.rng.clone();
        match c {
            C::M(m) => {
                let p = Profile { dict: 6, positional: 2, entry: 3, bulk: 2, cap: 4, grow: 5, target_len: target, check_every: 1 };
                let op = gen.op(&mut r, md, &p);
                case.rng = r;
                mapm::step(case, m, md, &op, vm, g)?;
            }
            C::S(s) => {
                let op = setm::gen_op(gen, &mut r, md, target, 2);
                case.rng = r;
                case.op(|| format!("{op:?}"));
                let want = setm::model(md, &op);
                match vh::catch(|| setm::real(s, &op, vm, g)) {
                    Ok(Ok(o)) if o == want => {}
                    o => vbail!("{op:?}: {o:x?}, expected {want:x?}"),
                }
            }
            C::T(k, t) => {
                let p = TProfile { grow: 4, target_len: target, bulk: 2, cap: 4 };
                let op = tabm::gen_op(gen, &mut r, *k, md, &p);
                case.rng = r;
                tabm::step(case, *k, t, md, &op, vm, g)?;
            }
        }
        vcheck!(c.capacity() >= c.len(), "capacity {} below {} elements", c.capacity(), c.len());
    }
    Ok(())
}

/// Insert `n` absent keys; none may allocate. A small ordered container may build its
/// index the first time a handle-based path needs it, so unless the promise covers more
/// than a small container (`plain` false) only plain insertion paths are used on it.
fn fill(case: &mut Case, gen: &mut Gen, c: &mut C, md: &mut Model, n: usize, vm: &mut Vm, g: &mut Gl, what: &str, plain: bool) -> Verdict {
    let mut absent: Vec<Core> = gen.uni.cores.iter().copied().filter(|x| pos(md, x).is_none()).collect();
    case.rng.shuffle(&mut absent);
    let n = n.min(absent.len());
    let uniform = case.rng.chance(1, 2);
    let how0 = case.rng.next();
    let set = c.set_like();
    let mut els: Vec<(K, V, u64)> = vec![];
    for x in absent.iter().take(n) {
        let (tag, v) = (gen.fresh(), gen.fresh());
        let mut how = if uniform { how0 } else { case.rng.next() };
        if plain && matches!(c, C::M(_) | C::S(_)) {
            how = 28 * (how / 28) + if matches!(c, C::M(_)) { [0, 1, 6][how as usize % 3] } else { [0, 1, 3][how as usize % 3] };
        }
        els.push((K::new(*x, tag), V::new(v), how));
        md.push(Ent { core: *x, tag, v: if set { 0 } else { v } });
    }
    let len0 = c.len();
    let cap0 = c.capacity();
    for (i, (k, v, how)) in els.into_iter().enumerate() {
        let a = allocs();
        let r = vh::catch(|| c.insert(how, k, v, vm, g));
        let b = allocs();
        match r {
            Ok(Ok(())) => {}
            o => vbail!("{what}: insertion {i} of {n}: {o:?}"),
        }
        if a != b {
            vbail!("{what}: insertion {} of {n} (path {}) made {} allocation(s); {len0} elements and capacity {cap0} before", i + 1, how % 28, b - a);
        }
        vh::step();
    }
    case.count_n("insertions_counted", n as u64);
    if len0 + n > 8 && len0 <= 8 {
        case.count("fill_crossed_8");
    }
    veq!(c.len(), md.len(), "{what}: length after {n} insertions");
    Ok(())
}

fn impossible(case: &mut Case, len: usize) -> usize {
    match case.rng.below(6) {
        0 => usize::MAX,
        1 => usize::MAX - len,
        2 => (usize::MAX - len).saturating_add(1 + case.rng.us(4)),
        3 => (usize::MAX / 2) + 1,
        4 => usize::MAX - case.rng.us(64),
        _ => (1 << 62) + case.rng.us(1 << 30),
    }
}

fn containers(case: &mut Case) -> Verdict {
    let (mut vm, mut g) = Vm::new();
    let (vm, g) = (&mut vm, &mut g);
    let kind = case.rng.below(5);
    case.count(["kind_map", "kind_set", "kind_umap", "kind_uset", "kind_table"][kind as usize]);
    let n = *case.rng.pick(&[12usize, 30, 120, 300]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let mut md: Model = vec![];
    let cap = match case.rng.below(3) {
        0 => 0,
        1 => case.rng.us(20),
        _ => case.rng.us(n),
    };
    case.op(|| format!("kind {kind} with capacity {cap}"));
    let mut c = C::new(kind, cap);
    vcheck!(c.capacity() >= cap, "created with capacity {cap}, reports {}", c.capacity());
    if case.rng.chance(1, 2) {
        case.count("created_with_capacity");
        fill(case, &mut gen, &mut c, &mut md, cap, vm, g, "after creation with capacity", cap <= 8)?;
        c.check(&md, &gen.uni, vm, g, &mut case.rng.clone())?;
    }
    for _ in 0..case.rng.range(1, 4) {
        some_history(case, &mut gen, &mut c, &mut md, vm, g)?;
        let len = c.len();
        let sel = case.rng.below(8);
        case.sig(sel << 32 ^ (kind << 16) ^ len as u64);
        match sel {
            0..=2 => {
                let want = match case.rng.below(4) {
                    0 => case.rng.us(4),
                    1 => 8usize.saturating_sub(len) + case.rng.us(3),
                    2 => case.rng.us(20),
                    _ => case.rng.us(n),
                };
                let exact = case.rng.chance(1, 2);
                case.op(|| format!("reserve {want} exact={exact} with {len} elements, capacity {}", c.capacity()));
                c.reserve(want, exact);
                case.count("reserved");
                vcheck!(c.capacity() >= len + want, "reserved {want} more with {len} elements, capacity {}", c.capacity());
                c.check(&md, &gen.uni, vm, g, &mut case.rng.clone())?;
                fill(case, &mut gen, &mut c, &mut md, want, vm, g, "after reserve", len + want <= 8)?;
            }
            3 | 4 => {
                let to = match case.rng.below(4) {
                    0 => None,
                    1 => Some(case.rng.us(2 * len + 2)),
                    2 => Some(len + case.rng.us(20)),
                    _ => Some(usize::MAX - case.rng.us(3)),
                };
                let cap = c.capacity();
                case.op(|| format!("shrink to {to:?} with {len} elements, capacity {cap}"));
                match vh::catch(|| c.shrink(to)) {
                    Ok(()) => {}
                    Err((l, s)) => vbail!("shrink to {to:?} with {len} elements: panicked at {l}: {s}"),
                }
                case.count("shrunk");
                let keep = to.unwrap_or(0).min(cap).max(len);
                vcheck!(c.capacity() >= keep, "shrunk to {to:?} with {len} elements and capacity {cap}: now {}", c.capacity());
                c.check(&md, &gen.uni, vm, g, &mut case.rng.clone())?;
                if to.is_some_and(|t| t > len && t <= cap) {
                    case.count("shrunk_to_more_than_len");
                    fill(case, &mut gen, &mut c, &mut md, keep - len, vm, g, "after shrink_to", true)?;
                }
            }
            5 => {
                let n = c.capacity() - len;
                case.op(|| format!("fill up to capacity {} from {len}", c.capacity()));
                case.count("filled_to_capacity");
                fill(case, &mut gen, &mut c, &mut md, n, vm, g, "up to the reported capacity", true)?;
            }
            6 => {
                let x = impossible(case, len);
                let exact = case.rng.chance(1, 2);
                case.op(|| format!("impossible reservation {x} with {len} elements"));
                if vh::catch(|| c.reserve(x, exact)).is_ok() {
                    vbail!("reservation of {x} more with {len} elements returned as if it had succeeded (capacity {})", c.capacity());
                }
                case.count("impossible_refused");
                if len > 8 {
                    case.count("impossible_refused_above_8");
                }
            }
            _ => {
                let x = impossible(case, 0).max(1 << 62);
                if let Ok(c) = vh::catch(|| C::new(kind, x)) {
                    vbail!("creation with capacity {x} returned as if it had succeeded (capacity {})", c.capacity());
                }
                case.count("impossible_creation_refused");
            }
        }
        c.check(&md, &gen.uni, vm, g, &mut case.rng.clone())?;
        anomalies()?;
        case.nontrivial();
    }
    case.sample = Some(format!("capacity episodes, container kind {kind}, {} elements", md.len()));
    Ok(())
}

/// Small and empty element types have their own minimum sizes.
fn small<X: Copy + PartialEq + std::fmt::Debug>(case: &mut Case, mk: fn(u64) -> X, zst: bool) -> Verdict {
    type Tb<X> = HashTable<X, (), (), ()>;
    let salt = case.rng.next();
    let pol = case.rng.below(HASH_POLICIES);
    let n = case.rng.us(300);
    let hs: Vec<u64> = (0..1000).map(|i| policy_hash(pol, i, salt)).collect();
    // the hasher must give the hash an element was stored with: elements of
    // tiny types share hashes by value
    let find = |x: &X| -> u64 { (0..256u64).find(|i| mk(*i) == *x).map(|i| hs[i as usize]).unwrap_or(0) };
    let id = |i: usize| if zst { 0 } else { (i % 256) as u64 };
    let a = allocs();
    let mut t: Tb<X> = Tb::with_capacity(n);
    vcheck!(allocs() - a <= 1, "creation with capacity {n} allocated {} times", allocs() - a);
    vcheck!(t.capacity() >= n, "created with capacity {n}, reports {}", t.capacity());
    let a = allocs();
    for i in 0..n {
        let x = id(i);
        t.insert_unique(hs[x as usize], mk(x), find);
    }
    veq!(allocs() - a, 0, "allocations while inserting {n} elements of {} bytes after creation with capacity {n}", std::mem::size_of::<X>());
    let more = case.rng.us(200);
    t.reserve(more, find);
    vcheck!(t.capacity() >= n + more, "reserved {more} more with {n}: {}", t.capacity());
    let a = allocs();
    for i in n..n + more {
        let x = id(i);
        t.insert_unique(hs[x as usize], mk(x), find);
    }
    veq!(allocs() - a, 0, "allocations while inserting {more} reserved elements of {} bytes", std::mem::size_of::<X>());
    veq!(t.len(), n + more, "length");
    veq!(t.iter().count(), n + more, "elements iterated");
    let mut want: Vec<u64> = (0..n + more).map(id).map(|x| find(&mk(x))).collect();
    let mut got: Vec<u64> = t.iter().map(find).collect();
    want.sort();
    got.sort();
    veq!(got, want, "contents after filling reserved room");
    let keep = case.rng.us(n + more + 1);
    let mut left = keep;
    t.retain(|_| {
        let k = left > 0;
        left = left.saturating_sub(1);
        k
    });
    veq!(t.len(), keep, "retained");
    let to = case.rng.us(2 * keep + 3);
    let cap = t.capacity();
    t.shrink_to(to, find);
    vcheck!(t.capacity() >= keep.max(to.min(cap)), "shrunk to {to} with {keep} elements and capacity {cap}: {}", t.capacity());
    veq!(t.iter().count(), keep, "elements after shrinking");
    let x = impossible(case, keep);
    if vh::catch(|| t.reserve(x, find)).is_ok() {
        vbail!("reservation of {x} more with {keep} elements of {} bytes returned as if it had succeeded", std::mem::size_of::<X>());
    }
    veq!(t.iter().count(), keep, "elements after a refused reservation");
    case.count("small_types");
    case.sig((n as u64) << 20 ^ (more as u64) << 4 ^ keep as u64 ^ std::mem::size_of::<X>() as u64);
    case.nontrivial();
    Ok(())
}

fn main() {
    vh::main_loop("c12", |case| {
        vh::ledger::reset();
        match case.rng.below(10) {
            0 => match case.rng.below(7) {
                0 => small::<()>(case, |_| (), true),
                1 => small::<u8>(case, |i| i as u8, false),
                2 => small::<u16>(case, |i| i as u16, false),
                3 => small::<u32>(case, |i| i as u32, false),
                4 => small::<u64>(case, |i| i, false),
                5 => small::<[u8; 3]>(case, |i| [i as u8, 1, 2], false),
                _ => small::<[u64; 9]>(case, |i| [i; 9], false),
            },
            _ => containers(case),
        }
    })
}
