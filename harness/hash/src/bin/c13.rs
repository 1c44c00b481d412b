//! C13: clones and clone_from: equal at the moment of cloning, independent afterwards;
//! equality by content.
#![allow(dropping_copy_types, dropping_references)]
use hash::mapm::{self, anomalies, pos, Ent, Gen, Model, Profile, KV, M};
use hash::tabm::{self, TProfile, HM, HS, T};
use hash::*;
use hashbrown::hash_map::HashMap;
use hashbrown::hash_set::HashSet;
use ruby_traits::RubyEql;
use rubymap::{RubyMap, RubySet};
use vh::{vbail, vcheck, veq, Case, Rng, Verdict};

type DM = RubyMap<K, V, Vm, Gl, Exc>;
type DS = RubySet<K, Vm, Gl, Exc>;

fn prof(case: &mut Case) -> Profile {
    let target_len = *case.rng.pick(&[3usize, 8, 9, 14, 40]);
    Profile { dict: 8, positional: 4, entry: 4, bulk: 3, cap: 2, grow: 5, target_len, check_every: 1 }
}

fn prefill(case: &mut Case, gen: &mut Gen, m: &mut M, md: &mut Model, vm: &mut Vm, g: &mut Gl) -> Verdict {
    if case.rng.chance(2, 3) {
        let n = *case.rng.pick(&[5usize, 8, 9, 20, 60]);
        for x in gen.prefill(&mut case.rng, n) {
            mapm::step(case, m, md, &mapm::Op::Insert(x), vm, g)?;
        }
    }
    Ok(())
}

fn run_map(case: &mut Case, gen: &mut Gen, m: &mut M, md: &mut Model, steps: u64, p: &Profile, vm: &mut Vm, g: &mut Gl) -> Verdict {
    for _ in 0..steps {
        let mut r = case.rng.clone();
        let op = gen.op(&mut r, md, p);
        case.rng = r;
        mapm::step(case, m, md, &op, vm, g)?;
    }
    Ok(())
}

fn both_map(m: &M, md: &Model, uni: &Universe, vm: &mut Vm, g: &mut Gl, r: &mut Rng, what: &str) -> Verdict {
    let f = |e: vh::Violation| vh::Violation(format!("{what}: {}", e.0));
    mapm::check_contents(m, md).map_err(f)?;
    mapm::check_lookups(m, md, uni, vm, g, r, 60).map_err(f)
}

/// Ordered map with the identity hasher: clone / clone_from, then both sides driven.
fn map_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[6usize, 14, 30, 80]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let (p, p2) = (prof(case), prof(case));
    let mut a = M::with_capacity_and_hasher(case.rng.us(20), Bh);
    let mut ma: Model = vec![];
    prefill(case, &mut gen, &mut a, &mut ma, vm, g)?;
    let steps = if case.slow { 8 } else { case.rng.range(0, 12) };
    run_map(case, &mut gen, &mut a, &mut ma, steps, &p, vm, g)?;
    let mut mb: Model = vec![];
    let from = case.rng.chance(2, 3);
    let mut b = if from {
        let mut b = M::with_capacity_and_hasher(case.rng.us(40), Bh);
        prefill(case, &mut gen, &mut b, &mut mb, vm, g)?;
        let steps = if case.slow { 8 } else { case.rng.range(0, 12) };
        run_map(case, &mut gen, &mut b, &mut mb, steps, &p2, vm, g)?;
        case.op(|| format!("clone {} pairs into a map of {} pairs", ma.len(), mb.len()));
        case.count("clone_from");
        let small = |n: usize| (n > 8) as usize;
        case.count([["from_small_small", "from_small_large"], ["from_large_small", "from_large_large"]][small(ma.len())][small(mb.len())]);
        b.clone_from(&a);
        b
    } else {
        case.op(|| format!("clone {} pairs", ma.len()));
        case.count("clones");
        a.clone()
    };
    veq!(vh::ledger::live(), 4 * ma.len() as u64, "elements alive after cloning {} pairs over {} pairs", ma.len(), mb.len());
    anomalies()?;
    mb = ma.clone();
    let mut r = case.rng.clone();
    both_map(&b, &mb, &gen.uni, vm, g, &mut r, "clone")?;
    both_map(&a, &ma, &gen.uni, vm, g, &mut r, "source of a clone")?;
    vcheck!(b.as_slice().len() == a.as_slice().len(), "slice lengths differ");
    case.sig((ma.len() as u64) << 20 | (from as u64) << 10 | n as u64);
    case.nontrivial();
    for round in 0..case.rng.range(1, 6) {
        let steps = if case.slow { 3 } else { case.rng.range(1, 15) };
        if case.rng.chance(1, 2) {
            run_map(case, &mut gen, &mut a, &mut ma, steps, &p, vm, g)?;
        } else {
            run_map(case, &mut gen, &mut b, &mut mb, steps, &p2, vm, g)?;
        }
        case.count("independent_rounds");
        veq!(vh::ledger::live(), 2 * (ma.len() + mb.len()) as u64, "elements alive in round {round}");
        both_map(&a, &ma, &gen.uni, vm, g, &mut r, "source while the clone changes")?;
        both_map(&b, &mb, &gen.uni, vm, g, &mut r, "clone while the source changes")?;
    }
    drop(a);
    both_map(&b, &mb, &gen.uni, vm, g, &mut r, "clone after its source was dropped")?;
    drop(b);
    veq!(vh::ledger::live(), 0, "elements alive after both were dropped");
    anomalies()
}

fn tclone(t: &T) -> T {
    match t {
        T::M(m) => T::M(m.clone()),
        T::S(m) => T::S(m.clone()),
        T::T(m) => T::T(m.clone()),
    }
}
fn tclone_from(t: &mut T, s: &T) {
    match (t, s) {
        (T::M(a), T::M(b)) => a.clone_from(b),
        (T::S(a), T::S(b)) => a.clone_from(b),
        (T::T(a), T::T(b)) => a.clone_from(b),
        _ => unreachable!(),
    }
}

fn table_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let kind = case.rng.below(3);
    let n = *case.rng.pick(&[3usize, 8, 20, 60, 120]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let per = if kind == 1 { 1 } else { 2 };
    let p = TProfile { grow: 4, target_len: n, bulk: 2, cap: 2 };
    fn run(case: &mut Case, kind: u64, gen: &mut Gen, t: &mut T, md: &mut Model, steps: u64, p: &TProfile, vm: &mut Vm, g: &mut Gl) -> Verdict {
        for _ in 0..steps {
            let mut r = case.rng.clone();
            let op = tabm::gen_op(gen, &mut r, kind, md, p);
            case.rng = r;
            tabm::step(case, kind, t, md, &op, vm, g)?;
        }
        Ok(())
    }
    let f = |w: &'static str| move |e: vh::Violation| vh::Violation(format!("{w}: {}", e.0));
    let mut a = T::new(kind, case.rng.us(30));
    let mut ma: Model = vec![];
    let steps = if case.slow { 8 } else { case.rng.range(0, 80) };
    run(case, kind, &mut gen, &mut a, &mut ma, steps, &p, vm, g)?;
    let mut mb: Model = vec![];
    let from = case.rng.chance(2, 3);
    let mut b = if from {
        let mut b = T::new(kind, case.rng.us(60));
        let steps = if case.slow { 8 } else { case.rng.range(0, 80) };
        run(case, kind, &mut gen, &mut b, &mut mb, steps, &p, vm, g)?;
        case.count("table_clone_from");
        tclone_from(&mut b, &a);
        b
    } else {
        case.count("table_clones");
        tclone(&a)
    };
    veq!(vh::ledger::live(), 2 * per * ma.len() as u64, "elements alive after cloning {} over {}", ma.len(), mb.len());
    mb = ma.clone();
    case.sig((ma.len() as u64) << 20 | (kind) << 10 | n as u64);
    case.nontrivial();
    for _ in 0..case.rng.range(1, 6) {
        tabm::check_contents(&a, &ma).map_err(f("source"))?;
        tabm::check_contents(&b, &mb).map_err(f("clone"))?;
        tabm::check_lookups(&a, &ma, &gen.uni, vm, g).map_err(f("source"))?;
        tabm::check_lookups(&b, &mb, &gen.uni, vm, g).map_err(f("clone"))?;
        anomalies()?;
        let steps = if case.slow { 3 } else { case.rng.range(1, 25) };
        if case.rng.chance(1, 2) {
            run(case, kind, &mut gen, &mut a, &mut ma, steps, &p, vm, g)?;
        } else {
            run(case, kind, &mut gen, &mut b, &mut mb, steps, &p, vm, g)?;
        }
        case.count("independent_rounds");
        veq!(vh::ledger::live(), per * (ma.len() + mb.len()) as u64, "elements alive");
    }
    drop(b);
    tabm::check_contents(&a, &ma).map_err(f("source after its clone was dropped"))?;
    tabm::check_lookups(&a, &ma, &gen.uni, vm, g).map_err(f("source after its clone was dropped"))?;
    drop(a);
    veq!(vh::ledger::live(), 0, "elements alive after both were dropped");
    anomalies()
}

/// The content of a container as equality sees it.
type Content = std::collections::BTreeMap<(u32, u64), u64>;
fn content(md: &Model) -> Content {
    md.iter().map(|e| ((e.core.val, e.core.h), e.v)).collect()
}

/// A pile of same/similar contents reached by different histories.
fn variant(case: &mut Case, gen: &mut Gen, base: &Model, how: u64) -> (Model, usize) {
    let mut md = base.clone();
    let cap = if case.rng.chance(1, 2) { 0 } else { case.rng.us(60) };
    match how {
        0 => {}
        1 => case.rng.shuffle(&mut md),
        2 if !md.is_empty() => {
            let i = case.rng.us(md.len());
            md[i].v += 1;
        }
        3 if !md.is_empty() => {
            let i = case.rng.us(md.len());
            md.remove(i);
        }
        4 => {
            let absent: Vec<Core> = gen.uni.cores.iter().copied().filter(|c| pos(&md, c).is_none()).collect();
            if !absent.is_empty() {
                md.push(Ent { core: *case.rng.pick(&absent), tag: gen.fresh(), v: gen.fresh() });
            }
        }
        5 if !md.is_empty() => {
            // replace one key by another, same size
            let absent: Vec<Core> = gen.uni.cores.iter().copied().filter(|c| pos(&md, c).is_none()).collect();
            if !absent.is_empty() {
                let i = case.rng.us(md.len());
                md[i].core = *case.rng.pick(&absent);
            }
        }
        6 if !md.is_empty() => {
            // another key object with the same identity
            let i = case.rng.us(md.len());
            md[i].tag += 1000;
        }
        7 if md.len() > 1 => {
            // exchange two values
            let (i, j) = (case.rng.us(md.len()), case.rng.us(md.len()));
            let t = md[i].v;
            md[i].v = md[j].v;
            md[j].v = t;
        }
        _ => case.rng.shuffle(&mut md),
    }
    (md, cap)
}

fn detour(case: &mut Case, gen: &Gen, md: &Model) -> Vec<KV> {
    // keys inserted first and removed again: a different history, same content
    let extra = *case.rng.pick(&[0usize, 0, 3, 12, 40]);
    gen.uni.cores.iter().filter(|c| pos(md, c).is_none()).take(extra).map(|c| KV(*c, 1, 1)).collect()
}

fn eq_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[4usize, 10, 24, 70]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let k = case.rng.us(n + 1);
    let mut cores = gen.uni.cores.clone();
    case.rng.shuffle(&mut cores);
    let base: Model = cores.iter().take(k).map(|c| Ent { core: *c, tag: gen.fresh(), v: gen.fresh() }).collect();
    let how = case.rng.below(9);
    let (md, cap) = variant(case, &mut gen, &base, how);
    let kind = case.rng.below(4);
    let same = content(&base) == content(&md);
    let same_keys = content(&base).keys().eq(content(&md).keys());
    case.op(|| format!("equality kind {kind}: {base:?} vs {md:?}"));
    let (d1, d2) = (detour(case, &gen, &base), detour(case, &gen, &md));
    case.sig(kind << 32 | how << 24 | (k as u64) << 8 | cap as u64);
    case.nontrivial();
    case.count(if same { "equal_pairs" } else { "unequal_pairs" });
    macro_rules! build {
        ($t:ident, $md:expr, $d:expr, $cap:expr, $ins:expr, $rm:expr) => {{
            let mut c = $cap;
            for x in $d {
                ($ins)(&mut c, K::new(x.0, x.1), V::new(x.2), vm, g);
            }
            let half = $md.len() / 2;
            for e in &$md[..half] {
                ($ins)(&mut c, K::new(e.core, e.tag), V::new(e.v), vm, g);
            }
            for x in $d {
                ($rm)(&mut c, &x.0, vm, g);
            }
            for e in &$md[half..] {
                ($ins)(&mut c, K::new(e.core, e.tag), V::new(e.v), vm, g);
            }
            c
        }};
    }
    macro_rules! judge {
        ($a:expr, $b:expr, $want:expr) => {{
            let (a, b) = (&$a, &$b);
            for (x, y, w) in [(a, b, $want), (b, a, $want), (a, a, true), (b, b, true)] {
                match vh::catch(|| x.eql(y, vm, g)) {
                    Ok(Ok(r)) => veq!(r, w, "eql? of kind {kind} ({how}): {base:?} vs {md:?}"),
                    o => vbail!("eql?: {o:?}"),
                }
            }
            let c = (*a).clone();
            match vh::catch(|| c.eql(a, vm, g)) {
                Ok(Ok(true)) => {}
                o => vbail!("a clone is not eql? to its source: {o:?} ({base:?})"),
            }
        }};
    }
    match kind {
        0 => {
            case.count("eq_map");
            let ins = |c: &mut DM, k: K, v: V, vm: &mut Vm, g: &mut Gl| drop(c.insert(k, v, vm, g).unwrap());
            let rm = |c: &mut DM, k: &Core, vm: &mut Vm, g: &mut Gl| drop(c.swap_remove(k, vm, g).unwrap());
            let a = build!(DM, base, &d1, DM::with_capacity(0), ins, rm);
            let b = build!(DM, md, &d2, DM::with_capacity(cap), ins, rm);
            judge!(a, b, same);
            let mut d = b;
            d.clone_from(&a);
            vcheck!(d.eql(&a, vm, g) == Ok(true), "cloned-into map is not eql? to its source ({base:?})");
        }
        1 => {
            case.count("eq_set");
            let ins = |c: &mut DS, k: K, _: V, vm: &mut Vm, g: &mut Gl| drop(c.insert(k, vm, g).unwrap());
            let rm = |c: &mut DS, k: &Core, vm: &mut Vm, g: &mut Gl| drop(c.swap_remove(k, vm, g).unwrap());
            let a = build!(DS, base, &d1, DS::with_capacity(0), ins, rm);
            let b = build!(DS, md, &d2, DS::with_capacity(cap), ins, rm);
            judge!(a, b, same_keys);
            set_clone(case, a, b, &base, &md, vm, g)?;
        }
        2 => {
            case.count("eq_umap");
            let ins = |c: &mut HM, k: K, v: V, vm: &mut Vm, g: &mut Gl| drop(c.insert(k, v, vm, g).unwrap());
            let rm = |c: &mut HM, k: &Core, vm: &mut Vm, g: &mut Gl| drop(c.remove(k, vm, g).unwrap());
            let a = build!(HM, base, &d1, HM::with_capacity_and_hasher(0, Bh), ins, rm);
            let b = build!(HM, md, &d2, HM::with_capacity_and_hasher(cap, Bh), ins, rm);
            judge!(a, b, same);
        }
        _ => {
            case.count("eq_uset");
            let ins = |c: &mut HS, k: K, _: V, vm: &mut Vm, g: &mut Gl| drop(c.insert(k, vm, g).unwrap());
            let rm = |c: &mut HS, k: &Core, vm: &mut Vm, g: &mut Gl| drop(c.remove(k, vm, g).unwrap());
            let a = build!(HS, base, &d1, HS::with_capacity_and_hasher(0, Bh), ins, rm);
            let b = build!(HS, md, &d2, HS::with_capacity_and_hasher(cap, Bh), ins, rm);
            judge!(a, b, same_keys);
        }
    }
    veq!(vh::ledger::live(), 0, "elements alive after the equality case");
    anomalies()
}

fn check_ds(s: &DS, want: &[Ent], what: &str, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let got: Vec<(Core, u64)> = s.iter().map(|k| (k.core, k.tag)).collect();
    let exp: Vec<(Core, u64)> = want.iter().map(|e| (e.core, e.tag)).collect();
    veq!(got, exp, "{what}: elements");
    for (i, e) in want.iter().enumerate() {
        veq!(s.get_index_of(&e.core, vm, g), Ok(Some(i)), "{what}: position of {:?}", e.core);
    }
    Ok(())
}

/// Ordered set: clone and clone_from, then both sides change.
fn set_clone(case: &mut Case, mut a: DS, mut b: DS, base: &Model, md: &Model, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let order = |s: &DS| -> Vec<Ent> { s.iter().map(|k| Ent { core: k.core, tag: k.tag, v: 0 }).collect() };
    let _ = (base, md);
    let ea = order(&a);
    if case.rng.chance(1, 2) {
        b.clone_from(&a);
    } else {
        b = a.clone();
    }
    case.count("set_clones");
    veq!(vh::ledger::live(), 2 * ea.len() as u64, "elements alive after cloning a set of {}", ea.len());
    check_ds(&b, &ea, "cloned set", vm, g)?;
    let mut eb = ea.clone();
    let mut ea = ea;
    for i in 0..case.rng.range(1, 20) {
        let left = case.rng.chance(1, 2);
        let (s, e) = if left { (&mut a, &mut ea) } else { (&mut b, &mut eb) };
        if case.rng.chance(1, 2) && !e.is_empty() {
            let j = case.rng.us(e.len());
            let c = e[j].core;
            if case.rng.chance(1, 2) {
                e.remove(j);
                veq!(s.shift_remove(&c, vm, g), Ok(true), "removal");
            } else {
                e.swap_remove(j);
                veq!(s.swap_remove(&c, vm, g), Ok(true), "removal");
            }
        } else {
            let c = Core { val: 5000 + i as u32, h: i };
            e.push(Ent { core: c, tag: i, v: 0 });
            veq!(s.insert(K::new(c, i), vm, g), Ok(true), "insertion");
        }
        check_ds(&a, &ea, "source set", vm, g)?;
        check_ds(&b, &eb, "cloned set", vm, g)?;
    }
    drop(a);
    check_ds(&b, &eb, "cloned set after its source was dropped", vm, g)
}

/// `==` on containers of built-in keys.
fn builtin_eq(case: &mut Case) -> Verdict {
    let n = case.rng.us(40) as u32;
    let uni = n + 1 + case.rng.us(20) as u32;
    let (e, g) = (&mut (), &mut ());
    let mut keys: Vec<u32> = (0..uni).collect();
    case.rng.shuffle(&mut keys);
    let a: Vec<(u32, u32)> = keys.iter().take(n as usize).map(|k| (*k, k * 3)).collect();
    let mut b = a.clone();
    case.rng.shuffle(&mut b);
    match case.rng.below(5) {
        0 if n > 0 => b[0].1 += 1,
        1 if n > 0 => b[0].0 = *keys.last().unwrap(),
        2 if n > 0 => drop(b.pop()),
        _ => {}
    }
    let c = |v: &Vec<(u32, u32)>| v.iter().copied().collect::<std::collections::BTreeMap<_, _>>();
    let ck = |v: &Vec<(u32, u32)>| v.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>();
    let (same, samek) = (c(&a) == c(&b), ck(&a) == ck(&b));
    let s = |x: u32| format!("key {x}");
    let mk_m = |v: &[(u32, u32)], cap| -> RubyMap<String, u32, (), (), ()> {
        let mut m = RubyMap::with_capacity(cap);
        v.iter().for_each(|(k, x)| drop(m.insert(s(*k), *x, &mut (), &mut ())));
        m
    };
    let mk_s = |v: &[(u32, u32)], cap| -> RubySet<u32, (), (), ()> {
        let mut m = RubySet::with_capacity(cap);
        v.iter().for_each(|(k, _)| drop(m.insert(*k, &mut (), &mut ())));
        m
    };
    let cap = case.rng.us(50);
    let (x, y) = (mk_m(&a, 0), mk_m(&b, cap));
    veq!((x == y, y == x, x == x.clone()), (same, same, true), "== of ordered maps {a:?} {b:?}");
    veq!(x.eql(&y, e, g), Ok(same), "eql? of ordered maps");
    let (x, y) = (mk_s(&a, 0), mk_s(&b, cap));
    veq!((x == y, y == x, x == x.clone()), (samek, samek, true), "== of ordered sets {a:?} {b:?}");
    let mut hx: HashMap<u32, u32, (), (), ()> = HashMap::new();
    let mut hy: HashMap<u32, u32, (), (), ()> = HashMap::with_capacity(cap);
    let mut sx: HashSet<u32, (), (), ()> = HashSet::new();
    let mut sy: HashSet<u32, (), (), ()> = HashSet::with_capacity(cap);
    for (k, v) in &a {
        hx.insert(*k, *v, e, g).unwrap();
        sx.insert(*k, e, g).unwrap();
    }
    for (k, v) in &b {
        hy.insert(*k, *v, e, g).unwrap();
        sy.insert(*k, e, g).unwrap();
    }
    veq!((hx == hy, hy == hx, hx == hx.clone()), (same, same, true), "== of unordered maps {a:?} {b:?}");
    veq!((sx == sy, sy == sx, sx == sx.clone()), (samek, samek, true), "== of unordered sets {a:?} {b:?}");
    case.count("builtin_equality");
    case.count(if same { "equal_pairs" } else { "unequal_pairs" });
    case.sig((n as u64) << 32 | b.first().map(|x| x.0).unwrap_or(0) as u64);
    case.nontrivial();
    Ok(())
}

/// Views onto parts of ordered containers compare as the sequences they show.
fn slice_eq(case: &mut Case) -> Verdict {
    let n = case.rng.us(12) as u32;
    let mut a: Vec<(u32, u32)> = (0..n).map(|k| (k, case.rng.below(2) as u32)).collect();
    case.rng.shuffle(&mut a);
    let mut b = a.clone();
    match case.rng.below(6) {
        0 if n > 0 => {
            let i = case.rng.us(b.len());
            b[i].1 ^= 1;
        }
        1 if n > 0 => {
            let i = case.rng.us(b.len());
            b[i].0 = n;
        }
        2 if n > 0 => drop(b.pop()),
        3 => case.rng.shuffle(&mut b),
        _ => {}
    }
    let mk_m = |v: &[(u32, u32)]| -> RubyMap<u32, u32, (), (), ()> {
        let mut m = RubyMap::new();
        v.iter().for_each(|(k, x)| drop(m.insert(*k, *x, &mut (), &mut ())));
        m
    };
    let mk_s = |v: &[(u32, u32)]| -> RubySet<u32, (), (), ()> {
        let mut m = RubySet::new();
        v.iter().for_each(|(k, _)| drop(m.insert(*k, &mut (), &mut ())));
        m
    };
    let (ma, mb, sa, sb) = (mk_m(&a), mk_m(&b), mk_s(&a), mk_s(&b));
    let whole = case.rng.chance(1, 2);
    let part = |case: &mut Case, n: usize| {
        let (i, j) = (case.rng.us(n + 1), case.rng.us(n + 1));
        if whole { 0..n } else { i.min(j)..i.max(j) }
    };
    let ra = part(case, a.len());
    let rb = if b.len() >= ra.end && case.rng.chance(2, 3) { ra.clone() } else { part(case, b.len()) };
    let (va, vb) = (&a[ra.clone()], &b[rb.clone()]);
    let (x, y) = (&ma.as_slice()[ra.clone()], &mb.as_slice()[rb.clone()]);
    let what = format!("views of {va:?} and {vb:?}");
    let same = va == vb;
    veq!((x == y, y == x), (same, same), "== of {what}");
    veq!((x == vb, va == y), (same, same), "== with plain sequences, {what}");
    if let Ok(w) = <[(u32, u32); 2]>::try_from(vb) {
        veq!((*x == w, w == *x), (same, same), "== with plain pairs, {what}");
    }
    veq!((x.cmp(y), x.partial_cmp(y)), (va.cmp(vb), va.partial_cmp(vb)), "order of {what}");
    let digest = |s: &rubymap::map::Slice<u32, u32>| {
        let mut h = std::hash::DefaultHasher::new();
        std::hash::Hash::hash(s, &mut h);
        std::hash::Hasher::finish(&h)
    };
    veq!(digest(x) == digest(y), same, "equality of the hashes of {what}");
    let keys = |v: &[(u32, u32)]| v.iter().map(|x| x.0).collect::<Vec<_>>();
    let (ka, kb) = (keys(va), keys(vb));
    let (x, y) = (&sa.as_slice()[ra], &sb.as_slice()[rb]);
    let same = ka == kb;
    veq!((x == y, y == x), (same, same), "== of set {what}");
    veq!((*x == kb[..], ka[..] == *y), (same, same), "== of sets with plain sequences, {what}");
    if let Ok(w) = <[u32; 2]>::try_from(&kb[..]) {
        veq!((*x == w, w == *x), (same, same), "== of sets with plain pairs, {what}");
    }
    veq!((x.cmp(y), x.partial_cmp(y)), (ka.cmp(&kb), ka.partial_cmp(&kb)), "order of set {what}");
    let digest = |s: &rubymap::set::Slice<u32>| {
        let mut h = std::hash::DefaultHasher::new();
        std::hash::Hash::hash(s, &mut h);
        std::hash::Hasher::finish(&h)
    };
    veq!(digest(x) == digest(y), same, "equality of the hashes of set {what}");
    case.count(if same { "equal_views" } else { "unequal_views" });
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    Ok(())
}

fn main() {
    vh::main_loop("c13", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let sel = case.rng.below(11);
        case.sample = Some(format!("clone/equality case kind {sel}"));
        match sel {
            0..=2 => map_case(case, &mut vm, &mut g),
            3..=5 => table_case(case, &mut vm, &mut g),
            6..=8 => eq_case(case, &mut vm, &mut g),
            9 => builtin_eq(case),
            _ => slice_eq(case),
        }
    })
}
