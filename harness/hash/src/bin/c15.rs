//! C15: panics in user code (callbacks, comparators, predicates, clones, drops, closures) are
//! injected at every reachable moment; afterwards the container must be consistent and usable.
use hash::mapm::{self, anomalies, Ent, Gen, Model, Op, Profile, M};
use hash::setm::{self, S};
use hash::tabm::{self, TProfile, T};
use hash::*;
use vh::{vbail, veq, Case, Rng, Verdict};

/// What may happen to be inside a container after a panic: anything it held before or
/// was being given, at most once per key.
fn no_duplicates(now: &Model) -> Verdict {
    for (i, e) in now.iter().enumerate() {
        if now[..i].iter().any(|x| x.core == e.core) {
            vbail!("key {:?} is in the container twice: {now:?}", e.core);
        }
    }
    Ok(())
}
fn dump_map(m: &M) -> Model {
    m.iter().map(|(k, v)| Ent { core: k.core, tag: k.tag, v: v.v }).collect()
}
fn dump_set(s: &S) -> Model {
    s.iter().map(|k| Ent { core: k.core, tag: k.tag, v: 0 }).collect()
}

/// Run `f` once with a panic armed at the n-th user moment; true if it fired.
fn armed<R>(kind: u64, at: i64, f: impl FnOnce() -> R) -> (bool, Result<R, (String, String)>) {
    let before = vh::ledger::fired();
    if kind == 0 {
        vh::ledger::arm_user(at);
    } else {
        vh::ledger::arm_drop(at);
    }
    let r = vh::catch(f);
    vh::ledger::arm_user(-1);
    vh::ledger::arm_drop(-1);
    (vh::ledger::fired() > before, r)
}
fn moment(r: &mut Rng) -> (u64, i64) {
    let at = match r.below(4) {
        0 => r.below(3),
        1 | 2 => r.below(12),
        _ => r.below(80),
    };
    ((r.chance(1, 3)) as u64, at as i64)
}

/// Everything the public interface says about the map must agree.
fn consistent_map(m: &M, uni: &Universe, vm: &mut Vm, g: &mut Gl) -> Result<Model, vh::Violation> {
    let now = vh::catch(|| dump_map(m)).map_err(|(l, e)| vh::Violation(format!("iteration panicked: {e} at {l}")))?;
    veq!(m.len(), now.len(), "reported length");
    veq!(m.is_empty(), now.is_empty(), "reported emptiness");
    no_duplicates(&now)?;
    for (k, v) in m.iter() {
        k.touch();
        v.touch();
    }
    anomalies()?;
    for (i, e) in now.iter().enumerate() {
        match vh::catch(|| m.get_full(&e.core, vm, g).map(|r| r.map(|(i, k, v)| (i, k.tag, v.v)))) {
            Ok(r) => veq!(r, Ok(Some((i, e.tag, e.v))), "lookup of the key at position {i} of {}", now.len()),
            Err((l, x)) => vbail!("lookup of the key at position {i} panicked: {x} at {l}"),
        }
    }
    for c in uni.cores.iter().filter(|c| !now.iter().any(|e| e.core == **c)) {
        match vh::catch(|| m.get_index_of(c, vm, g)) {
            Ok(r) => veq!(r, Ok(None), "lookup of a key that iteration does not yield"),
            Err((l, x)) => vbail!("lookup of an absent key panicked: {x} at {l}"),
        }
    }
    Ok(now)
}
fn consistent_set(s: &S, uni: &Universe, vm: &mut Vm, g: &mut Gl) -> Result<Model, vh::Violation> {
    let now = vh::catch(|| dump_set(s)).map_err(|(l, e)| vh::Violation(format!("iteration panicked: {e} at {l}")))?;
    veq!(s.len(), now.len(), "reported length");
    no_duplicates(&now)?;
    for k in s.iter() {
        k.touch();
    }
    anomalies()?;
    for (i, e) in now.iter().enumerate() {
        match vh::catch(|| s.get_index_of(&e.core, vm, g)) {
            Ok(r) => veq!(r, Ok(Some(i)), "lookup of the element at position {i} of {}", now.len()),
            Err((l, x)) => vbail!("lookup of the element at position {i} panicked: {x} at {l}"),
        }
    }
    for c in uni.cores.iter().filter(|c| !now.iter().any(|e| e.core == **c)) {
        match vh::catch(|| s.get_index_of(c, vm, g)) {
            Ok(r) => veq!(r, Ok(None), "lookup of an element that iteration does not yield"),
            Err((l, x)) => vbail!("lookup of an absent element panicked: {x} at {l}"),
        }
    }
    Ok(now)
}
fn consistent_tab(t: &T, uni: &Universe, vm: &mut Vm, g: &mut Gl) -> Result<Model, vh::Violation> {
    let now = vh::catch(|| t.dump()).map_err(|(l, e)| vh::Violation(format!("iteration panicked: {e} at {l}")))?;
    anomalies()?;
    veq!(t.len(), now.len(), "reported length");
    no_duplicates(&now)?;
    for c in &uni.cores {
        let want = now.iter().find(|e| e.core == *c).map(|e| e.tag);
        match vh::catch(|| tabm::lookup(t, c, vm, g)) {
            Ok(r) => veq!(r, Ok(want), "lookup of {c:?} against what iteration yields"),
            Err((l, x)) => vbail!("lookup of {c:?} panicked: {x} at {l}"),
        }
    }
    Ok(now)
}

/// Contents may only come from before or from what the operation brought.
fn plausible(now: &Model, before: &Model, after: &Model, what: &dyn std::fmt::Debug) -> Verdict {
    for e in now {
        let known = before.iter().chain(after).any(|x| x.core == e.core);
        if !known {
            vbail!("{what:?} interrupted by a panic left {e:?}, a key neither held before nor inserted");
        }
    }
    Ok(())
}

fn map_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[6usize, 10, 14, 30, 60]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let target = *case.rng.pick(&[5usize, 8, 9, 12, 30, 50]);
    let p = Profile { dict: 8, positional: 6, entry: 8, bulk: 8, cap: 2, grow: 5, target_len: target, check_every: 1 };
    let mut m = M::with_capacity_and_hasher(case.rng.us(14), Bh);
    let mut md: Model = vec![];
    for x in gen.prefill(&mut case.rng, target) {
        mapm::step(case, &mut m, &mut md, &Op::Insert(x), vm, g)?;
    }
    let steps = if case.slow { 6 } else { case.rng.range(8, 50) };
    for _ in 0..steps {
        let mut r = case.rng.clone();
        let op = gen.op(&mut r, &md, &p);
        case.rng = r;
        let (kind, at) = moment(&mut case.rng);
        if !case.rng.chance(2, 3) {
            mapm::step(case, &mut m, &mut md, &op, vm, g)?;
            continue;
        }
        case.op(|| format!("{} panic at user moment {at} of {op:?}", ["callback", "drop"][kind as usize]));
        let mut after = md.clone();
        let _ = mapm::model(&mut after, &op);
        let (fired, r) = armed(kind, at, || mapm::real(&mut m, &op, vm, g).is_err());
        if !fired {
            match r {
                Ok(false) => {}
                r => vbail!("{op:?}: {r:?}"),
            }
            md = after;
            mapm::check_contents(&m, &md)?;
            anomalies()?;
            continue;
        }
        case.count(["callback_panics", "drop_panics"][kind as usize]);
        case.count(op.name());
        if matches!(op, Op::Retain(..) | Op::RetainWrite(..)) {
            case.count("retain_panics");
        }
        case.count(if md.len() > 8 { "panicked_above_8" } else { "panicked_upto_8" });
        case.sig(at as u64 ^ (op.name().len() as u64) << 8 ^ (md.len() as u64) << 16);
        anomalies()?;
        let now = match consistent_map(&m, &gen.uni, vm, g) {
            Ok(n) => n,
            Err(v) => vbail!("{op:?} interrupted by a panic ({} moment {at}): {}", ["callback", "drop"][kind as usize], v.0),
        };
        plausible(&now, &md, &after, &op)?;
        md = now;
        case.nontrivial();
    }
    drop(m);
    anomalies()?;
    case.count("map_histories");
    Ok(())
}

/// Two containers take part: cloning into, appending to or splitting from one another.
fn pair_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[6usize, 14, 30, 60]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let (a, b) = (case.rng.us(n), case.rng.us(n));
    let mut fill = |r: &mut Rng, k: usize| {
        let mut v = gen.prefill(r, k);
        r.shuffle(&mut v);
        v
    };
    let (xs, ys) = (fill(&mut case.rng, a), fill(&mut case.rng, b));
    let rm = case.rng.us(4);
    let (kind, at) = moment(&mut case.rng);
    let at = at.min(2 * (a + b) as i64 + 2);
    let which = case.rng.below(7);
    case.op(|| format!("pair {which} of {a} and {b} elements, {kind}@{at}"));
    let cap = case.rng.us(40);
    case.sig(which ^ (a as u64) << 8 ^ (b as u64) << 16 ^ (at as u64) << 24 ^ kind << 40 ^ gen.uni.policy << 44 ^ (rm as u64) << 50);
    let build_m = |xs: &[mapm::KV], cap: usize, vm: &mut Vm, g: &mut Gl| -> Result<M, vh::Violation> {
        let mut m = M::with_capacity_and_hasher(cap, Bh);
        for x in xs {
            if m.insert(K::new(x.0, x.1), V::new(x.2), vm, g).is_err() {
                vbail!("insert failed");
            }
        }
        for _ in 0..rm {
            let _ = m.swap_remove_index(0, vm, g);
        }
        Ok(m)
    };
    let build_t = |xs: &[mapm::KV], cap: usize, kind: u64, vm: &mut Vm, g: &mut Gl| -> T {
        let mut t = T::new(kind, cap);
        for x in xs {
            let _ = tabm::real(&mut t, &if kind == 2 { tabm::TOp::InsertUnique(x.clone()) } else { tabm::TOp::Insert(x.clone()) }, vm, g);
        }
        for x in xs.iter().take(rm) {
            let _ = tabm::real(&mut t, &tabm::TOp::Remove(x.0), vm, g);
        }
        t
    };
    let dup_free = |xs: &[mapm::KV]| -> Vec<mapm::KV> {
        let mut o: Vec<mapm::KV> = vec![];
        for x in xs {
            if !o.iter().any(|y| y.0 == x.0) {
                o.push(x.clone());
            }
        }
        o
    };
    match which {
        0..=2 => {
            let mut m = build_m(&xs, 0, vm, g)?;
            let mut o = build_m(&ys, cap, vm, g)?;
            let whole = dump_map(&o);
            let (fired, _) = armed(kind, at, || match which {
                0 => {
                    m.clone_from(&o);
                    true
                }
                1 => m.append(&mut o, vm, g).is_ok(),
                _ => {
                    let at = m.len() / 2;
                    m.split_off(at, vm, g).is_ok()
                }
            });
            anomalies()?;
            if fired {
                case.count(["pair_clone_from", "pair_append", "pair_split"][which as usize]);
                case.nontrivial();
            }
            for (x, nm) in [(&m, "destination"), (&o, "source")] {
                if let Err(v) = consistent_map(x, &gen.uni, vm, g) {
                    vbail!("ordered maps of {a} and {b} elements, {} interrupted by a panic at {kind}@{at}: {nm}: {}", ["clone_from", "append", "split_off"][which as usize], v.0);
                }
            }
            if which == 0 {
                veq!(dump_map(&o), whole, "source of a clone");
                if !fired {
                    veq!(dump_map(&m), whole, "completed clone");
                }
            }
            // still usable
            m.clone_from(&o);
            veq!(consistent_map(&m, &gen.uni, vm, g)?, dump_map(&o), "clone after the panic");
        }
        3 => {
            let mk = |xs: &[mapm::KV], vm: &mut Vm, g: &mut Gl| {
                let mut s = S::with_hasher(Bh);
                for x in xs {
                    let _ = s.insert(K::new(x.0, x.1), vm, g);
                }
                s
            };
            let mut s = mk(&xs, vm, g);
            let mut o = mk(&ys, vm, g);
            let app = case.rng.chance(1, 2);
            let (fired, _) = armed(kind, at, || {
                if app {
                    let _ = s.append(&mut o, vm, g);
                } else {
                    s.retain(|k| {
                        k.touch();
                        k.tag % 3 != 1
                    })
                }
            });
            anomalies()?;
            if fired {
                case.count("pair_set");
                case.nontrivial();
            }
            for (x, nm) in [(&s, "destination"), (&o, "source")] {
                if let Err(v) = consistent_set(x, &gen.uni, vm, g) {
                    vbail!("ordered sets of {a} and {b} elements, {} interrupted by a panic at {kind}@{at}: {nm}: {}", if app { "append" } else { "retain" }, v.0);
                }
            }
        }
        _ => {
            let tk = which - 4;
            let (xs, ys) = (dup_free(&xs), dup_free(&ys));
            let mut t = build_t(&xs, 0, tk, vm, g);
            let o = build_t(&ys, cap, tk, vm, g);
            let whole = tabm::sorted(o.dump());
            let (fired, _) = armed(kind, at, || match (&mut t, &o) {
                (T::M(t), T::M(o)) => t.clone_from(o),
                (T::S(t), T::S(o)) => t.clone_from(o),
                (T::T(t), T::T(o)) => t.clone_from(o),
                _ => {}
            });
            anomalies()?;
            if fired {
                case.count("pair_table_clone_from");
                case.nontrivial();
            }
            if let Err(v) = consistent_tab(&t, &gen.uni, vm, g) {
                vbail!("unordered containers of {a} and {b} elements, clone_from interrupted by a panic at {kind}@{at}: {}", v.0);
            }
            if !fired {
                veq!(tabm::sorted(t.dump()), whole, "completed clone");
            }
            veq!(tabm::sorted(consistent_tab(&o, &gen.uni, vm, g)?), whole, "source of a clone");
            for x in &xs {
                let _ = tabm::real(&mut t, &tabm::TOp::Remove(x.0), vm, g);
                let _ = tabm::real(&mut t, &if tk == 2 { tabm::TOp::InsertUnique(x.clone()) } else { tabm::TOp::Insert(x.clone()) }, vm, g);
            }
            consistent_tab(&t, &gen.uni, vm, g)?;
        }
    }
    anomalies()
}

/// A table full of tombstones whose rehash is interrupted by a panicking hasher.
fn rehash_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[20usize, 60, 200]);
    let uni = Universe::gen_sized(&mut case.rng, n);
    let gen = Gen::new(uni);
    let kind = case.rng.below(3);
    let mut t = T::new(kind, case.rng.us(n));
    let keep = case.rng.range(1, 6);
    for (i, c) in gen.uni.cores.iter().enumerate() {
        let kv = mapm::KV(*c, i as u64, i as u64);
        let _ = tabm::real(&mut t, &if kind == 2 { tabm::TOp::InsertUnique(kv) } else { tabm::TOp::Insert(kv) }, vm, g);
    }
    for (i, c) in gen.uni.cores.iter().enumerate() {
        if i as u64 % 6 >= keep {
            let _ = tabm::real(&mut t, &tabm::TOp::Remove(*c), vm, g);
        }
    }
    let mut md = consistent_tab(&t, &gen.uni, vm, g)?;
    let rounds = case.rng.range(1, 6);
    for _ in 0..rounds {
        let at = case.rng.below(2 * md.len() as u64 + 2) as i64;
        let room = t.capacity() - t.len();
        let op = match case.rng.below(4) {
            0 => tabm::TOp::ShrinkToFit,
            1 => tabm::TOp::ShrinkTo(t.len() + case.rng.us(10)),
            2 => tabm::TOp::Reserve(room + 1 + case.rng.us(n)),
            _ => tabm::TOp::Reserve(1 + case.rng.us(room + 1)),
        };
        case.op(|| format!("{op:?} with a panic at {at}"));
        let (fired, _) = armed(0, at, || tabm::real(&mut t, &op, vm, g).is_ok());
        anomalies()?;
        let now = match consistent_tab(&t, &gen.uni, vm, g) {
            Ok(x) => x,
            Err(v) => vbail!("{op:?} on {} elements interrupted at {at}: {}", md.len(), v.0),
        };
        if fired {
            case.count("rehash_panics");
            case.nontrivial();
            if now.len() < md.len() {
                case.count("rehash_lost_elements");
            }
            plausible(&now, &md, &md, &op)?;
        } else {
            veq!(tabm::sorted(now.clone()), tabm::sorted(md.clone()), "contents after {op:?}");
        }
        case.sig(at as u64 ^ (now.len() as u64) << 16 ^ kind << 32);
        md = now;
        for c in gen.uni.cores.iter().take(case.rng.us(n)) {
            if md.iter().all(|e| e.core != *c) {
                let kv = mapm::KV(*c, 7, 7);
                let _ = tabm::real(&mut t, &if kind == 2 { tabm::TOp::InsertUnique(kv) } else { tabm::TOp::Insert(kv) }, vm, g);
            }
        }
        md = consistent_tab(&t, &gen.uni, vm, g)?;
    }
    drop(t);
    anomalies()
}

fn set_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[6usize, 14, 30]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let target = *case.rng.pick(&[5usize, 9, 12, 25]);
    let mut s = S::with_capacity_and_hasher(case.rng.us(14), Bh);
    let mut md: Model = vec![];
    let steps = if case.slow { 10 } else { case.rng.range(20, 70) };
    for i in 0..steps {
        let mut r = case.rng.clone();
        let op = setm::gen_op(&mut gen, &mut r, &md, target, 6);
        case.rng = r;
        let (kind, at) = moment(&mut case.rng);
        let inject = i > target as u64 && case.rng.chance(1, 2);
        case.op(|| format!("{inject} {kind}@{at} {op:?}"));
        let mut after = md.clone();
        let want = setm::model(&mut after, &op);
        if !inject {
            match vh::catch(|| setm::real(&mut s, &op, vm, g)) {
                Ok(Ok(o)) if o == want => {}
                o => vbail!("{op:?}: {o:x?}, expected {want:x?}"),
            }
            md = after;
            setm::check_contents(&s, &md)?;
            continue;
        }
        let (fired, r) = armed(kind, at, || setm::real(&mut s, &op, vm, g).is_err());
        if !fired {
            match r {
                Ok(false) => {}
                r => vbail!("{op:?}: {r:?}"),
            }
            md = after;
            setm::check_contents(&s, &md)?;
            continue;
        }
        case.count("set_panics");
        case.sig(at as u64 ^ (op.name().len() as u64) << 8 ^ (md.len() as u64) << 16 ^ 1 << 40);
        anomalies()?;
        let now = match consistent_set(&s, &gen.uni, vm, g) {
            Ok(n) => n,
            Err(v) => vbail!("{op:?} interrupted by a panic ({} moment {at}): {}", ["callback", "drop"][kind as usize], v.0),
        };
        plausible(&now, &md, &after, &op)?;
        md = now;
        case.nontrivial();
    }
    drop(s);
    anomalies()
}

fn table_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let kind = case.rng.below(3);
    let n = *case.rng.pick(&[6usize, 14, 30, 120]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let target = *case.rng.pick(&[4usize, 10, 25, 60]);
    let p = TProfile { target_len: target, bulk: 8, grow: 4, cap: 3 };
    let mut t = T::new(kind, case.rng.us(20));
    let mut md: Model = vec![];
    let steps = if case.slow { 12 } else { case.rng.range(30, 150) };
    for i in 0..steps {
        let mut r = case.rng.clone();
        let op = tabm::gen_op(&mut gen, &mut r, kind, &md, &p);
        case.rng = r;
        let (what, at) = moment(&mut case.rng);
        if i < target as u64 || case.rng.chance(1, 2) {
            tabm::step(case, kind, &mut t, &mut md, &op, vm, g)?;
            continue;
        }
        case.op(|| format!("panic {what}@{at} {op:?}"));
        let before = md.clone();
        let (fired, r) = armed(what, at, || tabm::real(&mut t, &op, vm, g));
        if !fired {
            match r {
                Ok(Ok(o)) => {
                    if let Err(e) = tabm::model(kind, &mut md, &op, &o) {
                        vbail!("{op:?}: {e}");
                    }
                    tabm::check_contents(&t, &md)?;
                }
                r => vbail!("{op:?}: {:?}", r.map(|_| ())),
            }
            continue;
        }
        case.count(["umap_panics", "uset_panics", "table_panics"][kind as usize]);
        case.count(op.name());
        case.sig(at as u64 ^ (op.name().len() as u64) << 8 ^ (md.len() as u64) << 16 ^ 2 << 40);
        anomalies()?;
        let now = match consistent_tab(&t, &gen.uni, vm, g) {
            Ok(n) => n,
            Err(v) => vbail!("{op:?} interrupted by a panic ({} moment {at}): {}", ["callback", "drop"][what as usize], v.0),
        };
        let _ = before;
        md = now;
        case.nontrivial();
    }
    drop(t);
    anomalies()
}

fn main() {
    vh::main_loop("c15", |case| {
        let (mut vm, mut g) = Vm::new();
        let (vm, g) = (&mut vm, &mut g);
        vh::ledger::reset();
        let k = case.rng.below(9);
        case.sample = Some(format!("{} with injected panics", ["ordered map", "ordered map", "ordered map", "ordered set", "unordered", "unordered", "two containers", "two containers", "tombstone-filled table"][k as usize]));
        let r = match k {
            0..=2 => map_case(case, vm, g),
            3 => set_case(case, vm, g),
            4 | 5 => table_case(case, vm, g),
            6 | 7 => pair_case(case, vm, g),
            _ => rehash_case(case, vm, g),
        };
        vh::ledger::reset();
        r
    })
}
