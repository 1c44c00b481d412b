//! C02: an error raised by a user hash/eql? callback surfaces unchanged and leaves the
//! container as if the operation had never been attempted.
use hash::mapm::{self, anomalies, Gen, Model, Op, Profile, M, PANIC};
use hash::setm::{self, SOp, S};
use hash::tabm::{self, TOp, TProfile, T};
use hash::*;
use vh::{vbail, vcheck, Case, Verdict};

const DEAD: u64 = 7;

/// Outcome of one faulted execution.
fn judge<R: std::fmt::Debug>(what: &str, at: u64, n: u64, serial: u64, r: Result<Result<R, Exc>, (String, String)>, vm: &Vm) -> Verdict {
    let ctx = format!("{what} with callback {at} of {n} raising");
    match r {
        Err((l, m)) => vbail!("{ctx}: panicked at {l}: {m}"),
        Ok(Ok(r)) => vbail!("{ctx}: the error was swallowed, operation returned {r:x?}"),
        Ok(Err(e)) => vcheck!(e == Exc(serial), "{ctx}: returned a different error {e:?}"),
    }
    vcheck!(vm.fired == 1, "{ctx}: fault fired {} times", vm.fired);
    vcheck!(vm.after_fault == 0, "{ctx}: {} more callbacks ran after the error", vm.after_fault);
    Ok(())
}

fn indices(case: &mut Case, n: u64) -> Vec<u64> {
    if n <= 12 {
        (0..n).collect()
    } else {
        let mut v: Vec<u64> = (0..4).chain(n - 3..n).collect();
        for _ in 0..5 {
            v.push(case.rng.below(n));
        }
        v
    }
}

fn map_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[2usize, 4, 8, 12, 20, 40]);
    let uni = Universe::gen(&mut case.rng, n);
    case.sig(uni.policy);
    let mut gen = Gen::new(uni);
    let p = Profile { dict: 20, positional: 2, entry: 3, bulk: 1, cap: 2, grow: 3, target_len: *case.rng.pick(&[1usize, 2, 8, 9, 14, 30]), check_every: 64 };
    let (mut m, mut md) = (M::with_capacity_and_hasher(case.rng.us(12), Bh), vec![]);
    for x in gen.prefill(&mut case.rng, p.target_len) {
        mapm::step(case, &mut m, &mut md, &Op::Insert(x), vm, g)?;
    }
    let steps = case.rng.range(1, if case.slow { 10 } else { 30 }) as usize;
    mapm::history(case, &mut gen, &p, steps, &mut m, &mut md, vm, g)?;
    let rounds = if case.slow { 3 } else { 16 };
    for _ in 0..rounds {
        let mut r = case.rng.clone();
        let op = match r.below(10) {
            0..=5 => gen.dict_op(&mut r, &md, &p),
            6..=7 => gen.entry_op(&mut r, &md),
            8 => {
                let kv = gen.kv(&mut r, &md);
                let i = r.us(md.len() + 1);
                match r.below(3) {
                    0 => Op::InsertBefore(i, kv),
                    1 => Op::ShiftInsert(i, kv),
                    _ if mapm::is_sorted(&md) => Op::InsertSorted(kv),
                    _ => Op::InsertBefore(i, kv),
                }
            }
            _ => gen.bulk_op(&mut r, &md),
        };
        case.rng = r;
        // how many callbacks does it run when nothing raises?
        let mut probe = m.clone();
        let before = vm.calls;
        let base = match vh::catch(|| mapm::real(&mut probe, &op, vm, g)) {
            Ok(Ok(o)) => o,
            other => vbail!("{op:?} without faults: {other:?}"),
        };
        let calls = vm.calls - before;
        if calls == 0 || base.first() == Some(&PANIC) {
            continue;
        }
        case.sig(op.name().len() as u64 ^ calls << 8 ^ (md.len() as u64) << 16);
        if md.len() > 8 {
            case.count("faulted_above_8");
        } else {
            case.count("faulted_upto_8");
        }
        for at in indices(case, calls) {
            let mut x = m.clone();
            let serial = case.rng.next();
            case.op(|| format!("fault at {at}/{calls}: {op:?}"));
            vm.arm(Fault::Raise, at, serial);
            let res = vh::catch(|| mapm::real(&mut x, &op, vm, g));
            vm.disarm();
            judge(&format!("{op:?} on {} entries", md.len()), at, calls, serial, res, vm)?;
            case.count(op.name());
            case.count("faults_injected");
            case.nontrivial();
            if op.single_key() {
                case.count("state_compared");
                mapm::check_contents(&x, &md).map_err(|e| tag(&op, at, e))?;
                let mut r2 = case.rng.clone();
                mapm::check_lookups(&x, &md, &gen.uni, vm, g, &mut r2, 64).map_err(|e| tag(&op, at, e))?;
                // and it still works
                let mut md2 = md.clone();
                let want = mapm::model(&mut md2, &op);
                match vh::catch(|| mapm::real(&mut x, &op, vm, g)) {
                    Ok(Ok(o)) if o == want => {}
                    other => vbail!("{op:?} retried after an error at callback {at}: {other:x?}, expected {want:x?}"),
                }
                mapm::check_contents(&x, &md2).map_err(|e| tag(&op, at, e))?;
            } else {
                consistent_map(&x, vm, g).map_err(|e| tag(&op, at, e))?;
                case.count("multi_key_faults");
            }
            anomalies()?;
        }
    }
    // deletion in place
    if !md.is_empty() && case.rng.chance(1, 3) {
        let q = gen.key(&mut case.rng.clone(), &md);
        let mut probe = m.clone();
        let before = vm.calls;
        let dead = |v| (K::new(Core { val: u32::MAX, h: DEAD }, v), V::new(v));
        let (dk, dv) = dead(1);
        probe.tombstone_remove(&q, dk, dv, vm, g).map_err(|e| vh::Violation(format!("tombstone_remove raised {e:?}")))?;
        let calls = vm.calls - before;
        for at in indices(case, calls) {
            let mut x = m.clone();
            let serial = case.rng.next();
            let (dk, dv) = dead(1);
            vm.arm(Fault::Raise, at, serial);
            let res = vh::catch(|| x.tombstone_remove(&q, dk, dv, vm, g).map(|r| r.is_some()));
            vm.disarm();
            judge(&format!("tombstone_remove on {} entries", md.len()), at, calls, serial, res, vm)?;
            case.count("op_tombstone_remove");
            mapm::check_contents(&x, &md)?;
            let mut r2 = case.rng.clone();
            mapm::check_lookups(&x, &md, &gen.uni, vm, g, &mut r2, 64)?;
        }
    }
    Ok(())
}

fn tag(op: &impl std::fmt::Debug, at: u64, e: vh::Violation) -> vh::Violation {
    vh::Violation(format!("after {op:?} failed at callback {at}: {}", e.0))
}

/// Whatever an aborted bulk operation left behind must still be one coherent map.
fn consistent_map(m: &M, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let got: Vec<Core> = m.keys().map(|k| k.core).collect();
    vh::veq!(got.len(), m.len(), "length vs iteration");
    for (i, c) in got.iter().enumerate() {
        vcheck!(!got[..i].contains(c), "key {c:?} stored twice");
        match m.get_index_of(c, vm, g) {
            Ok(x) => vh::veq!(x, Some(i), "position of {c:?}"),
            Err(e) => vbail!("lookup raised {e:?}"),
        }
    }
    Ok(())
}

fn set_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[2usize, 4, 8, 12, 20, 30]);
    let uni = Universe::gen(&mut case.rng, n);
    case.sig(uni.policy);
    let mut gen = Gen::new(uni);
    let target = *case.rng.pick(&[1usize, 2, 8, 9, 14, 25]);
    let steps = case.rng.range(1, if case.slow { 10 } else { 20 });
    let mut hist: Vec<SOp> = vec![];
    let mut md: Model = vec![];
    let cap = case.rng.us(12);
    for x in gen.prefill(&mut case.rng, target) {
        let op = SOp::Insert(x);
        setm::model(&mut md, &op);
        hist.push(op);
    }
    for _ in 0..steps {
        let mut r = case.rng.clone();
        let op = setm::gen_op(&mut gen, &mut r, &md, target, 1);
        case.rng = r;
        let mut m2 = md.clone();
        if setm::model(&mut m2, &op).first() == Some(&PANIC) {
            continue;
        }
        md = m2;
        hist.push(op);
    }
    let build = |vm: &mut Vm, g: &mut Gl| -> Result<S, vh::Violation> {
        let mut s = S::with_capacity_and_hasher(cap, Bh);
        for op in &hist {
            match vh::catch(|| setm::real(&mut s, op, vm, g)) {
                Ok(Ok(_)) => {}
                o => return Err(vh::Violation(format!("{op:?} without faults: {o:?}"))),
            }
        }
        Ok(s)
    };
    for _ in 0..if case.slow { 2 } else { 6 } {
        let mut r = case.rng.clone();
        let op = setm::gen_op(&mut gen, &mut r, &md, target, 1);
        case.rng = r;
        let mut probe = build(vm, g)?;
        let before = vm.calls;
        let base = match vh::catch(|| setm::real(&mut probe, &op, vm, g)) {
            Ok(Ok(o)) => o,
            other => vbail!("{op:?} without faults: {other:?}"),
        };
        let calls = vm.calls - before;
        if calls == 0 || base.first() == Some(&PANIC) {
            continue;
        }
        case.sig(op.name().len() as u64 ^ calls << 8 ^ (md.len() as u64) << 16);
        for at in indices(case, calls) {
            let mut x = build(vm, g)?;
            let serial = case.rng.next();
            case.op(|| format!("fault at {at}/{calls}: {op:?}"));
            vm.arm(Fault::Raise, at, serial);
            let res = vh::catch(|| setm::real(&mut x, &op, vm, g));
            vm.disarm();
            judge(&format!("set {op:?} on {} elements", md.len()), at, calls, serial, res, vm)?;
            case.count("set_faults");
            case.count(if md.len() > 8 { "faulted_above_8" } else { "faulted_upto_8" });
            case.count("faults_injected");
            case.nontrivial();
            if op.single_key() {
                case.count("state_compared");
                setm::check_contents(&x, &md).map_err(|e| tag(&op, at, e))?;
                setm::check_lookups(&x, &md, &gen.uni, vm, g).map_err(|e| tag(&op, at, e))?;
                let mut md2 = md.clone();
                let want = setm::model(&mut md2, &op);
                match vh::catch(|| setm::real(&mut x, &op, vm, g)) {
                    Ok(Ok(o)) if o == want => {}
                    other => vbail!("set {op:?} retried after an error at callback {at}: {other:x?}, expected {want:x?}"),
                }
                setm::check_contents(&x, &md2).map_err(|e| tag(&op, at, e))?;
            } else {
                let got: Vec<Core> = x.iter().map(|k| k.core).collect();
                for (i, c) in got.iter().enumerate() {
                    vcheck!(!got[..i].contains(c), "after {op:?} failed: element {c:?} stored twice");
                    match x.get_index_of(c, vm, g) {
                        Ok(y) => vh::veq!(y, Some(i), "after {op:?} failed: position of {c:?}"),
                        Err(e) => vbail!("lookup raised {e:?}"),
                    }
                }
                case.count("multi_key_faults");
            }
            anomalies()?;
        }
    }
    Ok(())
}

fn clone_t(t: &T) -> T {
    match t {
        T::M(m) => T::M(m.clone()),
        T::S(m) => T::S(m.clone()),
        T::T(m) => T::T(m.clone()),
    }
}

fn tab_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let kind = case.rng.below(3);
    let n = *case.rng.pick(&[2usize, 4, 8, 12, 20, 60]);
    let uni = Universe::gen(&mut case.rng, n);
    case.sig(uni.policy * 3 + kind);
    let mut gen = Gen::new(uni);
    let p = TProfile { grow: 2, target_len: *case.rng.pick(&[1usize, 3, 7, 14, 28, 50]), bulk: 1, cap: 2 };
    let mut t = T::new(kind, case.rng.us(20));
    let mut md: Model = vec![];
    for x in gen.prefill(&mut case.rng, p.target_len) {
        tabm::step(case, kind, &mut t, &mut md, &TOp::Insert(x), vm, g)?;
    }
    for _ in 0..case.rng.range(1, if case.slow { 10 } else { 30 }) {
        let mut r = case.rng.clone();
        let op = tabm::gen_op(&mut gen, &mut r, kind, &md, &p);
        case.rng = r;
        tabm::step(case, kind, &mut t, &mut md, &op, vm, g)?;
    }
    for _ in 0..if case.slow { 3 } else { 16 } {
        let mut r = case.rng.clone();
        let op = tabm::gen_op(&mut gen, &mut r, kind, &md, &p);
        case.rng = r;
        let mut probe = clone_t(&t);
        let before = vm.calls;
        match vh::catch(|| tabm::real(&mut probe, &op, vm, g)) {
            Ok(Ok(_)) => {}
            other => vbail!("{op:?} without faults: {other:?}"),
        };
        let calls = vm.calls - before;
        if calls == 0 {
            continue;
        }
        case.sig(op.name().len() as u64 ^ calls << 8 ^ (md.len() as u64) << 16);
        for at in indices(case, calls) {
            let mut x = clone_t(&t);
            let serial = case.rng.next();
            case.op(|| format!("fault at {at}/{calls}: {op:?}"));
            vm.arm(Fault::Raise, at, serial);
            let res = vh::catch(|| tabm::real(&mut x, &op, vm, g));
            vm.disarm();
            judge(&format!("{op:?} on {} elements (kind {kind})", md.len()), at, calls, serial, res, vm)?;
            case.count("table_faults");
            case.count(if md.len() > 8 { "faulted_above_8" } else { "faulted_upto_8" });
            case.count("faults_injected");
            case.nontrivial();
            if op.single_key() {
                case.count("state_compared");
                tabm::check_contents(&x, &md).map_err(|e| tag(&op, at, e))?;
                tabm::check_lookups(&x, &md, &gen.uni, vm, g).map_err(|e| tag(&op, at, e))?;
                let mut md2 = md.clone();
                tabm::step(case, kind, &mut x, &mut md2, &op, vm, g).map_err(|e| tag(&op, at, e))?;
                tabm::check_contents(&x, &md2).map_err(|e| tag(&op, at, e))?;
            } else {
                let got = x.dump();
                vh::veq!(got.len(), x.len(), "after {op:?} failed: length vs iteration");
                for (i, e) in got.iter().enumerate() {
                    vcheck!(!got[..i].iter().any(|f| f.core == e.core), "after {op:?} failed: {:?} stored twice", e.core);
                    match tabm::lookup(&x, &e.core, vm, g) {
                        Ok(y) => vh::veq!(y, Some(e.tag), "after {op:?} failed: lookup of {:?}", e.core),
                        Err(e) => vbail!("lookup raised {e:?}"),
                    }
                }
                case.count("multi_key_faults");
            }
            anomalies()?;
        }
    }
    Ok(())
}

fn main() {
    vh::main_loop("c02", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let which = case.rng.below(5);
        case.sig(which);
        let r = match which {
            0..=1 => map_case(case, &mut vm, &mut g),
            2 => set_case(case, &mut vm, &mut g),
            _ => tab_case(case, &mut vm, &mut g),
        };
        vm.disarm();
        case.sample = Some(format!("container {which}: {} callbacks observed, fired {}", vm.calls, vm.fired));
        r?;
        vh::veq!(vm.wrong_ctx, 0, "callbacks that received a foreign globals argument");
        Ok(())
    })
}
