//! C03: one notion of key identity (hash, then eql?) in every keyed operation, with the
//! callback protocol observed through a recording interpreter.
use hash::mapm::{self, anomalies, Gen, Model, Op, Profile, M, PANIC};
use hash::setm::{self, S};
use hash::*;
use vh::{vbail, Case, Verdict};

/// Key a single-key operation asks for.
fn query(op: &Op) -> Option<Core> {
    use Op::*;
    Some(match op {
        Insert(x) | InsertFull(x) => x.0,
        InsertBefore(_, x) | ShiftInsert(_, x) => x.0,
        Get(q, _) | GetKV(q) | GetFull(q, _) | GetIndexOf(q) | Contains(q, _) | GetMut(q, _) | GetFullMut(q, _) => *q,
        SwapRemove(q, _) | SwapRemoveEntry(q) | SwapRemoveFull(q) | RemoveEntry(q) | ShiftRemove(q, _) | ShiftRemoveEntry(q) | ShiftRemoveFull(q) => *q,
        Entry(q, _, _) => *q,
        _ => return None,
    })
}
fn squery(op: &setm::SOp) -> Option<Core> {
    use setm::SOp::*;
    Some(match op {
        Insert(x) | InsertFull(x) | Replace(x) | ReplaceFull(x) | InsertBefore(_, x) | ShiftInsert(_, x) => x.0,
        Contains(q) | Get(q) | GetFull(q) | GetIndexOf(q) | SwapRemove(q) | ShiftRemove(q) | SwapTake(q) | ShiftTake(q) | SwapRemoveFull(q) | ShiftRemoveFull(q) => *q,
        _ => return None,
    })
}

/// Judge the callbacks one keyed operation ran.
fn protocol(case: &mut Case, what: &dyn std::fmt::Debug, q: Core, before: &Model, trace: &[Ev]) -> Verdict {
    let mut hashes = 0;
    let mut asked: Vec<Core> = vec![];
    for ev in trace {
        match *ev {
            Ev::Hash(v, h) => {
                if (v, h) != (q.val, q.h) {
                    vbail!("{what:?}: hash called on a key ({v},{h:x}) that is not the query");
                }
                hashes += 1;
                if !asked.is_empty() {
                    vbail!("{what:?}: query hashed after eql? had been consulted");
                }
            }
            Ev::Eql(a, b) => {
                let stored = if a == (q.val, q.h) { b } else { a };
                if a != (q.val, q.h) && b != (q.val, q.h) {
                    vbail!("{what:?}: eql? between {a:x?} and {b:x?}, neither is the query");
                }
                if stored.1 != q.h {
                    vbail!("{what:?} on {} entries: eql? consulted against a stored key with a different hash ({:x} vs {:x})", before.len(), stored.1, q.h);
                }
                let c = Core { val: stored.0, h: stored.1 };
                if !before.iter().any(|e| e.core == c) {
                    vbail!("{what:?}: eql? consulted against {c:x?}, which is not stored");
                }
                asked.push(c);
            }
        }
    }
    if before.is_empty() {
        if hashes > 1 || !asked.is_empty() {
            vbail!("{what:?} on an empty container: {hashes} hash and {} eql? calls", asked.len());
        }
    } else {
        if hashes != 1 {
            vbail!("{what:?} on {} entries: query key hashed {hashes} times", before.len());
        }
        // the match, if any, can only have been established by asking
        if before.iter().any(|e| e.core == q) && !asked.contains(&q) {
            vbail!("{what:?} on {} entries: equal key found without consulting eql?", before.len());
        }
    }
    case.count("protocol_judged");
    case.count_n("eql_calls", asked.len() as u64);
    case.count(if before.len() > 8 { "judged_above_8" } else if before.len() == 1 { "judged_single" } else { "judged_upto_8" });
    if !asked.is_empty() && before.iter().any(|e| e.core.val == q.val && e.core.h != q.h) {
        case.count("eql_without_same_hash_present");
    }
    Ok(())
}

fn uni(case: &mut Case, n: usize) -> Universe {
    if case.rng.chance(2, 3) {
        Universe::gen_split(&mut case.rng, n)
    } else {
        Universe::gen(&mut case.rng, n)
    }
}

fn map_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[3usize, 6, 12, 24, 60]);
    let u = uni(case, n);
    case.sig(u.policy);
    let mut gen = Gen::new(u);
    let target = *case.rng.pick(&[1usize, 2, 7, 9, 14, 40]);
    let p = Profile { dict: 20, positional: 2, entry: 4, bulk: 0, cap: 1, grow: 3, target_len: target, check_every: 1 };
    let mut m = M::with_capacity_and_hasher(*case.rng.pick(&[0usize, 0, 5, 9, 64]), Bh);
    let mut md: Model = vec![];
    for x in gen.prefill(&mut case.rng, target) {
        mapm::step(case, &mut m, &mut md, &Op::Insert(x), vm, g)?;
    }
    let steps = if case.slow { 25 } else { case.rng.range(20, 120) };
    for _ in 0..steps {
        let mut r = case.rng.clone();
        let op = if case.rng.chance(1, 20) {
            let kv = gen.kv(&mut r, &md);
            let i = r.us(md.len() + 1);
            if r.chance(1, 2) { Op::InsertBefore(i, kv) } else { Op::ShiftInsert(i, kv) }
        } else {
            gen.op(&mut r, &md, &p)
        };
        case.rng = r;
        let before = md.clone();
        vm.trace.clear();
        vm.tracing = true;
        let r = mapm::step(case, &mut m, &mut md, &op, vm, g);
        vm.tracing = false;
        r?;
        case.sig(op.name().len() as u64 ^ (md.len() as u64) << 8);
        let refused = {
            let mut b = before.clone();
            mapm::model(&mut b, &op).first() == Some(&PANIC)
        };
        if let (Some(q), false) = (query(&op), refused) {
            let tr = std::mem::take(&mut vm.trace);
            protocol(case, &op, q, &before, &tr)?;
            if md.len() > 1 {
                case.nontrivial();
            }
        }
        anomalies()?;
        mapm::check_contents(&m, &md)?;
        if md.len() <= 16 || case.rng.chance(1, 4) {
            let mut r2 = case.rng.clone();
            mapm::check_lookups(&m, &md, &gen.uni, vm, g, &mut r2, 48)?;
        }
    }
    // Twins: the same entries in containers with other capacity histories.
    for style in 0..3 {
        let mut t = M::with_capacity_and_hasher([0, 100, 8][style], Bh);
        let fail = |e: Exc| vh::Violation(format!("insert raised {e:?}"));
        if style == 2 {
            // grow far, then come back
            for i in 0..70u32 {
                t.insert(K::new(Core { val: 1 << 20 | i, h: mix(i as u64) }, 1), V::new(1), vm, g).map_err(fail)?;
            }
            t.truncate(0, vm, g).map_err(fail)?;
        }
        for e in &md {
            t.insert(K::new(e.core, e.tag), V::new(e.v), vm, g).map_err(fail)?;
        }
        mapm::check_contents(&t, &md)?;
        let mut r2 = case.rng.clone();
        mapm::check_lookups(&t, &md, &gen.uni, vm, g, &mut r2, 48).map_err(|e| vh::Violation(format!("twin {style}: {}", e.0)))?;
        case.count("twins");
    }
    Ok(())
}

fn set_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[3usize, 6, 12, 24, 60]);
    let u = uni(case, n);
    case.sig(u.policy + 100);
    let mut gen = Gen::new(u);
    let target = *case.rng.pick(&[1usize, 2, 7, 9, 14, 40]);
    let mut s = S::with_capacity_and_hasher(*case.rng.pick(&[0usize, 0, 5, 9, 64]), Bh);
    let mut md: Model = vec![];
    let steps = if case.slow { 25 } else { case.rng.range(20, 120) };
    for _ in 0..steps {
        let mut r = case.rng.clone();
        let op = setm::gen_op(&mut gen, &mut r, &md, target, 1);
        case.rng = r;
        let before = md.clone();
        let want = setm::model(&mut md, &op);
        case.op(|| format!("{op:?}"));
        vm.trace.clear();
        vm.tracing = true;
        let r = vh::catch(|| setm::real(&mut s, &op, vm, g));
        vm.tracing = false;
        match r {
            Ok(Ok(o)) if o == want => {}
            o => vbail!("set {op:?}: {o:x?}, expected {want:x?}"),
        }
        case.sig(op.name().len() as u64 ^ (md.len() as u64) << 8);
        if let (Some(q), true) = (squery(&op), want.first() != Some(&PANIC)) {
            let tr = std::mem::take(&mut vm.trace);
            protocol(case, &op, q, &before, &tr)?;
            case.count("set_protocol_judged");
            case.nontrivial();
        }
        anomalies()?;
        setm::check_contents(&s, &md)?;
        setm::check_lookups(&s, &md, &gen.uni, vm, g)?;
    }
    Ok(())
}

fn main() {
    vh::main_loop("c03", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let set = case.rng.chance(1, 3);
        let r = if set { set_case(case, &mut vm, &mut g) } else { map_case(case, &mut vm, &mut g) };
        case.sample = Some(format!("{}: {} callbacks observed", if set { "set" } else { "map" }, vm.calls));
        r?;
        vh::veq!(vm.wrong_ctx, 0, "callbacks that received a foreign globals argument");
        Ok(())
    })
}
