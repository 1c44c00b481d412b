//! C07: positional, reordering and entry-handle operations vs a plain sequence of pairs.
use hash::mapm::{self, *};
use hash::setm::{self, S};
use hash::*;

fn main() {
    vh::main_loop("c07", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let n = *case.rng.pick(&[4usize, 10, 16, 30, 60, 250]);
        let uni = if case.rng.chance(1, 4) { Universe::gen_split(&mut case.rng, n) } else { Universe::gen(&mut case.rng, n) };
        case.sig(uni.policy);
        case.count(POLICY_NAMES[uni.policy as usize]);
        let cap = *case.rng.pick(&[0usize, 0, 5, 8, 9, 20, 60, 400]);
        let target = *case.rng.pick(&[3usize, 8, 10, 20, 50, 220]);
        let mut gen = Gen::new(uni);
        let steps = if case.slow { 20 } else { case.rng.range(10, 100) as usize };
        if case.rng.chance(1, 4) {
            case.count("set_cases");
            let mut s = S::with_capacity_and_hasher(cap, Bh);
            let mut md: Model = vec![];
            for x in gen.prefill(&mut case.rng, target) {
                setm::model(&mut md, &setm::SOp::Insert(x.clone()));
                let _ = s.insert(K::new(x.0, x.1), &mut vm, &mut g);
            }
            for _ in 0..steps {
                let mut r = case.rng.clone();
                let op = loop {
                    let op = setm::gen_op(&mut gen, &mut r, &md, target, 4);
                    if !op.single_key() || matches!(op, setm::SOp::InsertBefore(..) | setm::SOp::ShiftInsert(..) | setm::SOp::InsertSorted(..) | setm::SOp::Insert(..)) {
                        break op;
                    }
                };
                case.rng = r;
                case.op(|| format!("{op:?}"));
                case.count(op.name());
                case.sig(op.name().len() as u64 ^ (md.len() as u64) << 8);
                let want = setm::model(&mut md, &op);
                match vh::catch(|| setm::real(&mut s, &op, &mut vm, &mut g)) {
                    Ok(Ok(o)) if o == want => {}
                    o => vh::vbail!("set {op:?}: {o:x?}, expected {want:x?}"),
                }
                setm::check_contents(&s, &md)?;
                setm::check_lookups(&s, &md, &gen.uni, &mut vm, &mut g)?;
                anomalies()?;
            }
            if md.len() > 1 {
                case.nontrivial();
            }
            return Ok(());
        }
        let mut m = M::with_capacity_and_hasher(cap, Bh);
        let mut md: Model = vec![];
        for x in gen.prefill(&mut case.rng, target) {
            mapm::step(case, &mut m, &mut md, &Op::Insert(x), &mut vm, &mut g)?;
        }
        let p = Profile { dict: 3, positional: 20, entry: 12, bulk: if case.rng.chance(1, 2) { 3 } else { 0 }, cap: 1, grow: 8, target_len: target, check_every: 1 };
        if md.len() > 8 {
            case.count("started_above_8");
        }
        let r = history(case, &mut gen, &p, steps, &mut m, &mut md, &mut vm, &mut g);
        case.sample = Some(format!("universe {n} policy {} capacity {cap}: {steps} positional/entry ops, {} pairs", gen.uni.policy, md.len()));
        if md.len() > 1 {
            case.nontrivial();
        }
        r?;
        drop(m);
        anomalies()
    })
}
