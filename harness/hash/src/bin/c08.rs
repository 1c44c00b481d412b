//! C08: unordered map/set/table vs a dictionary.
use hash::mapm::{anomalies, Gen, Model};
use hash::tabm::*;
use hash::*;

fn main() {
    vh::main_loop("c08", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let kind = case.rng.below(3);
        case.count(["kind_map", "kind_set", "kind_table"][kind as usize]);
        let churn = !case.slow && case.rng.chance(1, 15);
        let big = !case.slow && !churn && case.rng.chance(1, 80);
        let n = if big { 3000 } else if churn { case.rng.range(20, 500) as usize } else { *case.rng.pick(&[3usize, 8, 20, 60, 250]) };
        let uni = Universe::gen_sized(&mut case.rng, n);
        case.sig(uni.policy * 3 + kind);
        case.count(POLICY_NAMES[uni.policy as usize]);
        let cap = if case.rng.chance(1, 2) { 0 } else { case.rng.us(60) };
        let mut p = TProfile { grow: case.rng.range(1, 3) as u32, target_len: *case.rng.pick(&[3usize, 7, 14, 28, 56, 200]), bulk: if case.rng.chance(1, 2) { 4 } else { 1 }, cap: 4 };
        let mut steps = if case.slow { 25 } else { case.rng.range(20, 200) };
        if churn {
            case.count("churn_cases");
            let full = (1usize << case.rng.range(2, 9)) * 7 / 8;
            p = TProfile { grow: 3, target_len: full.saturating_sub(case.rng.us(3)), bulk: 0, cap: 0 };
            steps = 2000;
        }
        if big {
            case.count("big_cases");
            p = TProfile { grow: 6, target_len: case.rng.range(800, 2800) as usize, bulk: 0, cap: 1 };
            steps = 5000;
        }
        let mut gen = Gen::new(uni);
        let mut t = T::new(kind, cap);
        let mut m: Model = vec![];
        for st in 0..steps {
            let mut r = case.rng.clone();
            let op = gen_op(&mut gen, &mut r, kind, &m, &p);
            case.rng = r;
            let before = m.len();
            let capb = t.capacity();
            step(case, kind, &mut t, &mut m, &op, &mut vm, &mut g)?;
            case.sig(op.name().as_bytes()[3] as u64 ^ (op.name().len() as u64) << 8 ^ (m.len() as u64) << 16);
            anomalies()?;
            if t.capacity() != capb {
                case.count("capacity_changes");
                if m.len() > 7 {
                    case.nontrivial();
                }
            }
            if !(churn || big) || st % if big { 512 } else { 16 } == 0 {
                check_contents(&t, &m)?;
                if m.len() <= 16 || case.rng.chance(1, 6) {
                    check_lookups(&t, &m, &gen.uni, &mut vm, &mut g)?;
                }
            }
            if m.len() < before {
                case.count("shrunk_steps");
            }
            case.max("max_len", m.len() as u64);
        }
        check_contents(&t, &m)?;
        check_lookups(&t, &m, &gen.uni, &mut vm, &mut g)?;
        case.sample = Some(format!("kind {kind} universe {n} policy {} capacity {cap}: {steps} ops, {} elements", gen.uni.policy, m.len()));
        Ok(())
    })
}
