//! C06: ordered set vs a duplicate-free sequence.
use hash::mapm::{anomalies, Gen, Model, PANIC};
use hash::setm::*;
use hash::*;

fn main() {
    vh::main_loop("c06", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let big = !case.slow && case.rng.chance(1, 60);
        let n = if big { 1500 } else { *case.rng.pick(&[4usize, 10, 24, 24, 60, 200]) };
        let uni = Universe::gen_sized(&mut case.rng, n);
        case.sig(uni.policy);
        case.count(POLICY_NAMES[uni.policy as usize]);
        let cap = if case.rng.chance(1, 2) { 0 } else { case.rng.us(40) };
        let target = *case.rng.pick(&[6usize, 9, 14, 20, 60, 150]);
        let (target, bulk) = if big { (1200, 0) } else { (target, if case.rng.chance(1, 2) { 8 } else { 1 }) };
        let mut gen = Gen::new(uni);
        let mut s = S::with_capacity_and_hasher(cap, Bh);
        let mut m: Model = vec![];
        let steps = if case.slow { 25 } else if big { 3000 } else { case.rng.range(20, 200) };
        if big {
            case.count("big_cases");
        }
        for st in 0..steps {
            let mut r = case.rng.clone();
            let op = gen_op(&mut gen, &mut r, &m, target, bulk);
            case.rng = r;
            let before = m.len();
            case.op(|| format!("{op:?}"));
            case.count(op.name());
            case.sig(op.name().as_bytes()[3] as u64 ^ (op.name().len() as u64) << 8);
            let want = model(&mut m, &op);
            let got = match vh::catch(|| real(&mut s, &op, &mut vm, &mut g)) {
                Err((l, msg)) => vh::vbail!("{op:?}: panicked at {l}: {msg}"),
                Ok(Err(e)) => vh::vbail!("{op:?}: returned error {e:?} though no callback raised"),
                Ok(Ok(o)) => o,
            };
            if got != want {
                vh::vbail!("{op:?}: outcome {got:x?}, expected {want:x?}");
            }
            if want.first() == Some(&PANIC) {
                case.count("refused_out_of_range");
            }
            anomalies()?;
            if big && st % 64 != 0 {
                continue;
            }
            check_contents(&s, &m)?;
            if before <= 8 && m.len() > 8 {
                case.count("crossed_up");
                case.nontrivial();
            }
            if before > 8 && m.len() <= 8 {
                case.count("crossed_down");
            }
            if m.len() <= 16 || case.rng.chance(1, 6) {
                check_lookups(&s, &m, &gen.uni, &mut vm, &mut g)?;
            }
            case.max("max_len", m.len() as u64);
        }
        check_lookups(&s, &m, &gen.uni, &mut vm, &mut g)?;
        case.sample = Some(format!("universe {n} policy {} capacity {cap}: {steps} ops, {} elements", gen.uni.policy, m.len()));
        Ok(())
    })
}
