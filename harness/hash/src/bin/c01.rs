//! C01: ordered map vs an insertion-ordered dictionary model.
use hash::mapm::*;
use hash::*;

fn main() {
    vh::main_loop("c01", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let mode = match case.rng.below(120) {
            0 if !case.slow => 2,
            1..=8 if !case.slow => 1,
            _ => 0,
        };
        let n = match (mode, case.rng.below(6)) {
            (2, _) => 4000,
            (1, _) => case.rng.range(20, 400) as usize,
            (_, 0) => 4,
            (_, 1) => 10,
            (_, 2 | 3) => 24,
            (_, 4) => 60,
            _ => 250,
        };
        let uni = if mode == 2 {
            // one long chain is quadratic: keep big maps on spread-out policies
            let mut u = Universe::gen(&mut case.rng, n);
            while matches!(u.policy, 1 | 4 | 6 | 8) {
                u = Universe::gen(&mut case.rng, n);
            }
            u
        } else {
            Universe::gen(&mut case.rng, n)
        };
        case.sig(uni.policy);
        case.count(POLICY_NAMES[uni.policy as usize]);
        let cap = if case.rng.chance(1, 2) { 0 } else { case.rng.us(40) };
        let mut gen = Gen::new(uni);
        let mut p = Profile {
            dict: 20,
            positional: 2,
            entry: 3,
            bulk: 2,
            cap: 2,
            grow: case.rng.range(1, 3) as u32,
            target_len: *case.rng.pick(&[6usize, 9, 14, 20, 60, 200]),
            check_every: 1,
        };
        let mut steps = if case.slow { 25 } else { case.rng.range(20, 160) as usize };
        match mode {
            1 => {
                // long insert/remove churn around a fixed occupancy
                case.count("churn_cases");
                let k = case.rng.range(3, 9);
                let full = (1usize << k) * 7 / 8;
                p = Profile { dict: 200, positional: 1, entry: 10, bulk: 0, cap: 0, grow: 3, target_len: full.saturating_sub(case.rng.us(3)), check_every: 16 };
                steps = 1500;
            }
            2 => {
                case.count("big_cases");
                p = Profile { dict: 200, positional: 2, entry: 20, bulk: 1, cap: 3, grow: 8, target_len: case.rng.range(900, 3800) as usize, check_every: 256 };
                steps = 6000;
            }
            _ => {}
        }
        let mut m = M::with_capacity_and_hasher(cap, Bh);
        let mut md: Model = vec![];
        case.note(|| format!("with_capacity({cap}) universe={n} policy={}", gen.uni.policy));
        let r = history(case, &mut gen, &p, steps, &mut m, &mut md, &mut vm, &mut g);
        case.sample = Some(format!("policy {} universe {n} capacity {cap}: {steps} ops, final {:?}", gen.uni.policy, md.iter().take(4).collect::<Vec<_>>()));
        r?;
        drop(m);
        anomalies()?;
        vh::veq!(vm.wrong_ctx, 0, "callbacks received a foreign globals argument");
        Ok(())
    })
}
