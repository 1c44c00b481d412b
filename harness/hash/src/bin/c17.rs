//! C17: group-scan backends. Every history is judged against the byte-exact reference model and
//! digested; the driver compares the digests of the builds that use different backends.
use hash::mapm::{self, anomalies, Ent, Gen, Model, Profile, KV, M};
use hash::tabm::{self, TOp, TProfile, T};
use hash::*;
use vh::{vbail, veq, Case, Verdict};

fn digest_model(case: &mut Case, md: &Model) {
    for e in tabm::sorted(md.clone()) {
        case.digest(e.core.h ^ (e.core.val as u64) << 7);
        case.digest(e.tag);
        case.digest(e.v);
    }
}

/// Only whole consumptions: which elements a partial one yields may depend on table order.
fn order_free(op: TOp) -> TOp {
    match op {
        TOp::Drain(_) => TOp::Drain(1 << 20),
        TOp::ExtractIf(a, b, _) => TOp::ExtractIf(a, b, 1 << 20),
        TOp::IntoIter(_) => TOp::IntoIter(1 << 20),
        op => op,
    }
}

fn table_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let kind = case.rng.below(3);
    let n = *case.rng.pick(&[5usize, 9, 14, 20, 30, 60, 200]);
    let uni = Universe::gen(&mut case.rng, n);
    case.count(POLICY_NAMES[uni.policy as usize]);
    let mut gen = Gen::new(uni);
    let target = *case.rng.pick(&[3usize, 7, 12, 14, 28, 50, 100]);
    let p = TProfile { target_len: target, bulk: 3, grow: 4, cap: 2 };
    let mut t = T::new(kind, case.rng.us(20));
    let mut md: Model = vec![];
    let steps = case.rng.range(30, if n > 100 { 500 } else { 160 });
    for _ in 0..steps {
        let mut r = case.rng.clone();
        let op = order_free(tabm::gen_op(&mut gen, &mut r, kind, &md, &p));
        case.rng = r;
        case.op(|| format!("{op:?}"));
        let (before, cap) = (md.len(), t.capacity());
        match vh::catch(|| tabm::real(&mut t, &op, vm, g)) {
            Ok(Ok(mut o)) => {
                o.bag.sort();
                let w = tabm::model(kind, &mut md, &op, &o).map(|mut w| {
                    w.bag.sort();
                    w
                });
                match w {
                    Ok(w) if w == o || matches!(op, TOp::IterHash(..)) => {}
                    Ok(w) => vbail!("{op:?}: observed {o:?}, expected {w:?}"),
                    Err(e) => vbail!("{op:?}: {e}"),
                }
                if !matches!(op, TOp::IterHash(..)) {
                    for x in &o.seq {
                        case.digest(*x);
                    }
                    for (x, y) in o.bag {
                        case.digest(x ^ y << 32);
                    }
                }
            }
            Ok(Err(e)) => vbail!("{op:?} raised {e:?}"),
            Err((l, m)) => vbail!("{op:?} panicked: {m} at {l}"),
        }
        tabm::check_contents(&t, &md)?;
        case.digest(md.len() as u64);
        case.sig(op.name().len() as u64 ^ (md.len() as u64) << 8);
        if t.capacity() != cap && before > 7 {
            case.count("resized");
        }
        if md.len() == t.capacity() && !md.is_empty() {
            case.count("completely_full");
        }
        tabm::check_lookups(&t, &md, &gen.uni, vm, g)?;
        anomalies()?;
    }
    digest_model(case, &md);
    case.count(["kind_map", "kind_set", "kind_table"][kind as usize]);
    case.nontrivial();
    Ok(())
}

/// Fill, punch holes in a chosen pattern, then probe every key: each group holds a mixture of
/// full, empty and deleted slots that is known here exactly.
fn pattern_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let kind = case.rng.below(3);
    let n = *case.rng.pick(&[3usize, 7, 14, 28, 56, 112]);
    let n = if case.rng.chance(1, 3) { n + 1 } else { n };
    let mut uni = Universe::gen(&mut case.rng, 2 * n);
    if case.rng.chance(1, 2) {
        // tags and positions chosen byte by byte
        let tags: Vec<u64> = (0..case.rng.range(1, 5)).map(|_| *case.rng.pick(&[0u64, 1, 0x7f, 0x7e, 0x40, 0x3f, 0x55, 2])).collect();
        let spread = *case.rng.pick(&[1u64, 2, 5, 16, 32, 64, 1 << 20]);
        for c in &mut uni.cores {
            c.h = *case.rng.pick(&tags) << 57 | case.rng.below(spread);
        }
        case.count("chosen_tags");
    }
    let gen = Gen::new(uni);
    let mut t = T::new(kind, if case.rng.chance(1, 2) { n } else { 0 });
    let mut md: Model = vec![];
    let mask = case.rng.next();
    let pat = case.rng.below(4);
    let put = |t: &mut T, md: &mut Model, c: &Core, tag: u64, vm: &mut Vm, g: &mut Gl| -> Verdict {
        let kv = KV(*c, tag, tag);
        let op = if kind == 2 { TOp::InsertUnique(kv) } else { TOp::Insert(kv) };
        if let Err(e) | Ok(Err(e)) = vh::catch(|| tabm::real(t, &op, vm, g).map_err(|e| (format!("{e:?}"), String::new())).map(|_| ())) {
            vbail!("{op:?}: {e:?}");
        }
        md.push(Ent { core: *c, tag, v: if kind == 1 { 0 } else { tag } });
        Ok(())
    };
    for round in 0..case.rng.range(1, 5) {
        vh::step();
        for (i, c) in gen.uni.cores.iter().enumerate().take(n) {
            if md.iter().all(|e| e.core != *c) {
                put(&mut t, &mut md, c, round << 32 | i as u64, vm, g)?;
            }
        }
        tabm::check_contents(&t, &md)?;
        tabm::check_lookups(&t, &md, &gen.uni, vm, g)?;
        for (i, c) in gen.uni.cores.iter().enumerate().take(n) {
            let del = match pat {
                0 => mask >> (i % 64) & 1 == 1,
                1 => i as u64 % (mask % 5 + 2) == 0,
                2 => i as u64 % (mask % 5 + 2) != 0,
                _ => true,
            };
            if del {
                let want = md.iter().find(|e| e.core == *c).map(|e| e.tag);
                let r = vh::catch(|| tabm::real(&mut t, &TOp::RemoveEntry(*c), vm, g));
                match r {
                    Ok(Ok(o)) => {
                        if !o.seq.contains(&want.unwrap_or(0)) {
                            vbail!("removing {c:?} returned {o:?}, expected the element with tag {want:?}");
                        }
                        for x in &o.seq {
                            case.digest(*x);
                        }
                    }
                    r => vbail!("removing {c:?}: {r:?}"),
                }
                md.retain(|e| e.core != *c);
                case.count("deleted");
            }
        }
        veq!(t.len(), md.len(), "length after the deletions of pattern {pat}");
        tabm::check_contents(&t, &md)?;
        tabm::check_lookups(&t, &md, &gen.uni, vm, g)?;
        if case.rng.chance(1, 2) {
            // other keys take over tombstones
            for (i, c) in gen.uni.cores.iter().enumerate().skip(n) {
                if md.len() < n && md.iter().all(|e| e.core != *c) {
                    put(&mut t, &mut md, c, round << 32 | 1 << 20 | i as u64, vm, g)?;
                }
            }
            tabm::check_contents(&t, &md)?;
            tabm::check_lookups(&t, &md, &gen.uni, vm, g)?;
        }
        for op in [TOp::Reserve(n), TOp::ShrinkToFit, TOp::CloneSelf] {
            if case.rng.chance(1, 3) {
                match vh::catch(|| tabm::real(&mut t, &op, vm, g).is_ok()) {
                    Ok(true) => {}
                    r => vbail!("{op:?}: {r:?}"),
                }
                tabm::check_contents(&t, &md)?;
                tabm::check_lookups(&t, &md, &gen.uni, vm, g)?;
                case.count("rehashed");
            }
        }
        case.sig(mask ^ pat << 8 ^ (md.len() as u64) << 16 ^ round << 30);
        digest_model(case, &md);
    }
    case.digest(n as u64);
    case.count("patterns");
    case.nontrivial();
    anomalies()
}

/// Ordered maps sit on the same scan.
fn map_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[14usize, 30, 60]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let target = *case.rng.pick(&[9usize, 12, 14, 16, 28, 40]);
    let p = Profile { dict: 8, positional: 3, entry: 8, bulk: 3, cap: 2, grow: 5, target_len: target, check_every: 1 };
    let mut m = M::with_capacity_and_hasher(case.rng.us(20), Bh);
    let mut md: Model = vec![];
    for _ in 0..case.rng.range(30, 120) {
        let mut r = case.rng.clone();
        let op = gen.op(&mut r, &md, &p);
        case.rng = r;
        mapm::step(case, &mut m, &mut md, &op, vm, g)?;
        case.digest(md.len() as u64);
        if md.len() > 8 {
            case.count("map_steps_above_8");
        }
    }
    for (i, (k, v)) in m.iter().enumerate() {
        case.digest(i as u64 ^ k.tag << 8);
        case.digest(v.v);
    }
    let mut r = case.rng.clone();
    mapm::check_lookups(&m, &md, &gen.uni, vm, g, &mut r, 200)?;
    case.digest(1);
    case.nontrivial();
    Ok(())
}

fn main() {
    vh::main_loop("c17", |case| {
        let (mut vm, mut g) = Vm::new();
        let (vm, g) = (&mut vm, &mut g);
        vh::ledger::reset();
        let k = case.rng.below(5);
        case.sample = Some(["mixed table history", "mixed table history", "hole pattern", "hole pattern", "ordered map history"][k as usize].into());
        match k {
            0 | 1 => table_case(case, vm, g),
            2 | 3 => pattern_case(case, vm, g),
            _ => map_case(case, vm, g),
        }
    })
}
