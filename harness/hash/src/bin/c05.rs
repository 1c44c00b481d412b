//! C05: deletion in place during a traversal window, then compaction.
use hash::mapm::{self, anomalies, pos, Ent, Gen, Model, Op, Profile, KV, M};
use hash::*;
use vh::{vbail, vcheck, veq, Case, Verdict};

const DEADV: u32 = u32::MAX;

fn dead(case: &mut Case) -> (K, V) {
    // the stale key's own hash is arbitrary
    let h = match case.rng.below(3) {
        0 => 0,
        1 => case.rng.next(),
        _ => u64::MAX,
    };
    (K::new(Core { val: DEADV, h }, 3), V::new(3))
}

/// Positions as the traversal sees them.
fn check_window(m: &M, w: &[Option<Ent>], what: &str) -> Verdict {
    veq!(m.len(), w.len(), "{what}: number of positions");
    for (i, (k, v)) in m.iter().enumerate() {
        match &w[i] {
            Some(e) => {
                if (k.core, k.tag, v.v) != (e.core, e.tag, e.v) {
                    vbail!("{what}: position {i} holds {k:?}=>{v:?}, expected {e:?}");
                }
            }
            None => vcheck!(k.core.val == DEADV, "{what}: position {i} was deleted but holds {k:?}"),
        }
        k.touch();
        v.touch();
    }
    Ok(())
}

fn wpos(w: &[Option<Ent>], c: &Core) -> Option<usize> {
    w.iter().position(|e| e.as_ref().is_some_and(|e| e.core == *c))
}

fn window(case: &mut Case, gen: &mut Gen, m: &mut M, md: &mut Model, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let mut w: Vec<Option<Ent>> = md.iter().cloned().map(Some).collect();
    let steps = match case.rng.below(4) {
        0 => 1,
        1 => 2 * w.len() as u64 + 2,
        _ => case.rng.range(1, 12 + w.len() as u64),
    };
    let (mut del, mut walk) = (0, 0usize);
    for _ in 0..steps {
        let live: Vec<usize> = (0..w.len()).filter(|i| w[*i].is_some()).collect();
        let gone: Vec<Core> = md.iter().enumerate().filter(|(i, _)| w[*i].is_none()).map(|(_, e)| e.core).collect();
        let q = match case.rng.below(4) {
            0 if !gone.is_empty() => *case.rng.pick(&gone),
            1 => *case.rng.pick(&gen.uni.cores),
            _ if !live.is_empty() => w[*case.rng.pick(&live)].as_ref().unwrap().core,
            _ => *case.rng.pick(&gen.uni.cores),
        };
        let p = wpos(&w, &q);
        let n = w.len();
        macro_rules! run {
            ($e:expr, $what:expr) => {
                match vh::catch(|| $e) {
                    Ok(Ok(x)) => x,
                    Ok(Err(e)) => vbail!("{}: raised {e:?}", $what),
                    Err((l, s)) => vbail!("{}: panicked at {l}: {s}", $what),
                }
            };
        }
        match case.rng.below(11) {
            0..=2 => {
                case.op(|| format!("delete in place {q:?}"));
                case.count("deletes_in_window");
                let (dk, dv) = dead(case);
                let r = run!(m.tombstone_remove(&q, dk, dv, vm, g), "delete in place");
                let got = r.map(|(i, k, v)| (i, k.tag, v.v));
                let want = p.map(|i| {
                    let e = w[i].take().unwrap();
                    (i, e.tag, e.v)
                });
                veq!(got, want, "deletion of {q:?} in a window of {n}");
                if want.is_some() {
                    del += 1;
                } else {
                    case.count("deletes_of_absent");
                }
            }
            3 => {
                // shift: first live position, or any live position; out of range answers nothing
                let i = match case.rng.below(4) {
                    0 => n + case.rng.us(3),
                    1 if !live.is_empty() => live[0],
                    _ if !live.is_empty() => *case.rng.pick(&live),
                    _ => n,
                };
                case.op(|| format!("delete position {i}"));
                case.count("position_deletes");
                let (dk, dv) = dead(case);
                let r = run!(m.tombstone_index(i, dk, dv, vm, g), "delete position");
                let got = r.map(|(k, v)| (k.tag, v.v));
                let want = if i < n {
                    let e = w[i].take().unwrap();
                    Some((e.tag, e.v))
                } else {
                    None
                };
                if want.is_some() {
                    del += 1;
                }
                veq!(got, want, "deletion of position {i} in a window of {n}");
            }
            4 => {
                case.op(|| format!("get_full {q:?}"));
                let r = run!(m.get_full(&q, vm, g), "get_full").map(|(i, k, v)| (i, k.tag, v.v));
                veq!(r, p.map(|i| (i, w[i].as_ref().unwrap().tag, w[i].as_ref().unwrap().v)), "lookup of {q:?} in the window");
                if p.is_none() && gone.contains(&q) {
                    case.count("deleted_key_queried");
                }
            }
            5 => {
                let v = gen.fresh();
                case.op(|| format!("get_mut {q:?} = {v}"));
                let r = run!(m.get_mut(&q, vm, g), "get_mut").map(|x| {
                    let o = x.v;
                    x.set(v);
                    o
                });
                veq!(r, p.map(|i| std::mem::replace(&mut w[i].as_mut().unwrap().v, v)), "update of {q:?} in the window");
            }
            6 if p.is_some() => {
                // overwriting an existing key is legal while traversing
                let v = gen.fresh();
                case.op(|| format!("overwrite {q:?} = {v}"));
                let i = p.unwrap();
                let e = w[i].as_mut().unwrap();
                match case.rng.below(4) {
                    0 => {
                        let r = run!(m.insert(K::new(q, 9), V::new(v), vm, g), "overwrite").map(|x| x.v);
                        veq!(r, Some(e.v), "old value of {q:?}");
                    }
                    1 => {
                        let (j, r) = m.insert_sym_full(q, V::new(v));
                        veq!((j, r.map(|x| x.v)), (i, Some(e.v)), "symbol overwrite of {q:?}");
                    }
                    2 => {
                        let r = m.insert_prehashed_with(q.h as usize, K::new(q, 9), V::new(v), |k| k.core.val == q.val).map(|x| x.v);
                        veq!(r, Some(e.v), "pre-hashed overwrite of {q:?}");
                    }
                    _ => {
                        let (j, r) = run!(m.insert_full(K::new(q, 9), V::new(v), vm, g), "overwrite");
                        veq!((j, r.map(|x| x.v)), (i, Some(e.v)), "overwrite of {q:?}");
                    }
                }
                e.v = v;
                case.count("overwrites_in_window");
            }
            7 => {
                let r = run!(m.contains_key(&q, vm, g), "contains");
                veq!(r, p.is_some(), "membership of {q:?} in the window");
            }
            8 => {
                let h = q.h as usize;
                let r = run!(m.get_prehashed_with(h, |k| k.core.val == q.val, vm, g), "pre-hashed get").map(|v| v.v);
                veq!(r, p.map(|i| w[i].as_ref().unwrap().v), "pre-hashed lookup of {q:?} in the window");
            }
            9 if !live.is_empty() => {
                // the traversal's own positional access
                let i = walk % n;
                walk += 1;
                let v = gen.fresh();
                if let Some(e) = w[i].as_mut() {
                    let (k, x) = m.get_index_mut(i).unwrap();
                    veq!((k.core, x.v), (e.core, e.v), "position {i} during the traversal");
                    x.set(v);
                    e.v = v;
                    case.count("positional_updates");
                }
            }
            _ => {
                if case.rng.chance(1, 6) {
                    case.op(|| "clone in window".into());
                    *m = m.clone();
                    case.count("clones_in_window");
                }
            }
        }
        check_window(m, &w, "in window")?;
        anomalies()?;
        let every = n <= 12 || case.rng.chance(1, 4);
        if every {
            for c in &gen.uni.cores {
                let r = match m.get_index_of(c, vm, g) {
                    Ok(x) => x,
                    Err(e) => vbail!("{e:?}"),
                };
                veq!(r, wpos(&w, c), "position of {c:?} in the window ({} of {n} deleted)", w.iter().filter(|x| x.is_none()).count());
            }
        }
    }
    case.op(|| "compact".into());
    if let Err((l, s)) = vh::catch(|| m.compact_tombstones(|k| k.core.val == DEADV)) {
        vbail!("compaction panicked at {l}: {s}");
    }
    *md = w.into_iter().flatten().collect();
    case.count("windows");
    case.count_n("deleted_total", del);
    if del > 0 {
        case.count(if md.len() + del as usize > 8 { "windows_above_8" } else { "windows_upto_8" });
        if md.is_empty() {
            case.count("windows_emptied");
        }
        case.nontrivial();
    }
    case.sig(del << 8 | md.len() as u64);
    mapm::check_contents(m, md)?;
    let mut r2 = case.rng.clone();
    mapm::check_lookups(m, md, &gen.uni, vm, g, &mut r2, 64)?;
    Ok(())
}

fn main() {
    vh::main_loop("c05", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let n = *case.rng.pick(&[3usize, 8, 14, 30, 90]);
        let uni = Universe::gen(&mut case.rng, n);
        case.sig(uni.policy);
        let mut gen = Gen::new(uni);
        let target = *case.rng.pick(&[2usize, 6, 9, 14, 30, 70]);
        let p = Profile { dict: 20, positional: 3, entry: 3, bulk: 1, cap: 2, grow: 3, target_len: target, check_every: 1 };
        let mut m = M::with_capacity_and_hasher(*case.rng.pick(&[0usize, 0, 8, 9, 40]), Bh);
        let mut md: Model = vec![];
        let rounds = if case.slow { 2 } else { case.rng.range(1, 6) };
        for _ in 0..rounds {
            for x in gen.prefill(&mut case.rng, target) {
                if pos(&md, &x.0).is_none() {
                    mapm::step(case, &mut m, &mut md, &Op::Insert(x), &mut vm, &mut g)?;
                }
            }
            window(case, &mut gen, &mut m, &mut md, &mut vm, &mut g)?;
            // an ordinary twin that deleted nothing in place must be indistinguishable
            let steps = if case.slow { 6 } else { case.rng.range(1, 40) as usize };
            let mut twin = M::with_hasher(Bh);
            let mut tmd: Model = vec![];
            for e in &md {
                let op = Op::Insert(KV(e.core, e.tag, e.v));
                mapm::step(case, &mut twin, &mut tmd, &op, &mut vm, &mut g)?;
            }
            for _ in 0..steps {
                let mut r = case.rng.clone();
                let op = gen.op(&mut r, &md, &p);
                case.rng = r;
                mapm::step(case, &mut m, &mut md, &op, &mut vm, &mut g)?;
                mapm::step(case, &mut twin, &mut tmd, &op, &mut vm, &mut g)?;
                mapm::check_contents(&m, &md)?;
                if md.len() < 12 || case.rng.chance(1, 5) {
                    let mut r2 = case.rng.clone();
                    mapm::check_lookups(&m, &md, &gen.uni, &mut vm, &mut g, &mut r2, 40)?;
                }
                case.count("steps_after_compaction");
            }
            let _ = tmd;
        }
        case.sample = Some(format!("universe {n} policy {}: {rounds} windows, {} pairs left", gen.uni.policy, md.len()));
        drop(m);
        anomalies()
    })
}
