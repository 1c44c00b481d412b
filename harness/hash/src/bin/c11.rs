//! C11: every iterator and slice view against the sequence (or bag) it must yield.
use hash::iterlaw::*;
use hash::mapm::{self, anomalies, Gen, Model, Op, Profile, M};
use hash::setm::{self, SOp, S};
use hash::tabm::{self, TProfile, HM, HS, HT, T};
use hash::*;
use std::cell::Cell;
use vh::{vbail, vcheck, veq, Case, Verdict};

fn ek(k: &K) -> u64 {
    k.touch();
    mix(k.tag ^ (k.core.val as u64) << 44)
}
fn ev(v: &V) -> u64 {
    v.touch();
    v.v
}
fn ekv(k: &K, v: &V) -> u64 {
    ek(k).rotate_left(9) ^ mix(ev(v))
}
fn mk(e: &mapm::Ent) -> u64 {
    mix(e.tag ^ (e.core.val as u64) << 44)
}
fn mkv(e: &mapm::Ent) -> u64 {
    mk(e).rotate_left(9) ^ mix(e.v)
}

/// Checked slice-view observations, shared by the whole map and its sub-slices.
fn slice_views(case: &mut Case, s: &rubymap::map::Slice<K, V>, md: &[mapm::Ent]) -> Verdict {
    case.count("slice_views");
    veq!(s.len(), md.len(), "slice length");
    veq!(s.is_empty(), md.is_empty(), "slice emptiness");
    veq!(s.first().map(|(k, v)| ekv(k, v)), md.first().map(mkv), "slice first");
    veq!(s.last().map(|(k, v)| ekv(k, v)), md.last().map(mkv), "slice last");
    let i = case.rng.us(md.len() + 3);
    veq!(s.get_index(i).map(|(k, v)| ekv(k, v)), md.get(i).map(mkv), "slice position {i}");
    match vh::catch(|| ev(&s[i])) {
        Ok(x) => veq!(Some(x), md.get(i).map(|e| e.v), "slice[{i}]"),
        Err(_) => vcheck!(i >= md.len(), "slice[{i}] refused for length {}", md.len()),
    }
    match vh::catch(|| ek(&s.keys()[i])) {
        Ok(x) => veq!(Some(x), md.get(i).map(mk), "keys[{i}]"),
        Err(_) => vcheck!(i >= md.len(), "keys[{i}] refused for length {}", md.len()),
    }
    match vh::catch(|| {
        let (a, b) = s.split_at(i);
        (a.iter().map(|(k, v)| ekv(k, v)).collect::<Vec<_>>(), b.iter().map(|(k, v)| ekv(k, v)).collect::<Vec<_>>())
    }) {
        Ok((a, b)) => {
            vcheck!(i <= md.len(), "split_at({i}) accepted for length {}", md.len());
            veq!(a, md[..i].iter().map(mkv).collect::<Vec<_>>(), "front of split_at({i})");
            veq!(b, md[i..].iter().map(mkv).collect::<Vec<_>>(), "back of split_at({i})");
        }
        Err(_) => vcheck!(i > md.len(), "split_at({i}) refused for length {}", md.len()),
    }
    let sf = s.split_first().map(|((k, v), r)| (ekv(k, v), r.iter().map(|(k, v)| ekv(k, v)).collect::<Vec<_>>()));
    veq!(sf, md.split_first().map(|(e, r)| (mkv(e), r.iter().map(mkv).collect())), "split_first");
    let sl = s.split_last().map(|((k, v), r)| (ekv(k, v), r.iter().map(|(k, v)| ekv(k, v)).collect::<Vec<_>>()));
    veq!(sl, md.split_last().map(|(e, r)| (mkv(e), r.iter().map(mkv).collect())), "split_last");
    let j = case.rng.us(md.len() + 3);
    let (a, b) = (i.min(j), i.max(j));
    let got = s.get_range(a..b).map(|r| r.values().map(ev).collect::<Vec<_>>());
    veq!(got, md.get(a..b).map(|r| r.iter().map(|e| e.v).collect()), "range {a}..{b}");
    let thr = if md.is_empty() { 0 } else { case.rng.pick(md).v };
    // partition point over a monotone predicate: position of the first index >= p
    let _ = thr;
    let want: Vec<u64> = md.iter().map(mkv).collect();
    laws_clone(case, "slice_iter", s.iter(), &want, |(k, v)| ekv(k, v))?;
    laws_clone(case, "slice_keys", s.keys(), &md.iter().map(mk).collect::<Vec<_>>(), ek)?;
    laws_clone(case, "slice_values", s.values(), &md.iter().map(|e| e.v).collect::<Vec<_>>(), ev)?;
    laws_de(case, "slice_into_iter_ref", s.into_iter(), &want, |(k, v)| ekv(k, v), true)?;
    Ok(())
}

fn slice_views_mut(case: &mut Case, gen: &mut Gen, s: &mut rubymap::map::Slice<K, V>, md: &mut [mapm::Ent]) -> Verdict {
    case.count("slice_views_mut");
    let n = md.len();
    let i = case.rng.us(n + 2);
    let x = gen.fresh();
    match case.rng.below(9) {
        0 => {
            let r = s.get_index_mut(i).map(|(_, v)| v.set(x)).is_some();
            veq!(r, i < n, "get_index_mut({i})");
            if r {
                md[i].v = x
            }
        }
        1 => {
            if s.first_mut().map(|(_, v)| v.set(x)).is_some() != (n > 0) {
                vbail!("first_mut on {n}");
            }
            if n > 0 {
                md[0].v = x
            }
        }
        2 => {
            if s.last_mut().map(|(_, v)| v.set(x)).is_some() != (n > 0) {
                vbail!("last_mut on {n}");
            }
            if n > 0 {
                md[n - 1].v = x
            }
        }
        3 if i <= n => {
            let (a, b) = s.split_at_mut(i);
            veq!((a.len(), b.len()), (i, n - i), "split_at_mut({i})");
            if let Some((_, v)) = a.last_mut() {
                v.set(x);
                md[i - 1].v = x;
            }
            if let Some((_, v)) = b.first_mut() {
                v.set(x + 1);
                md[i].v = x + 1;
            }
        }
        4 => {
            if let Some(((_, v), r)) = s.split_first_mut() {
                v.set(x);
                md[0].v = x;
                for (j, (_, v)) in r.iter_mut().enumerate() {
                    v.set(x + 1 + j as u64);
                    md[1 + j].v = x + 1 + j as u64;
                }
            } else {
                veq!(n, 0, "split_first_mut refused");
            }
        }
        5 => {
            if let Some(((_, v), r)) = s.split_last_mut() {
                v.set(x);
                md[n - 1].v = x;
                veq!(r.len(), n - 1, "split_last_mut rest");
                if let Some((_, v)) = r.last_mut() {
                    v.set(x + 1);
                    md[n - 2].v = x + 1;
                }
            } else {
                veq!(n, 0, "split_last_mut refused");
            }
        }
        6 if i < n => {
            s[i].set(x);
            md[i].v = x;
        }
        7 => {
            let j = case.rng.us(n + 2);
            let (a, b) = (i.min(j), i.max(j));
            match s.get_range_mut(a..b) {
                Some(r) => {
                    vcheck!(b <= n, "range {a}..{b} accepted for {n}");
                    for (k, v) in r.values_mut().rev().enumerate() {
                        v.set(x + k as u64);
                        md[b - 1 - k].v = x + k as u64;
                    }
                }
                None => vcheck!(b > n, "range {a}..{b} refused for {n}"),
            }
        }
        _ => {
            for (k, (_, v)) in (&mut *s).into_iter().enumerate() {
                v.set(x + k as u64);
                md[k].v = x + k as u64;
            }
        }
    }
    Ok(())
}

fn map_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[0usize, 1, 5, 9, 20, 40]);
    let uni = Universe::gen(&mut case.rng, n.max(1));
    let mut gen = Gen::new(uni);
    let mut m = M::with_capacity_and_hasher(case.rng.us(12), Bh);
    let mut md: Model = vec![];
    for x in gen.prefill(&mut case.rng, n) {
        mapm::step(case, &mut m, &mut md, &Op::Insert(x), vm, g)?;
    }
    let p = Profile { dict: 4, positional: 2, entry: 2, bulk: 1, cap: 1, grow: 6, target_len: n, check_every: 1 };
    for _ in 0..case.rng.us(if case.slow { 3 } else { 10 }) {
        let mut r = case.rng.clone();
        let op = gen.op(&mut r, &md, &p);
        case.rng = r;
        mapm::step(case, &mut m, &mut md, &op, vm, g)?;
    }
    case.sig(md.len() as u64);
    if md.len() > 1 {
        case.nontrivial();
    }
    let rounds = if case.slow { 2 } else { 6 };
    for _ in 0..rounds {
        let want: Vec<u64> = md.iter().map(mkv).collect();
        let wk: Vec<u64> = md.iter().map(mk).collect();
        let wv: Vec<u64> = md.iter().map(|e| e.v).collect();
        let sel = case.rng.below(17);
        case.sig(sel);
        case.op(|| format!("map iterator arm {sel} on {} pairs", md.len()));
        match sel {
            0 => laws_clone(case, "map_iter", m.iter(), &want, |(k, v)| ekv(k, v))?,
            1 => laws_clone(case, "map_keys", m.keys(), &wk, ek)?,
            2 => laws_clone(case, "map_values", m.values(), &wv, ev)?,
            3 => {
                let mut it = m.iter();
                let c = case.rng.us(md.len() + 1);
                for _ in 0..c {
                    it.next();
                }
                slice_views(case, it.as_slice(), &md[c..])?;
                slice_views(case, m.as_slice(), &md)?;
            }
            4 => {
                let a = case.rng.us(md.len() + 1);
                let b = a + case.rng.us(md.len() + 1 - a);
                match case.rng.below(3) {
                    0 => slice_views(case, m.get_range(a..b).unwrap(), &md[a..b])?,
                    1 => slice_views(case, &m[a..b], &md[a..b])?,
                    _ => slice_views(case, &m.as_slice()[..b], &md[..b])?,
                }
            }
            5 | 6 => {
                // writes through mutable iterators land on the element yielded
                let base = gen.fresh() + 10;
                let ctr = Cell::new(base);
                let w: std::cell::RefCell<Vec<(u64, u64)>> = Default::default();
                let put = |k: u64, v: &mut V| {
                    let x = ctr.get();
                    ctr.set(x + 1);
                    v.set(x);
                    w.borrow_mut().push((k, x));
                };
                gen.next += 4 * md.len() as u64 + 50;
                if sel == 5 {
                    let f = |(k, v): (&K, &mut V)| {
                        let r = ekv(k, v);
                        put(ek(k), v);
                        r
                    };
                    if case.rng.chance(1, 2) {
                        laws_de(case, "map_iter_mut", m.iter_mut(), &want, f, true)?;
                    } else {
                        laws_de(case, "map_into_iter_mut_ref", (&mut m).into_iter(), &want, f, true)?;
                    }
                    for e in md.iter_mut() {
                        for (k, x) in w.borrow().iter() {
                            if *k == mk(e) {
                                e.v = *x
                            }
                        }
                    }
                } else {
                    // identify elements by their old value, made unique first
                    for (i, v) in m.values_mut().enumerate() {
                        v.set(base - 5 + 1000 * i as u64);
                        md[i].v = base - 5 + 1000 * i as u64;
                    }
                    gen.next += 1000 * md.len() as u64 + 50;
                    let wv: Vec<u64> = md.iter().map(|e| e.v).collect();
                    let f = |v: &mut V| {
                        let r = ev(v);
                        put(r, v);
                        r
                    };
                    laws_de(case, "map_values_mut", m.values_mut(), &wv, f, true)?;
                    for e in md.iter_mut() {
                        let old = e.v;
                        for (k, x) in w.borrow().iter() {
                            if *k == old {
                                e.v = *x
                            }
                        }
                    }
                }
            }
            7 => {
                let mut it = m.iter_mut();
                let c = case.rng.us(md.len() + 1);
                for _ in 0..c {
                    it.next();
                }
                slice_views(case, it.as_slice(), &md[c..])?;
                slice_views_mut(case, &mut gen, it.into_slice(), &mut md[c..])?;
            }
            8 => {
                let c = case.rng.us(md.len() + 1);
                match case.rng.below(3) {
                    0 => slice_views_mut(case, &mut gen, m.as_mut_slice(), &mut md)?,
                    1 => slice_views_mut(case, &mut gen, &mut m[c..], &mut md[c..])?,
                    _ => slice_views_mut(case, &mut gen, m.get_range_mut(..c).unwrap(), &mut md[..c])?,
                }
            }
            9 => {
                // draining a range, abandoned or not, leaves exactly the rest
                let a = case.rng.us(md.len() + 1);
                let b = a + case.rng.us(md.len() + 1 - a);
                let live = vh::ledger::live();
                {
                    let mut d = match m.drain(a..b, vm, g) {
                        Ok(d) => d,
                        Err(e) => vbail!("{e:?}"),
                    };
                    let c = case.rng.us(b - a + 1);
                    let f = case.rng.chance(1, 2);
                    if f {
                        for j in 0..c {
                            veq!(d.next().map(|(k, v)| ekv(&k, &v)), Some(want[a + j]), "drained item");
                        }
                        slice_views(case, d.as_slice(), &md[a + c..b])?;
                    } else {
                        laws_de(case, "map_drain", d, &want[a..b], |(k, v)| ekv(&k, &v), true)?;
                    }
                }
                md.drain(a..b);
                veq!(vh::ledger::live(), live - 2 * (b - a) as u64, "elements alive after a drain of {}", b - a);
            }
            10 => {
                let live = vh::ledger::live();
                let c = m.clone();
                laws_de(case, "map_into_iter", c.into_iter(), &want, |(k, v)| ekv(&k, &v), true)?;
                let c = m.clone();
                laws_de(case, "map_into_keys", c.into_keys(), &wk, |k| ek(&k), true)?;
                let c = m.clone();
                laws_de(case, "map_into_values", c.into_values(), &wv, |v| ev(&v), true)?;
                veq!(vh::ledger::live(), live, "elements alive after consuming clones");
            }
            11 => {
                let mut it = m.clone().into_iter();
                let mut lo = 0;
                for _ in 0..case.rng.us(md.len() + 1) {
                    if it.next().is_some() {
                        lo += 1
                    }
                }
                slice_views(case, it.as_slice(), &md[lo..])?;
                let mut md2 = md[lo..].to_vec();
                slice_views_mut(case, &mut gen, it.as_mut_slice(), &mut md2)?;
                let w2: Vec<u64> = md2.iter().map(mkv).collect();
                laws_de(case, "map_into_iter_after_writes", it, &w2, |(k, v)| ekv(&k, &v), true)?;
            }
            12 => {
                let b = m.clone().into_boxed_slice();
                slice_views(case, &b, &md)?;
                match case.rng.below(4) {
                    0 => {
                        laws_de(case, "boxed_into_iter", b.into_iter(), &want, |(k, v)| ekv(&k, &v), true)?;
                    }
                    1 => {
                        laws_de(case, "boxed_into_keys", b.into_keys(), &wk, |k| ek(&k), true)?;
                    }
                    2 => {
                        laws_de(case, "boxed_into_values", b.into_values(), &wv, |v| ev(&v), true)?;
                    }
                    _ => {
                        let c = b.clone();
                        drop(b);
                        slice_views(case, &c, &md)?;
                    }
                }
            }
            13 => {
                let mut exp = md.clone();
                exp.sort_by_key(|e| e.v);
                let w: Vec<u64> = exp.iter().map(mkv).collect();
                laws_de(case, "map_sorted_by", m.clone().sorted_by(|_, a, _, b| a.v.cmp(&b.v)), &w, |(k, v)| ekv(&k, &v), true)?;
            }
            14 => {
                // default iterators are empty
                veq!(rubymap::map::Iter::<K, V>::default().count(), 0, "default Iter");
                veq!(rubymap::map::IterMut::<K, V>::default().count(), 0, "default IterMut");
                veq!(rubymap::map::IntoIter::<K, V>::default().count(), 0, "default IntoIter");
                veq!(rubymap::map::Keys::<K, V>::default().count(), 0, "default Keys");
                veq!(rubymap::map::Values::<K, V>::default().count(), 0, "default Values");
                veq!(rubymap::map::ValuesMut::<K, V>::default().count(), 0, "default ValuesMut");
            }
            15 => {
                let mut ks = m.keys();
                let c = case.rng.us(md.len() + 1);
                for _ in 0..c {
                    ks.next();
                }
                for i in 0..md.len() - c {
                    veq!(ek(&ks[i]), wk[c + i], "keys[{i}] after consuming {c}");
                }
            }
            _ => {
                let c = case.rng.us(md.len() + 2);
                let r = m.get_index_mut(c).map(|(k, v)| ekv(k, v));
                veq!(r, want.get(c).copied(), "get_index_mut({c})");
                laws_de(case, "map_into_iter_ref", (&m).into_iter(), &want, |(k, v)| ekv(k, v), true)?;
            }
        }
        mapm::check_contents(&m, &md)?;
        let mut r2 = case.rng.clone();
        mapm::check_lookups(&m, &md, &gen.uni, vm, g, &mut r2, 12)?;
        anomalies()?;
    }
    case.sample = Some(format!("ordered map of {} pairs, {rounds} iterator programs", md.len()));
    drop(m);
    veq!(vh::ledger::live(), 0, "elements alive at the end");
    Ok(())
}

fn set_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[0usize, 1, 5, 9, 20, 40]);
    let uni = Universe::gen(&mut case.rng, n.max(1));
    let mut gen = Gen::new(uni);
    let rounds = if case.slow { 2 } else { 5 };
    let mut md: Model = vec![];
    let mut s = S::with_capacity_and_hasher(case.rng.us(12), Bh);
    for x in gen.prefill(&mut case.rng, n) {
        setm::model(&mut md, &SOp::Insert(x.clone()));
        let _ = s.insert(K::new(x.0, x.1), vm, g);
    }
    if md.len() > 1 {
        case.nontrivial();
    }
    for _ in 0..rounds {
        let want: Vec<u64> = md.iter().map(mk).collect();
        let sel = case.rng.below(6);
        case.sig(sel << 8 | md.len() as u64);
        case.op(|| format!("set iterator arm {sel}"));
        match sel {
            0 => laws_clone(case, "set_iter", s.iter(), &want, ek)?,
            1 => {
                let a = case.rng.us(md.len() + 1);
                let b = a + case.rng.us(md.len() + 1 - a);
                let d = match s.drain(a..b, vm, g) {
                    Ok(d) => d,
                    Err(e) => vbail!("{e:?}"),
                };
                veq!(d.as_slice().len(), b - a, "drain view");
                laws_de(case, "set_drain", d, &want[a..b], |k| ek(&k), true)?;
                md.drain(a..b);
            }
            2 => {
                let sl = s.as_slice();
                let i = case.rng.us(md.len() + 2);
                veq!(sl.get_index(i).map(ek), want.get(i).copied(), "set slice position {i}");
                veq!(sl.first().map(ek), want.first().copied(), "set slice first");
                veq!(sl.last().map(ek), want.last().copied(), "set slice last");
                let sf = sl.split_first().map(|(k, r)| (ek(k), r.iter().map(ek).collect::<Vec<_>>()));
                veq!(sf, want.split_first().map(|(e, r)| (*e, r.to_vec())), "set split_first");
                let slx = sl.split_last().map(|(k, r)| (ek(k), r.iter().map(ek).collect::<Vec<_>>()));
                veq!(slx, want.split_last().map(|(e, r)| (*e, r.to_vec())), "set split_last");
                if i <= md.len() {
                    let (a, b) = sl.split_at(i);
                    veq!(a.iter().map(ek).collect::<Vec<_>>(), want[..i].to_vec(), "set split_at front");
                    veq!(b.iter().map(ek).collect::<Vec<_>>(), want[i..].to_vec(), "set split_at back");
                    laws_clone(case, "set_slice_iter", sl[..i].iter(), &want[..i], ek)?;
                    laws_clone(case, "set_range_iter", s.get_range(i..).unwrap().iter(), &want[i..], ek)?;
                }
            }
            3 => {
                // consume, checking, then rebuild
                let old = std::mem::replace(&mut s, S::with_hasher(Bh));
                match case.rng.below(3) {
                    0 => {
                        laws_de(case, "set_into_iter", old.into_iter(), &want, |k| ek(&k), true)?;
                    }
                    1 => {
                        laws_de(case, "set_boxed_into_iter", old.into_boxed_slice().into_iter(), &want, |k| ek(&k), true)?;
                    }
                    _ => {
                        let mut exp: Vec<&mapm::Ent> = md.iter().collect();
                        exp.sort_by_key(|e| std::cmp::Reverse(e.core));
                        let w: Vec<u64> = exp.iter().map(|e| mk(e)).collect();
                        laws_de(case, "set_sorted_by", old.sorted_by(|a, b| b.core.cmp(&a.core)), &w, |k| ek(&k), true)?;
                    }
                }
                for e in &md {
                    let _ = s.insert(K::new(e.core, e.tag), vm, g);
                }
            }
            4 => {
                laws_de(case, "set_into_iter_ref", (&s).into_iter(), &want, ek, true)?;
                veq!(rubymap::set::Iter::<K>::default().count(), 0, "default set Iter");
                veq!(rubymap::set::IntoIter::<K>::default().count(), 0, "default set IntoIter");
            }
            _ => {
                let mut r = case.rng.clone();
                let op = setm::gen_op(&mut gen, &mut r, &md, n, 1);
                case.rng = r;
                let want = setm::model(&mut md, &op);
                match vh::catch(|| setm::real(&mut s, &op, vm, g)) {
                    Ok(Ok(o)) if o == want => {}
                    o => vbail!("{op:?}: {o:?} expected {want:?}"),
                }
            }
        }
        setm::check_contents(&s, &md)?;
        setm::check_lookups(&s, &md, &gen.uni, vm, g)?;
        anomalies()?;
    }
    drop(s);
    veq!(vh::ledger::live(), 0, "elements alive at the end");
    Ok(())
}

fn table_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[0usize, 1, 3, 4, 7, 8, 14, 15, 28, 60, 120]);
    let uni = Universe::gen(&mut case.rng, n.max(1));
    let mut gen = Gen::new(uni);
    let kind = case.rng.below(3);
    let mut t = T::new(kind, case.rng.us(20));
    let mut md: Model = vec![];
    for x in gen.prefill(&mut case.rng, n) {
        tabm::step(case, kind, &mut t, &mut md, &tabm::TOp::Insert(x), vm, g)?;
    }
    let p = TProfile { grow: 4, target_len: n, bulk: 1, cap: 1 };
    for _ in 0..case.rng.us(if case.slow { 4 } else { 30 }) {
        let mut r = case.rng.clone();
        let op = tabm::gen_op(&mut gen, &mut r, kind, &md, &p);
        case.rng = r;
        tabm::step(case, kind, &mut t, &mut md, &op, vm, g)?;
    }
    if md.len() > 1 {
        case.nontrivial();
    }
    let uses_v = kind != 1;
    let per = if uses_v { 2u64 } else { 1 };
    for _ in 0..if case.slow { 2 } else { 5 } {
        let wkv: Vec<u64> = md.iter().map(mkv).collect();
        let wk: Vec<u64> = md.iter().map(mk).collect();
        let wv: Vec<u64> = md.iter().map(|e| e.v).collect();
        let sel = case.rng.below(9);
        case.sig(sel << 10 | kind << 8 | md.len() as u64);
        case.op(|| format!("unordered kind {kind} arm {sel} on {}", md.len()));
        let live = vh::ledger::live();
        let modu = case.rng.range(1, 5);
        let res = case.rng.below(modu);
        let pick = |c: &Core| c.val as u64 % modu == res;
        match (&mut t, sel) {
            (T::M(m), 0) => {
                laws_fw(case, "hm_iter", m.iter(), &wkv, true, |(k, v)| ekv(k, v))?;
                laws_fw(case, "hm_keys", m.keys(), &wk, true, ek)?;
                laws_fw(case, "hm_values", m.values(), &wv, true, ev)?;
                veq!(m.iter().len(), md.len(), "hm iter len");
                let mut it = m.iter();
                for _ in 0..case.rng.us(md.len() + 1) {
                    it.next();
                }
                let c = it.clone();
                let (a, b): (Vec<u64>, Vec<u64>) = (it.map(|(k, v)| ekv(k, v)).collect(), c.map(|(k, v)| ekv(k, v)).collect());
                veq!(a, b, "clone of an unordered iterator");
            }
            (T::S(m), 0) => {
                laws_fw(case, "hs_iter", m.iter(), &wk, true, ek)?;
                let c = m.iter().clone();
                veq!(c.map(ek).collect::<Vec<_>>(), m.iter().map(ek).collect::<Vec<_>>(), "clone of a set iterator");
            }
            (T::T(m), 0) => {
                laws_fw(case, "ht_iter", m.iter(), &wkv, true, |(k, v)| ekv(k, v))?;
                let c = m.iter().clone();
                veq!(c.len(), md.len(), "clone of a table iterator");
            }
            (T::M(_), 1 | 2) | (T::T(_), 1 | 2) => {
                let ctr = Cell::new(gen.fresh() + 10);
                gen.next += 8 * md.len() as u64 + 50;
                let w: std::cell::RefCell<Vec<(u64, u64)>> = Default::default();
                let f = |k: &K, v: &mut V| {
                    let r = ekv(k, v);
                    ctr.set(ctr.get() + 1);
                    v.set(ctr.get());
                    w.borrow_mut().push((ek(k), v.v));
                    r
                };
                match &mut t {
                    T::M(m) if sel == 1 => drop(laws_fw(case, "hm_iter_mut", m.iter_mut(), &wkv, true, |(k, v)| f(k, v))?),
                    T::M(m) => drop(laws_fw(case, "hm_into_iter_mut_ref", (&mut *m).into_iter(), &wkv, true, |(k, v)| f(k, v))?),
                    T::T(m) => drop(laws_fw(case, "ht_iter_mut", m.iter_mut(), &wkv, true, |(k, v)| f(k, v))?),
                    _ => {}
                }
                for e in md.iter_mut() {
                    for (k, x) in w.borrow().iter() {
                        if *k == mk(e) {
                            e.v = *x
                        }
                    }
                }
            }
            (T::M(m), 3) => {
                // unique values first, so the writes can be attributed
                let mut x = gen.fresh() + 100;
                let b = x;
                gen.next += 3 * md.len() as u64 + 500;
                for v in m.values_mut() {
                    v.set(x);
                    x += 1;
                }
                for (k, v) in m.iter() {
                    let e = md.iter_mut().find(|e| mk(e) == ek(k)).unwrap();
                    e.v = v.v;
                }
                let wv: Vec<u64> = md.iter().map(|e| e.v).collect();
                let off = 2 * md.len() as u64;
                let w: std::cell::RefCell<Vec<u64>> = Default::default();
                laws_fw(case, "hm_values_mut", m.values_mut(), &wv, true, |v| {
                    let r = ev(v);
                    v.set(r + off);
                    w.borrow_mut().push(r);
                    r
                })?;
                let _ = b;
                for e in md.iter_mut() {
                    if w.borrow().contains(&e.v) {
                        e.v += off
                    }
                }
            }
            (T::M(m), 4) => {
                let c = m.clone();
                laws_fw(case, "hm_into_iter", c.into_iter(), &wkv, true, |(k, v)| ekv(&k, &v))?;
                let c = m.clone();
                laws_fw(case, "hm_into_keys", c.into_keys(), &wk, true, |k| ek(&k))?;
                let c = m.clone();
                laws_fw(case, "hm_into_values", c.into_values(), &wv, true, |v| ev(&v))?;
                veq!(vh::ledger::live(), live, "elements alive after consuming clones");
            }
            (T::S(m), 4) => {
                laws_fw(case, "hs_into_iter", m.clone().into_iter(), &wk, true, |k| ek(&k))?;
                veq!(vh::ledger::live(), live, "elements alive after consuming a clone");
            }
            (T::T(m), 4) => {
                laws_fw(case, "ht_into_iter", m.clone().into_iter(), &wkv, true, |(k, v)| ekv(&k, &v))?;
                veq!(vh::ledger::live(), live, "elements alive after consuming a clone");
            }
            (t, 5 | 6) => {
                // filtered extraction: what was yielded is gone, the rest stays
                let seen: std::cell::RefCell<Vec<u64>> = Default::default();
                let wex: Vec<u64> = md.iter().filter(|e| pick(&e.core)).map(|e| if uses_v { mkv(e) } else { mk(e) }).collect();
                let got = match t {
                    T::M(m) => laws_fw(case, "hm_extract_if", m.extract_if(|k, _| { seen.borrow_mut().push(ek(k)); pick(&k.core) }), &wex, false, |(k, v)| ekv(&k, &v))?,
                    T::S(m) => laws_fw(case, "hs_extract_if", m.extract_if(|k| { seen.borrow_mut().push(ek(k)); pick(&k.core) }), &wex, false, |k| ek(&k))?,
                    T::T(m) => laws_fw(case, "ht_extract_if", m.extract_if(|x| { seen.borrow_mut().push(ek(&x.0)); pick(&x.0.core) }), &wex, false, |(k, v)| ekv(&k, &v))?,
                };
                let mut s = seen.into_inner();
                s.sort_unstable();
                let l = s.len();
                s.dedup();
                veq!(s.len(), l, "elements shown more than once to the extraction predicate");
                // count() consumes without telling us which: resync from the container then
                let gone = md.len() - t.len();
                if gone != got.len() {
                    veq!(gone, wex.len(), "elements removed by extraction");
                    md.retain(|e| !pick(&e.core));
                } else {
                    md.retain(|e| !got.contains(&if uses_v { mkv(e) } else { mk(e) }));
                }
                veq!(vh::ledger::live(), live - per * gone as u64, "elements alive after extraction");
            }
            (t, 7) => {
                match t {
                    T::M(m) => drop(laws_fw(case, "hm_drain", m.drain(), &wkv, true, |(k, v)| ekv(&k, &v))?),
                    T::S(m) => drop(laws_fw(case, "hs_drain", m.drain(), &wk, true, |k| ek(&k))?),
                    T::T(m) => drop(laws_fw(case, "ht_drain", m.drain(), &wkv, true, |(k, v)| ekv(&k, &v))?),
                }
                md.clear();
                veq!(t.len(), 0, "length after a drain");
                veq!(vh::ledger::live(), live - per * wk.len() as u64, "elements alive after a drain");
                let mut r = case.rng.clone();
                for x in gen.prefill(&mut r, n) {
                    tabm::step(case, kind, t, &mut md, &tabm::TOp::Insert(x), vm, g)?;
                }
                case.rng = r;
            }
            (T::T(m), 8) => {
                // hash-bucket iteration: all elements of that hash exactly once; others only if their tag matches
                let q = *case.rng.pick(&gen.uni.cores);
                let mut all: Vec<u64> = vec![];
                for x in m.iter_hash(q.h) {
                    if all.len() > md.len() {
                        vbail!("hash-bucket iteration yields more items than there are elements");
                    }
                    all.push(ekv(&x.0, &x.1));
                }
                case.count("ht_iter_hash");
                let mut d = all.clone();
                d.sort_unstable();
                let l = d.len();
                d.dedup();
                veq!(d.len(), l, "duplicates in hash-bucket iteration");
                for e in md.iter().filter(|e| e.core.h == q.h) {
                    vcheck!(d.binary_search(&mkv(e)).is_ok(), "element {e:?} missing from its hash bucket");
                }
                laws_fw(case, "ht_iter_hash_laws", m.iter_hash(q.h), &all, false, |x| ekv(&x.0, &x.1))?;
                let mut c = m.iter_hash(q.h);
                let sk = case.rng.us(all.len() + 1);
                for _ in 0..sk {
                    c.next();
                }
                let c2 = c.clone();
                veq!(c.map(|x| ekv(&x.0, &x.1)).collect::<Vec<_>>(), c2.map(|x| ekv(&x.0, &x.1)).collect::<Vec<_>>(), "clone of a hash-bucket iterator");
                let mut x = gen.fresh() + 5;
                gen.next += md.len() as u64 + 50;
                let mut w = vec![];
                for y in m.iter_hash_mut(q.h) {
                    y.1.set(x);
                    w.push((ek(&y.0), x));
                    x += 1;
                }
                veq!(w.len(), all.len(), "mutable hash-bucket iteration count");
                for e in md.iter_mut() {
                    if let Some((_, x)) = w.iter().find(|(k, _)| *k == mk(e)) {
                        e.v = *x
                    }
                }
            }
            _ => {
                veq!(hashbrown::hash_map::Iter::<K, V>::default().count(), 0, "default hm Iter");
                veq!(hashbrown::hash_map::IntoIter::<K, V>::default().count(), 0, "default hm IntoIter");
                veq!(hashbrown::hash_table::Iter::<K>::default().count(), 0, "default ht Iter");
                veq!(hashbrown::hash_table::IterHash::<K, Vm, Gl, Exc>::default().count(), 0, "default ht IterHash");
                veq!(hashbrown::hash_set::Iter::<K>::default().count(), 0, "default hs Iter");
            }
        }
        tabm::check_contents(&t, &md)?;
        tabm::check_lookups(&t, &md, &gen.uni, vm, g)?;
        anomalies()?;
    }
    let _ = |_: HM, _: HS, _: HT| ();
    case.sample = Some(format!("unordered kind {kind} with {} elements", md.len()));
    drop(t);
    veq!(vh::ledger::live(), 0, "elements alive at the end");
    Ok(())
}

fn main() {
    vh::main_loop("c11", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let sel = case.rng.below(8);
        case.sig(sel);
        let r = vh::catch(|| match sel {
            0..=3 => map_case(case, &mut vm, &mut g),
            4 => set_case(case, &mut vm, &mut g),
            _ => table_case(case, &mut vm, &mut g),
        });
        match r {
            Ok(r) => {
                r?;
                anomalies()
            }
            Err((l, s)) => vbail!("unexpected panic at {l}: {s}"),
        }
    })
}
