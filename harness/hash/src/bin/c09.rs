//! C09: memory safety and exactly-once drops: element ledger, allocation ledger, odd element
//! types; the same binary runs under ASan and Miri.
use hash::mapm::{self, anomalies, Gen, Model, Op, Profile, M};
use hash::setm::{self, SOp, S};
use hash::tabm::{self, TOp, TProfile, T};
use hash::*;
use hashbrown::hash_map::HashMap;
use hashbrown::hash_table::HashTable;
use rubymap::RubyMap;
use vh::{vbail, veq, Case, Verdict};

vh::counting_alloc!();

fn balance(base: i64, what: &str) -> Verdict {
    veq!(vh::ledger::live(), 0, "{what}: elements alive after everything was dropped");
    anomalies()?;
    vh::ledger::reset();
    let now = vh::alloc::snapshot().2;
    veq!(now - base, 0, "{what}: bytes still allocated after everything was dropped");
    Ok(())
}

/// Plan the whole history on the model first, so that between the two allocation
/// snapshots only the container under observation allocates.
fn map_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[6usize, 14, 30, 60]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let target = *case.rng.pick(&[5usize, 9, 12, 30]);
    let p = Profile { dict: 8, positional: 6, entry: 8, bulk: 4, cap: 2, grow: 5, target_len: target, check_every: 1 };
    let cap = case.rng.us(14);
    let mut md: Model = vec![];
    let mut plan: Vec<(Op, mapm::Out, usize)> = vec![];
    for x in gen.prefill(&mut case.rng, target) {
        let op = Op::Insert(x);
        let w = mapm::model(&mut md, &op);
        plan.push((op, w, md.len()));
    }
    for _ in 0..if case.slow { 12 } else { case.rng.range(5, 60) } {
        let mut r = case.rng.clone();
        let op = gen.op(&mut r, &md, &p);
        case.rng = r;
        let w = mapm::model(&mut md, &op);
        case.count(op.name());
        case.sig(op.name().len() as u64 ^ (md.len() as u64) << 8);
        plan.push((op, w, md.len()));
    }
    if md.len() > 8 {
        case.count("ended_above_8");
    }
    case.count("map_histories");
    case.nontrivial();
    let end = case.rng.below(9);
    vh::ledger::reset();
    let base = vh::alloc::snapshot().2;
    {
        let mut m = M::with_capacity_and_hasher(cap, Bh);
        for (op, want, len) in &plan {
            if case.logging {
                case.op(|| format!("{op:?}"));
            }
            vh::step();
            match vh::catch(|| mapm::real(&mut m, op, vm, g)) {
                Ok(Ok(o)) if o == *want => {}
                o => vbail!("{op:?}: {o:x?}, expected {want:x?}"),
            }
            veq!(vh::ledger::live(), 2 * *len as u64, "elements alive after {op:?} with {len} pairs");
            if vh::ledger::created() - vh::ledger::dropped() != vh::ledger::live() {
                vbail!("element ledger inconsistent after {op:?}");
            }
            for (k, v) in m.iter() {
                k.touch();
                v.touch();
            }
            anomalies()?;
            if case.logging {
                // the operation log allocates: no byte balance while logging
            }
        }
        abandon(m, end, &md, vm, g)?;
    }
    if case.logging {
        veq!(vh::ledger::live(), 0, "elements alive after everything was dropped");
        return anomalies();
    }
    balance(base, "map")
}

/// Ways to let go of a map half-way.
fn abandon(m: M, how: u64, md: &Model, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let mut m = m;
    let n = md.len();
    match how {
        0 => drop(m),
        1 => {
            let mut it = m.into_iter();
            for _ in 0..n / 2 {
                it.next();
            }
            it.next_back();
        }
        2 => {
            let mut it = m.into_keys();
            it.next_back();
            it.nth(n / 3);
        }
        3 => {
            let mut it = m.into_values();
            it.next();
            it.nth_back(n / 3);
        }
        4 => {
            let mut d = match m.drain(n / 3.., vm, g) {
                Ok(d) => d,
                Err(e) => vbail!("{e:?}"),
            };
            d.next();
            d.next_back();
            drop(d);
            veq!(vh::ledger::live(), 2 * (n / 3) as u64, "elements alive after an abandoned drain");
            mapm::check_contents(&m, &md[..n / 3].to_vec())?;
        }
        5 => {
            let b = m.into_boxed_slice();
            let mut it = b.into_iter();
            it.next();
        }
        6 => {
            let mut it = m.clone().into_iter();
            it.nth(n / 2);
            let s = format!("{it:?}");
            drop(s);
            veq!(vh::ledger::live(), 2 * (n + n.saturating_sub(n / 2 + 1)) as u64, "elements alive with a half-consumed clone");
        }
        7 => {
            // entry handles dropped without use
            for e in md.iter().take(3) {
                drop(m.entry(K::new(e.core, 1), vm, g));
                drop(m.entry(K::new(Core { val: 1 << 30, h: e.core.h }, 1), vm, g));
                drop(m.get_index_entry(0));
            }
            veq!(vh::ledger::live(), 2 * n as u64, "elements alive after unused entry handles");
            mapm::check_contents(&m, md)?;
        }
        _ => {
            let t = match m.split_off(n / 2, vm, g) {
                Ok(t) => t,
                Err(e) => vbail!("{e:?}"),
            };
            drop(m);
            veq!(vh::ledger::live(), 2 * (n - n / 2) as u64, "elements alive in the split-off half");
            drop(t);
        }
    }
    Ok(())
}

fn set_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[6usize, 14, 30]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let target = *case.rng.pick(&[5usize, 9, 20]);
    let mut md: Model = vec![];
    let mut plan: Vec<(SOp, mapm::Out, usize)> = vec![];
    for _ in 0..if case.slow { 15 } else { case.rng.range(10, 80) } {
        let mut r = case.rng.clone();
        let op = setm::gen_op(&mut gen, &mut r, &md, target, 2);
        case.rng = r;
        let w = setm::model(&mut md, &op);
        case.count(op.name());
        case.sig(op.name().len() as u64 ^ (md.len() as u64) << 8);
        plan.push((op, w, md.len()));
    }
    case.count("set_histories");
    case.nontrivial();
    let end = case.rng.below(4);
    vh::ledger::reset();
    let base = vh::alloc::snapshot().2;
    {
        let mut s = S::with_capacity_and_hasher(0, Bh);
        for (op, want, len) in &plan {
            if case.logging {
                case.op(|| format!("{op:?}"));
            }
            vh::step();
            match vh::catch(|| setm::real(&mut s, op, vm, g)) {
                Ok(Ok(o)) if o == *want => {}
                o => vbail!("{op:?}: {o:x?}, expected {want:x?}"),
            }
            veq!(vh::ledger::live(), *len as u64, "elements alive after {op:?} with {len} elements");
            s.iter().for_each(|k| k.touch());
            anomalies()?;
        }
        match end {
            0 => drop(s),
            1 => {
                let mut it = s.into_iter();
                it.next();
                it.next_back();
            }
            2 => {
                let mut d = match s.drain(md.len() / 2.., vm, g) {
                    Ok(d) => d,
                    Err(e) => vbail!("{e:?}"),
                };
                d.next();
            }
            _ => {
                let mut it = s.into_boxed_slice().into_iter();
                it.next();
            }
        }
    }
    if case.logging {
        veq!(vh::ledger::live(), 0, "elements alive after everything was dropped");
        return anomalies();
    }
    balance(base, "set")
}

fn table_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let kind = case.rng.below(3);
    let n = *case.rng.pick(&[3usize, 7, 14, 28, 60]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let mut md: Model = vec![];
    let p = TProfile { grow: 4, target_len: n, bulk: 2, cap: 2 };
    let per = if kind == 1 { 1 } else { 2 };
    case.count(["table_map_histories", "table_set_histories", "table_histories"][kind as usize]);
    case.nontrivial();
    let steps = if case.slow { 14 } else { case.rng.range(10, 120) };
    // partial consumers decide for themselves what they took, so the history is
    // generated while it runs; counters are kept outside the allocation window
    let mut names: Vec<&'static str> = Vec::with_capacity(steps as usize + n);
    vh::ledger::reset();
    let snap = |_: ()| vh::alloc::snapshot().2;
    let base = snap(());
    let mut t = T::new(kind, 0);
    let mut balance_other = 0i64;
    for i in 0..steps + n as u64 {
        let b0 = snap(());
        let mut r = case.rng.clone();
        let op = if i < n as u64 && i % 2 == 0 { TOp::Insert(gen.kv(&mut r, &md)) } else { tabm::gen_op(&mut gen, &mut r, kind, &md, &p) };
        case.rng = r;
        if case.logging {
            case.op(|| format!("{op:?}"));
        }
        vh::step();
        balance_other += snap(()) - b0;
        let got = match vh::catch(|| tabm::real(&mut t, &op, vm, g)) {
            Ok(Ok(o)) => o,
            o => vbail!("{op:?}: {o:x?}"),
        };
        let b0 = snap(());
        let _ = tabm::model(kind, &mut md, &op, &got);
        names.push(op.name());
        drop(op);
        balance_other += snap(()) - b0;
        drop(got);
        veq!(t.len(), md.len(), "length");
        veq!(vh::ledger::live(), per * md.len() as u64, "elements alive with {} stored", md.len());
        anomalies()?;
        case.sig(md.len() as u64);
    }
    // letting go half-way
    let end = case.rng.below(6);
    let k = case.rng.us(md.len() + 1);
    match (t, end) {
        (T::M(m), 0) => {
            let mut it = m.into_iter();
            (0..k).for_each(|_| drop(it.next()));
            drop(format!("{it:?}"));
        }
        (T::M(mut m), 1) => {
            let mut it = m.drain();
            (0..k).for_each(|_| drop(it.next()));
            drop(it);
            veq!(m.len(), 0, "after an abandoned drain");
        }
        (T::M(mut m), 2) => {
            let mut it = m.extract_if(|_, v| v.v % 2 == 0);
            (0..k / 2).for_each(|_| drop(it.next()));
            drop(it);
            veq!(vh::ledger::live(), 2 * m.len() as u64, "elements alive after an abandoned extraction");
        }
        (T::M(m), 3) => {
            let mut it = m.into_values();
            (0..k).for_each(|_| drop(it.next()));
        }
        (T::M(m), 4) => {
            let mut it = m.into_keys();
            (0..k).for_each(|_| drop(it.next()));
        }
        (T::S(m), 0) => {
            let mut it = m.into_iter();
            (0..k).for_each(|_| drop(it.next()));
        }
        (T::S(mut m), 1) => {
            let mut it = m.drain();
            (0..k).for_each(|_| drop(it.next()));
        }
        (T::S(mut m), 2) => {
            let mut it = m.extract_if(|k| k.tag % 2 == 0);
            (0..k / 2).for_each(|_| drop(it.next()));
        }
        (T::T(m), 0) => {
            let mut it = m.into_iter();
            (0..k).for_each(|_| drop(it.next()));
        }
        (T::T(mut m), 1) => {
            let mut it = m.drain();
            (0..k).for_each(|_| drop(it.next()));
        }
        (T::T(mut m), 2) => {
            let mut it = m.extract_if(|x| x.0.tag % 2 == 0);
            (0..k / 2).for_each(|_| drop(it.next()));
        }
        (t, _) => drop(t),
    }
    veq!(vh::ledger::live(), 0, "elements alive after the container went away");
    anomalies()?;
    vh::ledger::reset();
    if !case.logging {
        veq!(snap(()) - base, balance_other, "bytes outstanding after the container went away (kind {kind}, end {end})");
    }
    for nm in names {
        case.count(nm);
    }
    Ok(())
}

/// Elements of unusual size and alignment; the bytes of each element are a
/// function of its key, checked at every read.
trait Odd: Clone + 'static {
    fn make(k: u32) -> Self;
    fn ok(&self, k: u32) -> bool;
}
impl Odd for () {
    fn make(_: u32) {}
    fn ok(&self, _: u32) -> bool {
        true
    }
}
impl Odd for u8 {
    fn make(k: u32) -> u8 {
        mix(k as u64) as u8
    }
    fn ok(&self, k: u32) -> bool {
        *self == mix(k as u64) as u8
    }
}
#[derive(Clone)]
struct Bytes<const N: usize>([u8; N]);
impl<const N: usize> Odd for Bytes<N> {
    fn make(k: u32) -> Self {
        let m = mix(k as u64);
        Bytes(std::array::from_fn(|i| (m >> (i % 8 * 8)) as u8 ^ i as u8))
    }
    fn ok(&self, k: u32) -> bool {
        self.0 == Self::make(k).0
    }
}
macro_rules! aligned {
    ($n:ident, $a:literal, $s:literal) => {
        #[derive(Clone)]
        #[repr(align($a))]
        struct $n(Bytes<$s>);
        impl Odd for $n {
            fn make(k: u32) -> Self {
                $n(Bytes::make(k))
            }
            fn ok(&self, k: u32) -> bool {
                (self as *const Self as usize) % $a == 0 && self.0.ok(k)
            }
        }
    };
}
aligned!(A16, 16, 16);
aligned!(A32, 32, 40);
aligned!(A64, 64, 64);
aligned!(A128, 128, 200);
#[derive(Clone)]
struct Heapy(Box<u32>, String);
impl Odd for Heapy {
    fn make(k: u32) -> Self {
        Heapy(Box::new(k), format!("{k:x}"))
    }
    fn ok(&self, k: u32) -> bool {
        *self.0 == k && self.1 == format!("{k:x}")
    }
}

fn odd_map<V: Odd>(case: &mut Case, name: &'static str) -> Verdict {
    case.count(name);
    let n = if case.slow { 24 } else { *case.rng.pick(&[10u32, 40, 200]) };
    let base = vh::alloc::snapshot().2;
    {
        let mut hm: HashMap<u32, V, (), (), ()> = HashMap::new();
        let mut om: RubyMap<u32, V, (), (), ()> = RubyMap::new();
        let mut ht: HashTable<(u32, V), (), (), ()> = HashTable::new();
        let mut here = vec![false; n as usize];
        let (e, g) = (&mut (), &mut ());
        for step in 0..3 * n {
            vh::step();
            let k = case.rng.below(n as u64) as u32;
            let p = here[k as usize];
            let eq = |x: &(u32, V), _: &mut (), _: &mut ()| Ok(x.0 == k);
            let hs = |x: &(u32, V)| mix(x.0 as u64);
            match case.rng.below(8) {
                0..=4 => {
                    let a = hm.insert(k, V::make(k), e, g).unwrap();
                    let b = om.insert(k, V::make(k), e, g).unwrap();
                    match ht.entry(mix(k as u64), eq, hs, e, g).unwrap() {
                        hashbrown::hash_table::Entry::Occupied(mut o) => {
                            if !p || !o.get().1.ok(k) {
                                vbail!("{name}: table entry of {k}");
                            }
                            o.get_mut().1 = V::make(k);
                        }
                        hashbrown::hash_table::Entry::Vacant(v) => {
                            if p {
                                vbail!("{name}: present key {k} not found by the table");
                            }
                            v.insert((k, V::make(k)));
                        }
                    }
                    for r in [a, b] {
                        if r.is_some() != p || r.is_some_and(|v| !v.ok(k)) {
                            vbail!("{name}: insert of {k} (present: {p}) returned a wrong old value");
                        }
                    }
                    here[k as usize] = true;
                }
                5 | 6 => {
                    let a = hm.remove(&k, e, g).unwrap();
                    let b = if case.rng.chance(1, 2) { om.swap_remove(&k, e, g).unwrap() } else { om.shift_remove(&k, e, g).unwrap() };
                    let c = match ht.find_entry(mix(k as u64), eq, e, g).unwrap() {
                        Ok(o) => Some(o.remove().0 .1),
                        Err(_) => None,
                    };
                    for r in [a, b, c] {
                        if r.is_some() != p || r.is_some_and(|v| !v.ok(k)) {
                            vbail!("{name}: removal of {k} (present: {p}) returned a wrong value");
                        }
                    }
                    here[k as usize] = false;
                }
                _ => match case.rng.below(7) {
                    0 => {
                        hm.shrink_to_fit();
                        om.shrink_to_fit();
                        ht.shrink_to_fit(hs);
                    }
                    1 => {
                        hm.reserve(5);
                        om.reserve(5);
                        ht.reserve(5, hs);
                    }
                    2 => {
                        hm = hm.clone();
                        om = om.clone();
                        ht = ht.clone();
                    }
                    3 => {
                        hm.retain(|k, _| k % 3 != 0);
                        om.retain(|k, _| k % 3 != 0);
                        ht.retain(|x| x.0 % 3 != 0);
                        for i in 0..n as usize {
                            if i % 3 == 0 {
                                here[i] = false
                            }
                        }
                    }
                    4 => {
                        let (mut a, mut b, mut c) = (HashMap::new(), RubyMap::new(), HashTable::new());
                        b.insert(k, V::make(k), e, g).unwrap();
                        a.insert(k, V::make(k), e, g).unwrap();
                        c.insert_unique(mix(k as u64), (k, V::make(k)), hs);
                        a.clone_from(&hm);
                        b.clone_from(&om);
                        c.clone_from(&ht);
                        hm = a;
                        om = b;
                        ht = c;
                    }
                    5 if step % 5 == 0 => {
                        let d: Vec<(u32, V)> = hm.drain().collect();
                        for (k, v) in d {
                            if !v.ok(k) {
                                vbail!("{name}: drained a wrong value");
                            }
                            hm.insert(k, v, e, g).unwrap();
                        }
                    }
                    _ => {
                        let d: Vec<(u32, V)> = hm.extract_if(|k, _| k % 4 == 1).collect();
                        for (k, v) in d {
                            if !v.ok(k) {
                                vbail!("{name}: extracted a wrong value");
                            }
                            hm.insert(k, v, e, g).unwrap();
                        }
                    }
                },
            }
            let cnt = here.iter().filter(|x| **x).count();
            if (hm.len(), om.len(), ht.len()) != (cnt, cnt, cnt) {
                vbail!("{name}: lengths {} {} {}, expected {cnt}", hm.len(), om.len(), ht.len());
            }
            if step % 7 == 0 {
                for (k, v) in hm.iter() {
                    if !v.ok(*k) || !here[*k as usize] {
                        vbail!("{name}: wrong bytes at {k} in the unordered map");
                    }
                }
                for (k, v) in om.iter() {
                    if !v.ok(*k) || !here[*k as usize] {
                        vbail!("{name}: wrong bytes at {k} in the ordered map");
                    }
                }
                for (k, v) in ht.iter() {
                    if !v.ok(*k) || !here[*k as usize] {
                        vbail!("{name}: wrong bytes at {k} in the table");
                    }
                }
            }
        }
        if hm.allocation_size() < hm.len() * std::mem::size_of::<(u32, V)>() {
            vbail!("{name}: reported allocation smaller than its contents");
        }
    }
    let now = vh::alloc::snapshot().2;
    veq!(now - base, 0, "{name}: bytes still allocated");
    Ok(())
}

fn main() {
    vh::main_loop("c09", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let sel = case.rng.below(12);
        case.sig(sel);
        case.sample = Some(format!("memory history kind {sel}"));
        match sel {
            0..=3 => map_case(case, &mut vm, &mut g),
            4..=5 => set_case(case, &mut vm, &mut g),
            6..=9 => table_case(case, &mut vm, &mut g),
            _ => {
                case.nontrivial();
                let k = case.rng.below(9);
                case.sig(k << 4);
                for _ in 0..3 {
                    let x = case.rng.next();
                    case.sig(x);
                }
                // warm up thread-local hashing state outside the byte balance
                let _ = std::hash::RandomState::new();
                let _: HashMap<u32, (), (), (), ()> = HashMap::new();
                case.count("odd_elements");
                match k {
                    0 => odd_map::<()>(case, "odd_unit"),
                    1 => odd_map::<u8>(case, "odd_u8"),
                    2 => odd_map::<Bytes<3>>(case, "odd_bytes3"),
                    3 => odd_map::<Bytes<257>>(case, "odd_bytes257"),
                    4 => odd_map::<A16>(case, "odd_align16"),
                    5 => odd_map::<A32>(case, "odd_align32"),
                    6 => odd_map::<A64>(case, "odd_align64"),
                    7 => odd_map::<A128>(case, "odd_align128"),
                    _ => odd_map::<Heapy>(case, "odd_heap"),
                }
            }
        }
    })
}
