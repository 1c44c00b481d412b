//! C04: symbol and pre-hashed fast paths vs the general path.
use hash::mapm::{self, anomalies, pos, Ent, Gen, Model, Op, Profile, KV, M};
use hash::*;
use rubymap::RubyMap;
use ruby_traits::RubyHash;
use std::hash::{BuildHasher, Hasher};
use vh::{vbail, veq, Case, Verdict};

#[derive(Debug, Clone)]
enum F {
    Sym(Core, u64),
    SymFull(Core, u64),
    Pre(KV),
    PreWith(KV),
    PreGet(Core),
    PreGetWith(Core),
    Ins(KV),
    InsFull(KV),
    Get(Core),
    Shift(Core),
    Swap(Core),
    Entry(KV),
}
impl F {
    fn name(&self) -> &'static str {
        match self {
            F::Sym(..) | F::SymFull(..) => "fast_sym_insert",
            F::Pre(..) => "fast_prehashed_insert",
            F::PreWith(..) => "fast_prehashed_with_insert",
            F::PreGet(..) => "fast_prehashed_get",
            F::PreGetWith(..) => "fast_prehashed_with_get",
            F::Ins(..) | F::InsFull(..) => "gen_insert",
            F::Get(..) => "gen_get",
            F::Shift(..) | F::Swap(..) => "gen_remove",
            F::Entry(..) => "gen_entry",
        }
    }
    fn fast(&self) -> bool {
        matches!(self, F::Sym(..) | F::SymFull(..) | F::Pre(..) | F::PreWith(..) | F::PreGet(..) | F::PreGetWith(..))
    }
}

fn digest<S: BuildHasher>(s: &S, c: &Core, g: &mut Gl) -> usize {
    let mut h = s.build_hasher();
    // a private interpreter, so the observed one sees only the container's callbacks
    let (mut vm, _) = Vm::new();
    let _ = RubyHash::ruby_hash(c, &mut h, &mut vm, g);
    h.finish() as usize
}

type Obs = (Option<usize>, Option<u64>);

fn real<S: BuildHasher>(m: &mut RubyMap<K, V, Vm, Gl, Exc, S>, f: &F, vm: &mut Vm, g: &mut Gl) -> Result<Obs, Exc> {
    let hb = |m: &RubyMap<K, V, Vm, Gl, Exc, S>, c: &Core, g: &mut Gl| digest(m.hasher(), c, g);
    Ok(match f {
        F::Sym(c, v) => (None, m.insert_sym(*c, V::new(*v)).map(|v| v.v)),
        F::SymFull(c, v) => {
            let (i, r) = m.insert_sym_full(*c, V::new(*v));
            (Some(i), r.map(|v| v.v))
        }
        F::Pre(x) => {
            let h = hb(m, &x.0, g);
            (None, m.insert_prehashed(h, K::new(x.0, x.1), V::new(x.2)).map(|v| v.v))
        }
        F::PreWith(x) => {
            let h = hb(m, &x.0, g);
            (None, m.insert_prehashed_with(h, K::new(x.0, x.1), V::new(x.2), |k| k.core.val == x.0.val).map(|v| v.v))
        }
        F::PreGet(c) => {
            let h = hb(m, c, g);
            let k = K::new(*c, 1);
            (None, m.get_prehashed(h, &k, vm, g)?.map(|v| v.v))
        }
        F::PreGetWith(c) => {
            let h = hb(m, c, g);
            (None, m.get_prehashed_with(h, |k| k.core.val == c.val, vm, g)?.map(|v| v.v))
        }
        F::Ins(x) => (None, m.insert(K::new(x.0, x.1), V::new(x.2), vm, g)?.map(|v| v.v)),
        F::InsFull(x) => {
            let (i, r) = m.insert_full(K::new(x.0, x.1), V::new(x.2), vm, g)?;
            (Some(i), r.map(|v| v.v))
        }
        F::Get(c) => match m.get_full(c, vm, g)? {
            None => (None, None),
            Some((i, _, v)) => (Some(i), Some(v.v)),
        },
        F::Shift(c) => match m.shift_remove_full(c, vm, g)? {
            None => (None, None),
            Some((i, _, v)) => (Some(i), Some(v.v)),
        },
        F::Swap(c) => match m.swap_remove_full(c, vm, g)? {
            None => (None, None),
            Some((i, _, v)) => (Some(i), Some(v.v)),
        },
        F::Entry(x) => {
            let e = m.entry(K::new(x.0, x.1), vm, g)?;
            let i = e.index();
            (Some(i), Some(e.or_insert(V::new(x.2)).v))
        }
    })
}

fn model(m: &mut Model, f: &F) -> Obs {
    let ins = |m: &mut Model, c: Core, tag: u64, v: u64| -> (usize, Option<u64>) {
        match pos(m, &c) {
            Some(i) => (i, Some(std::mem::replace(&mut m[i].v, v))),
            None => {
                m.push(Ent { core: c, tag, v });
                (m.len() - 1, None)
            }
        }
    };
    let sym = |c: &Core| SYM_TAG | c.val as u64;
    match f {
        F::Sym(c, v) => (None, ins(m, *c, sym(c), *v).1),
        F::SymFull(c, v) => {
            let (i, r) = ins(m, *c, sym(c), *v);
            (Some(i), r)
        }
        F::Pre(x) | F::PreWith(x) | F::Ins(x) => (None, ins(m, x.0, x.1, x.2).1),
        F::InsFull(x) => {
            let (i, r) = ins(m, x.0, x.1, x.2);
            (Some(i), r)
        }
        F::PreGet(c) | F::PreGetWith(c) => (None, pos(m, c).map(|i| m[i].v)),
        F::Get(c) => match pos(m, c) {
            None => (None, None),
            Some(i) => (Some(i), Some(m[i].v)),
        },
        F::Shift(c) => match pos(m, c) {
            None => (None, None),
            Some(i) => (Some(i), Some(m.remove(i).v)),
        },
        F::Swap(c) => match pos(m, c) {
            None => (None, None),
            Some(i) => (Some(i), Some(m.swap_remove(i).v)),
        },
        F::Entry(x) => {
            let i = pos(m, &x.0).unwrap_or_else(|| {
                m.push(Ent { core: x.0, tag: x.1, v: x.2 });
                m.len() - 1
            });
            (Some(i), Some(m[i].v))
        }
    }
}

fn gen_f(gen: &mut Gen, r: &mut vh::Rng, m: &Model, over: bool) -> F {
    let c = gen.key(r, m);
    let v = gen.fresh();
    let w = if over { 1 } else { 4 };
    match r.weighted(&[w, w, w, w, 3, 3, w, w, 3, 3, 2, 2]) {
        0 => F::Sym(c, v),
        1 => F::SymFull(c, v),
        2 => F::Pre(gen.kv(r, m)),
        3 => F::PreWith(gen.kv(r, m)),
        4 => F::PreGet(c),
        5 => F::PreGetWith(c),
        6 => F::Ins(gen.kv(r, m)),
        7 => F::InsFull(gen.kv(r, m)),
        8 => F::Get(c),
        9 => F::Shift(c),
        10 => F::Swap(c),
        _ => F::Entry(gen.kv(r, m)),
    }
}

fn drive<S: BuildHasher>(
    case: &mut Case,
    gen: &mut Gen,
    target: usize,
    steps: u64,
    m: &mut RubyMap<K, V, Vm, Gl, Exc, S>,
    md: &mut Model,
    vm: &mut Vm,
    g: &mut Gl,
    mut other: impl FnMut(&mut Case, &mut Gen, &mut RubyMap<K, V, Vm, Gl, Exc, S>, &mut Model, &mut Vm, &mut Gl) -> Verdict,
) -> Verdict {
    for _ in 0..steps {
        if case.rng.chance(1, 5) {
            other(case, gen, m, md, vm, g)?;
        }
        let mut r = case.rng.clone();
        let f = gen_f(gen, &mut r, md, md.len() > target);
        case.rng = r;
        case.op(|| format!("{f:?}"));
        case.count(f.name());
        if f.fast() {
            case.count(if md.len() > 8 { "fast_above_8" } else if md.len() == 8 { "fast_at_8" } else { "fast_below_8" });
        }
        let before = md.len();
        let want = model(md, &f);
        let calls = vm.calls;
        match vh::catch(|| real(m, &f, vm, g)) {
            Ok(Ok(o)) if o == want => {}
            o => vbail!("{f:?} on {before} entries: {o:?}, expected {want:?}"),
        }
        if f.fast() {
            veq!(vm.calls - calls, 0, "user callbacks run by {f:?}");
        }
        if before <= 8 && md.len() > 8 {
            case.count(if f.fast() { "crossed_by_fast_path" } else { "crossed_by_general_path" });
            case.nontrivial();
        }
        case.sig(f.name().len() as u64 ^ (md.len() as u64) << 8);
        // contents and positions through the general path
        veq!(m.len(), md.len(), "length after {f:?}");
        for (i, (k, v)) in m.iter().enumerate() {
            let e = &md[i];
            if (k.core, k.tag, v.v) != (e.core, e.tag, e.v) {
                vbail!("after {f:?}: pair {i} is {k:?}=>{v:?}, expected {e:?}");
            }
        }
        anomalies()?;
        let all = md.len() <= 12 || case.rng.chance(1, 5);
        for _ in 0..if all { gen.uni.cores.len() } else { 3 } {
            let c = *case.rng.pick(&gen.uni.cores);
            let w = pos(md, &c);
            match m.get_index_of(&c, vm, g) {
                Ok(x) => veq!(x, w, "after {f:?}: position of {c:?} by the general path"),
                Err(e) => vbail!("{e:?}"),
            }
            let h = digest(m.hasher(), &c, g);
            match m.get_prehashed_with(h, |k| k.core.val == c.val, vm, g) {
                Ok(x) => veq!(x.map(|v| v.v), w.map(|i| md[i].v), "after {f:?}: value of {c:?} by the pre-hashed path"),
                Err(e) => vbail!("{e:?}"),
            }
        }
    }
    Ok(())
}

/// The table-level symbol entry against the general entry.
fn table_case(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    use hashbrown::hash_table::{Entry, HashTable};
    let n = *case.rng.pick(&[4usize, 12, 40]);
    let uni = Universe::gen(&mut case.rng, n);
    let mut gen = Gen::new(uni);
    let mut t: HashTable<(K, V), Vm, Gl, Exc> = HashTable::with_capacity(case.rng.us(12));
    let mut md: Model = vec![];
    for _ in 0..if case.slow { 20 } else { 120 } {
        let mut r = case.rng.clone();
        let c = gen.key(&mut r, &md);
        case.rng = r;
        let v = gen.fresh();
        let sym = case.rng.chance(1, 2);
        let act = case.rng.below(3);
        case.op(|| format!("table entry sym={sym} act={act} {c:?}"));
        let p = pos(&md, &c);
        let calls = vm.calls;
        let e = if sym {
            case.count("table_sym_entry");
            t.entry_sym(c.h, |x| x.0.core.val == c.val, |x| x.0.core.h)
        } else {
            match t.entry(c.h, |x, vm, g| ruby_traits::RubyEql::eql(&c, &x.0.core, vm, g), |x| x.0.core.h, vm, g) {
                Ok(e) => e,
                Err(e) => vbail!("entry raised {e:?}"),
            }
        };
        match (e, p) {
            (Entry::Occupied(mut o), Some(i)) => {
                veq!((o.get().0.core, o.get().1.v), (md[i].core, md[i].v), "occupied entry");
                if act == 0 {
                    o.remove();
                    md.swap_remove(i);
                } else {
                    o.get_mut().1.set(v);
                    md[i].v = v;
                }
            }
            (Entry::Vacant(e), None) => {
                if act != 0 {
                    e.insert((K::new(c, v), V::new(v)));
                    md.push(Ent { core: c, tag: v, v });
                }
            }
            (e, p) => vbail!("entry (sym={sym}) of {c:?} is {} but the key is {}", if matches!(e, Entry::Occupied(_)) { "occupied" } else { "vacant" }, if p.is_some() { "present" } else { "absent" }),
        }
        if sym {
            veq!(vm.calls - calls, 0, "user callbacks run by the symbol entry");
        }
        veq!(t.len(), md.len(), "table length");
        for c in &gen.uni.cores {
            match t.find(c.h, |x, vm, g| ruby_traits::RubyEql::eql(c, &x.0.core, vm, g), vm, g) {
                Ok(x) => veq!(x.map(|x| x.1.v), pos(&md, c).map(|i| md[i].v), "find {c:?}"),
                Err(e) => vbail!("{e:?}"),
            }
        }
        anomalies()?;
    }
    Ok(())
}

fn main() {
    vh::main_loop("c04", |case| {
        vh::ledger::reset();
        let (mut vm, mut g) = Vm::new();
        let mode = case.rng.below(8);
        case.sig(mode);
        if mode == 0 {
            return table_case(case, &mut vm, &mut g);
        }
        let n = *case.rng.pick(&[6usize, 10, 14, 30, 80]);
        let uni = Universe::gen(&mut case.rng, n);
        case.sig(uni.policy);
        let mut gen = Gen::new(uni);
        let target = *case.rng.pick(&[7usize, 9, 16, 40]);
        let cap = *case.rng.pick(&[0usize, 0, 4, 8, 9, 30]);
        let steps = if case.slow { 25 } else { case.rng.range(20, 150) };
        let mut md: Model = vec![];
        if mode <= 2 {
            // the default (keyed, well mixing) hasher
            case.count("default_hasher_cases");
            let mut m: RubyMap<K, V, Vm, Gl, Exc> = RubyMap::with_capacity(cap);
            drive(case, &mut gen, target, steps, &mut m, &mut md, &mut vm, &mut g, |case, _, m, md, _, _| {
                match case.rng.below(4) {
                    0 => {
                        m.reverse();
                        md.reverse()
                    }
                    1 => {
                        let md2 = case.rng.range(2, 6);
                        m.retain(|k, _| k.core.val as u64 % md2 != 0);
                        md.retain(|e| e.core.val as u64 % md2 != 0)
                    }
                    2 => m.shrink_to_fit(),
                    _ => m.reserve(5),
                }
                Ok(())
            })?;
        } else {
            let p = Profile { dict: 10, positional: 6, entry: 6, bulk: 1, cap: 2, grow: 2, target_len: target, check_every: 1 };
            let mut m = M::with_capacity_and_hasher(cap, Bh);
            drive(case, &mut gen, target, steps, &mut m, &mut md, &mut vm, &mut g, |case, gen, m, md, vm, g| {
                let mut r = case.rng.clone();
                let op: Op = gen.op(&mut r, md, &p);
                case.rng = r;
                mapm::step(case, m, md, &op, vm, g)
            })?;
        }
        case.sample = Some(format!("mode {mode} universe {n} capacity {cap}: {steps} mixed-path steps, {} pairs", md.len()));
        Ok(())
    })
}
