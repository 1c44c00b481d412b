//! C14: built-in key types: eql?/hash contract through every form, composites and faults.
use hash::*;
use hashbrown::hash_map::HashMap;
use ruby_traits::{Equivalent, RubyEql, RubyHash};
use rubymap::{RubyMap, RubySet};
use std::hash::{DefaultHasher, Hasher};
use vh::{vbail, veq, Case, Rng, Verdict};

/// Records everything written to it.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        let mut h = DefaultHasher::new();
        h.write(&self.0);
        h.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
type R = Exc;
fn stream<T: ?Sized + RubyHash<Vm, Gl, R>>(x: &T, vm: &mut Vm, g: &mut Gl) -> Result<Vec<u8>, R> {
    let mut h = Rec::default();
    x.ruby_hash(&mut h, vm, g)?;
    let mut d = DefaultHasher::new();
    x.ruby_hash(&mut d, vm, g)?;
    h.0.extend(d.finish().to_le_bytes());
    Ok(h.0)
}

trait Basic: Clone + PartialEq + std::fmt::Debug + RubyEql<Vm, Gl, R> + RubyHash<Vm, Gl, R> + 'static {
    fn gen(r: &mut Rng) -> Self;
    const NAME: &'static str;
}
macro_rules! basic_int {
    ($($t:ty, $n:literal);*) => { $(impl Basic for $t {
        const NAME: &'static str = $n;
        fn gen(r: &mut Rng) -> $t {
            match r.below(6) {
                0 => *r.pick(&[0 as $t, 1, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, <$t>::MIN + 1, (0 as $t).wrapping_sub(1)]),
                1 => (1u64 << r.below(64)) as $t,
                2 => ((1u64 << r.below(64)) as $t) ^ 1,
                3 => r.below(8) as $t,
                _ => r.next() as $t,
            }
        }
    })* };
}
basic_int!(i8, "t_i8"; u8, "t_u8"; i16, "t_i16"; u16, "t_u16"; i32, "t_i32"; u32, "t_u32"; i64, "t_i64"; u64, "t_u64"; isize, "t_isize"; usize, "t_usize");
impl Basic for () {
    const NAME: &'static str = "t_unit";
    fn gen(_: &mut Rng) {}
}
impl Basic for bool {
    const NAME: &'static str = "t_bool";
    fn gen(r: &mut Rng) -> bool {
        r.chance(1, 2)
    }
}
impl Basic for char {
    const NAME: &'static str = "t_char";
    fn gen(r: &mut Rng) -> char {
        match r.below(4) {
            0 => *r.pick(&['\0', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'A', 'a']),
            1 => (b'a' + r.below(4) as u8) as char,
            _ => char::from_u32(r.below(0xd800) as u32).unwrap(),
        }
    }
}
impl Basic for String {
    const NAME: &'static str = "t_string";
    fn gen(r: &mut Rng) -> String {
        let n = *r.pick(&[0u64, 1, 2, 3, 8, 15, 16, 17, 40, 300]);
        let mut s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'A', '\0', 'é', 'あ', '\u{ff}'])).collect();
        if n > 20 {
            // long strings differing late or early
            s = "x".repeat(n as usize) + &s[..s.char_indices().nth(3).map(|x| x.0).unwrap_or(0)];
        }
        s
    }
}
impl<T: Basic> Basic for Option<T> {
    const NAME: &'static str = "t_option";
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 5) {
            None
        } else {
            Some(T::gen(r))
        }
    }
}
impl<T: Basic> Basic for Vec<T> {
    const NAME: &'static str = "t_vec";
    fn gen(r: &mut Rng) -> Self {
        let n = *r.pick(&[0u64, 1, 1, 2, 2, 3, 7, 20]);
        (0..n).map(|_| T::gen(r)).collect()
    }
}

/// A value close to `x`, mostly different from it.
fn near<T: Basic>(r: &mut Rng, x: &T, pool: &[T]) -> T {
    match r.below(4) {
        0 => x.clone(),
        1 => T::gen(r),
        _ => r.pick(pool).clone(),
    }
}

fn contract<T: Basic>(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    case.count(T::NAME);
    let pool: Vec<T> = (0..12).map(|_| T::gen(&mut case.rng)).collect();
    for _ in 0..if case.slow { 4 } else { 24 } {
        vh::step();
        let a = case.rng.pick(&pool).clone();
        let b = near(&mut case.rng, &a, &pool);
        let c = near(&mut case.rng, &b, &pool);
        let same = a == b;
        let eq = |x: &T, y: &T, vm: &mut Vm, g: &mut Gl| x.eql(y, vm, g);
        veq!(eq(&a, &b, vm, g), Ok(same), "{}: {a:?} eql? {b:?}", T::NAME);
        veq!(eq(&b, &a, vm, g), Ok(same), "{}: {b:?} eql? {a:?}", T::NAME);
        veq!(eq(&a, &a, vm, g), Ok(true), "{}: {a:?} eql? itself", T::NAME);
        let (ab, bc, ac) = (eq(&a, &b, vm, g), eq(&b, &c, vm, g), eq(&a, &c, vm, g));
        if ab == Ok(true) && bc == Ok(true) && ac != Ok(true) {
            vbail!("{}: eql? is not transitive on {a:?} {b:?} {c:?}", T::NAME);
        }
        veq!(Equivalent::<T, Vm, Gl, R>::equivalent(&a, &b, vm, g), Ok(same), "{}: equivalent", T::NAME);
        let (ha, hb) = (stream(&a, vm, g), stream(&b, vm, g));
        if ha.is_err() || hb.is_err() {
            vbail!("{}: hashing {a:?}/{b:?} raised", T::NAME);
        }
        veq!(stream(&a, vm, g), ha, "{}: second hash of {a:?}", T::NAME);
        if same {
            case.count("equal_pairs");
            veq!(ha, hb, "{}: hashes of equal {a:?} {b:?}", T::NAME);
        } else {
            case.count("unequal_pairs");
        }
        case.sig_bytes(ha.as_deref().unwrap_or(&[]));
    }
    // through a container
    let (e, gg) = (vm, g);
    let mut om: RubyMap<T, usize, Vm, Gl, R> = RubyMap::new();
    let mut os: RubySet<T, Vm, Gl, R> = RubySet::new();
    let mut seen: Vec<T> = vec![];
    for x in &pool {
        let p = seen.iter().position(|y| y == x);
        match om.insert_full(x.clone(), seen.len(), e, gg) {
            Ok((i, old)) => veq!((i, old.is_some()), (p.unwrap_or(seen.len()), p.is_some()), "{}: position of key {x:?} among {seen:?}", T::NAME),
            Err(e) => vbail!("{}: {e:?}", T::NAME),
        }
        veq!(os.insert(x.clone(), e, gg), Ok(p.is_none()), "{}: {x:?} added to the set {seen:?}", T::NAME);
        if p.is_none() {
            seen.push(x.clone());
        }
    }
    for x in &pool {
        veq!(om.get_index_of(x, e, gg), Ok(seen.iter().position(|y| y == x)), "{}: lookup of {x:?}", T::NAME);
    }
    case.nontrivial();
    Ok(())
}

/// Reference forms: &T and &mut T behave as T.
macro_rules! forms {
    ($name:ident, $($t:ty),*) => {
        fn $name(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
            $({
                let pool: Vec<$t> = (0..6).map(|_| <$t as Basic>::gen(&mut case.rng)).collect();
                let mut a = case.rng.pick(&pool).clone();
                let mut b = near(&mut case.rng, &a, &pool);
                let same = a == b;
                let nm = <$t as Basic>::NAME;
                let ha = stream(&a, vm, g);
                let (a2, b2) = (a.clone(), b.clone());
                veq!(stream::<&$t>(&&a2, vm, g), ha, "{nm}: hash through a shared reference of {a2:?}");
                veq!(<&$t as RubyEql<Vm, Gl, R>>::eql(&&a2, &&b2, vm, g), Ok(same), "{nm}: eql? through shared references of {a2:?} {b2:?}");
                {
                    let (ra, rb) = (&mut a, &mut b);
                    veq!(stream::<&mut $t>(&ra, vm, g), ha, "{nm}: hash through an exclusive reference of {a2:?}");
                    veq!(<&mut $t as RubyEql<Vm, Gl, R>>::eql(&ra, &rb, vm, g), Ok(same), "{nm}: eql? through exclusive references of {a2:?} {b2:?}");
                }
                let mut m: RubyMap<&$t, u8, Vm, Gl, R> = RubyMap::new();
                let r = m.insert(&a2, 1, vm, g);
                veq!(r, Ok(None), "{nm}: insert by reference");
                veq!(m.get(&&b2, vm, g).map(|x| x.is_some()), Ok(same), "{nm}: lookup of {b2:?} among [{a2:?}] by reference");
                case.count("reference_forms");
            })*
            Ok(())
        }
    };
}
forms!(forms, (), bool, char, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, String);

fn strings(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    let n = *case.rng.pick(&[3usize, 8, 12, 40]);
    let pool: Vec<String> = (0..n).map(|_| String::gen(&mut case.rng)).collect();
    let mut m: RubyMap<String, usize, Vm, Gl, R> = RubyMap::new();
    let mut h: HashMap<String, usize, Vm, Gl, R> = HashMap::new();
    let mut seen: Vec<&String> = vec![];
    for (i, s) in pool.iter().enumerate().filter(|(i, _)| i % 3 != 2) {
        let _ = m.insert(s.clone(), i, vm, g);
        let _ = h.insert(s.clone(), i, vm, g);
        if !seen.contains(&s) {
            seen.push(s);
        }
    }
    for s in &pool {
        let b: &str = s;
        veq!(stream::<str>(b, vm, g), stream::<String>(s, vm, g), "hash of {b:?} as text and as an owned string");
        veq!(stream::<&str>(&b, vm, g), stream::<String>(s, vm, g), "hash of {b:?} as text reference and as an owned string");
        let t = case.rng.pick(&pool);
        veq!(<str as RubyEql<Vm, Gl, R>>::eql(b, t, vm, g), Ok(s == t), "text eql? {b:?} {t:?}");
        veq!(<&str as RubyEql<Vm, Gl, R>>::eql(&b, &t.as_str(), vm, g), Ok(s == t), "text reference eql? {b:?} {t:?}");
        let want = seen.contains(&s);
        veq!(m.get(b, vm, g).map(|x| x.is_some()), Ok(want), "ordered map with owned keys asked by text {b:?}");
        veq!(m.get_index_of(s, vm, g), Ok(seen.iter().position(|x| *x == s)), "position of {s:?}");
        veq!(h.get(b, vm, g).map(|x| x.is_some()), Ok(want), "unordered map with owned keys asked by text {b:?}");
        case.count("borrowed_forms");
        case.sig_bytes(b.as_bytes());
    }
    case.nontrivial();
    Ok(())
}

/// Composite keys made of elements whose callbacks are observed and may raise.
fn composite(case: &mut Case, vm: &mut Vm, g: &mut Gl) -> Verdict {
    fn core(r: &mut Rng) -> Core {
        Core { val: r.below(3) as u32, h: r.below(2) }
    }
    type L = Vec<Core>;
    let gen = |r: &mut Rng| -> L { (0..r.below(5)).map(|_| core(r)).collect() };
    let a = gen(&mut case.rng);
    let b = match case.rng.below(3) {
        0 => gen(&mut case.rng),
        1 => a.clone(),
        _ => {
            let mut b = a.clone();
            if !b.is_empty() {
                let i = case.rng.us(b.len());
                b[i].val += 1;
            }
            b
        }
    };
    // eql? of a sequence: same length and pairwise eql? from the front, stopping at the first difference
    let veq_want = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.val == y.val);
    let forms: [(&str, u64); 6] = [("sequence", 0), ("slice", 1), ("optional sequence", 2), ("sequence of sequences", 3), ("optional element", 4), ("nested optional", 5)];
    let (name, f) = *case.rng.pick(&forms);
    case.count(["comp_vec", "comp_slice", "comp_opt_vec", "comp_vec_vec", "comp_opt", "comp_nested_opt"][f as usize]);
    let (ea, eb) = (core(&mut case.rng), core(&mut case.rng));
    let none = case.rng.below(4);
    let oa = if none & 1 == 1 { None } else { Some(ea) };
    let ob = if none & 2 == 2 { None } else { Some(eb) };
    let run = |vm: &mut Vm, g: &mut Gl| -> Result<bool, Exc> {
        match f {
            0 => a.eql(&b, vm, g),
            1 => a.as_slice().eql(b.as_slice(), vm, g),
            2 => Some(a.clone()).eql(&Some(b.clone()), vm, g),
            3 => vec![a.clone(), b.clone()].eql(&vec![a.clone(), a.clone()], vm, g),
            4 => oa.eql(&ob, vm, g),
            _ => Some(oa).eql(&Some(ob), vm, g),
        }
    };
    let want = match f {
        0..=2 => veq_want,
        3 => b.len() == a.len() && veq_want,
        _ => match (oa, ob) {
            (Some(x), Some(y)) => x.val == y.val,
            (None, None) => true,
            _ => false,
        },
    };
    vm.tracing = true;
    vm.trace.clear();
    vm.calls = 0;
    veq!(run(vm, g), Ok(want), "eql? of {name}: {a:?} {b:?} / {oa:?} {ob:?}");
    let n = vm.calls;
    if vm.trace.iter().any(|e| matches!(e, Ev::Hash(..))) {
        vbail!("eql? of {name} ran hash callbacks");
    }
    vm.tracing = false;
    for at in 0..n {
        let serial = case.rng.next();
        vm.arm(Fault::Raise, at, serial);
        let r = run(vm, g);
        let after = vm.after_fault;
        vm.disarm();
        veq!(r, Err(Exc(serial)), "eql? of {name} when element callback {at} of {n} raises");
        veq!(after, 0, "element callbacks after the error in eql? of {name}");
        case.count("faults");
    }
    let hrun = |vm: &mut Vm, g: &mut Gl| -> Result<Vec<u8>, Exc> {
        let mut h = Rec::default();
        match f {
            0 | 1 => a.ruby_hash(&mut h, vm, g)?,
            2 => Some(a.clone()).ruby_hash(&mut h, vm, g)?,
            3 => vec![a.clone(), b.clone()].ruby_hash(&mut h, vm, g)?,
            4 => oa.ruby_hash(&mut h, vm, g)?,
            _ => Some(oa).ruby_hash(&mut h, vm, g)?,
        }
        Ok(h.0)
    };
    vm.calls = 0;
    let h1 = hrun(vm, g);
    let n = vm.calls;
    veq!(hrun(vm, g), h1, "second hash of {name}");
    for at in 0..n {
        let serial = case.rng.next();
        vm.arm(Fault::Raise, at, serial);
        let r = hrun(vm, g);
        let after = vm.after_fault;
        vm.disarm();
        veq!(r, Err(Exc(serial)), "hash of {name} when element callback {at} of {n} raises");
        veq!(after, 0, "element callbacks after the error in hash of {name}");
        case.count("faults");
    }
    // equal composites of equal elements hash identically, whatever form they are stored in
    if f <= 1 && a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y) {
        let mut h = Rec::default();
        let _ = b.ruby_hash(&mut h, vm, g);
        veq!(Ok(h.0), h1, "hash of equal sequences");
    }
    veq!(vm.wrong_ctx, 0, "callbacks that received the wrong context");
    case.sig((f << 8) ^ n ^ (a.len() as u64) << 16 ^ (b.len() as u64) << 20 ^ (none << 28) ^ (ea.val as u64) << 32 ^ (eb.val as u64) << 36);
    for x in a.iter().chain(&b) {
        case.sig(x.val as u64);
    }
    case.nontrivial();
    Ok(())
}

macro_rules! contracts {
    ($($t:ty),* $(,)?) => { const CONTRACTS: &[fn(&mut Case, &mut Vm, &mut Gl) -> Verdict] = &[$(contract::<$t>),*]; };
}
contracts!(
    (), bool, char, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, String, Option<u64>, Option<String>, Option<bool>, Option<()>,
    Option<Option<u8>>, Vec<u8>, Vec<i32>, Vec<String>, Vec<Option<char>>, Vec<Vec<u16>>, Option<Vec<i64>>, Vec<()>, Vec<bool>, Option<char>,
);

fn main() {
    vh::main_loop("c14", |case| {
        let (mut vm, mut g) = Vm::new();
        let (vm, g) = (&mut vm, &mut g);
        let sel = case.rng.below(10);
        case.sample = Some(format!("key contract kind {sel}"));
        match sel {
            0..=4 => {
                let i = case.rng.us(CONTRACTS.len());
                case.sig(i as u64);
                CONTRACTS[i](case, vm, g)
            }
            5 => strings(case, vm, g),
            6 => {
                case.nontrivial();
                let s = case.rng.clone().next();
                case.sig(s);
                forms(case, vm, g)
            }
            _ => composite(case, vm, g),
        }
    })
}
