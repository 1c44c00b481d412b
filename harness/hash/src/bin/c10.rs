//! C10: reads through the published raw layout against the public interface.
use hash::{mix, Bh, Ident};
use rubymap::{entries_layout, EntriesLayout, RubyMap};
use ruby_traits::{RubyEql, RubyHash};
use std::hash::{BuildHasher, Hash, Hasher, RandomState};
use std::num::{NonZeroU32, NonZeroU64};
use vh::{vbail, veq, Case, Verdict};

trait El: Clone + PartialEq + std::fmt::Debug + 'static {
    fn make(i: u64) -> Self;
}
macro_rules! el_int {
    ($($t:ty),*) => { $(impl El for $t { fn make(i: u64) -> Self { mix(i) as $t } })* };
}
el_int!(u8, u16, u32, u64, i8, i16, i32, i64, usize, u128);
impl El for () {

    fn make(_: u64) {}
}
impl El for bool {

    fn make(i: u64) -> bool {
        mix(i) & 1 == 1
    }
}
impl El for char {

    fn make(i: u64) -> char {
        char::from_u32((mix(i) % 0xd000) as u32).unwrap()
    }
}
impl El for String {

    fn make(i: u64) -> String {
        "x".repeat((i % 40) as usize) + &i.to_string()
    }
}
impl<T: El> El for Option<T> {

    fn make(i: u64) -> Self {
        if i % 11 == 3 {
            None
        } else {
            Some(T::make(i))
        }
    }
}
impl<T: El> El for Vec<T> {

    fn make(i: u64) -> Self {
        (0..i % 5).map(|j| T::make(i.wrapping_mul(7) ^ j)).collect()
    }
}
impl<T: El> El for Box<T> {

    fn make(i: u64) -> Self {
        Box::new(T::make(i))
    }
}
impl<A: El, B: El> El for (A, B) {

    fn make(i: u64) -> Self {
        (A::make(i), B::make(i ^ 5))
    }
}
impl El for f64 {

    fn make(i: u64) -> f64 {
        i as f64 * 0.5
    }
}
impl<const N: usize> El for [u8; N] {

    fn make(i: u64) -> Self {
        std::array::from_fn(|j| mix(i.wrapping_add(j as u64 * 99)) as u8)
    }
}
impl<const N: usize> El for [u64; N] {

    fn make(i: u64) -> Self {
        std::array::from_fn(|j| mix(i.wrapping_add(j as u64 * 99)))
    }
}
macro_rules! el_wrap {
    ($n:ident, $t:ty, $mk:expr $(, $al:literal)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
        $(#[repr(align($al))])?
        struct $n($t);
        impl El for $n {
        
            fn make(i: u64) -> Self {
                let f: fn(u64) -> $t = $mk;
                $n(f(i))
            }
        }
        key!($n);
    };
}
macro_rules! key {
    ($n:ty) => {
        impl RubyHash<(), (), ()> for $n {
            fn ruby_hash<H: Hasher>(&self, s: &mut H, _: &mut (), _: &mut ()) -> Result<(), ()> {
                self.hash(s);
                Ok(())
            }
        }
        impl RubyEql<(), (), ()> for $n {
            fn eql(&self, o: &Self, _: &mut (), _: &mut ()) -> Result<bool, ()> {
                Ok(self == o)
            }
        }
    };
}
el_wrap!(Nz, NonZeroU64, |i| NonZeroU64::new(mix(i) | 1).unwrap());
el_wrap!(Nz32, NonZeroU32, |i| NonZeroU32::new(mix(i) as u32 | 1).unwrap());
el_wrap!(Al16, u64, mix, 16);
el_wrap!(Al64, [u64; 5], |i| [mix(i), i, !i, 3, i << 9], 64);
el_wrap!(B3, [u8; 3], |i| [i as u8, (i >> 8) as u8, 7]);
el_wrap!(B33, [u8; 33], |i| std::array::from_fn(|j| mix(i.wrapping_add(j as u64)) as u8));
el_wrap!(Zst, (), |_| ());
el_wrap!(ZstAl, [u64; 0], |_| [], 32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum En {
    A(u32),
    B(bool),
    C,
}
impl El for En {

    fn make(i: u64) -> Self {
        match i % 3 {
            0 => En::A(mix(i) as u32),
            1 => En::B(i % 2 == 0),
            _ => En::C,
        }
    }
}
key!(En);

/// Hash builders of several sizes and alignments: they sit next to the pairs.
#[derive(Clone, Default)]
struct Big(#[allow(dead_code)] [u64; 5], #[allow(dead_code)] u8);
impl BuildHasher for Big {
    type Hasher = Ident;
    fn build_hasher(&self) -> Ident {
        Bh.build_hasher()
    }
}
#[derive(Clone, Default)]
struct Tiny(#[allow(dead_code)] u8);
impl BuildHasher for Tiny {
    type Hasher = Ident;
    fn build_hasher(&self) -> Ident {
        Bh.build_hasher()
    }
}
#[derive(Clone, Default)]
#[repr(align(64))]
struct Wide(#[allow(dead_code)] [u64; 2]);
impl BuildHasher for Wide {
    type Hasher = Ident;
    fn build_hasher(&self) -> Ident {
        Bh.build_hasher()
    }
}

type Mp<K, V, S> = RubyMap<K, V, (), (), (), S>;

fn compare<K: El, V: El, S>(case: &mut Case, m: &Mp<K, V, S>, lay: &EntriesLayout, what: &str) -> Verdict
where
    K: RubyHash<(), (), ()> + RubyEql<(), (), ()>,
{
    let ty = || format!("{}=>{} ({lay:?}) {what}", std::any::type_name::<K>(), std::any::type_name::<V>());
    let size = std::mem::size_of::<Mp<K, V, S>>();
    if lay.ptr_offset + 8 > size || lay.len_offset + 8 > size || lay.ptr_offset % 8 != 0 || lay.len_offset % 8 != 0 {
        vbail!("{}: words outside the {size}-byte container", ty());
    }
    let base = m as *const _ as *const u8;
    let (ptr, len) = unsafe { (base.add(lay.ptr_offset).cast::<*const u8>().read(), base.add(lay.len_offset).cast::<usize>().read()) };
    veq!(len, m.len(), "{}: length read through the layout", ty());
    veq!(len, m.iter().count(), "{}: length read through the layout vs pairs visited", ty());
    for i in 0..len {
        let Some((k, v)) = m.get_index(i) else { vbail!("{}: no pair at {i} of {len}", ty()) };
        // compare addresses first: a wrong offset must not become a wild read
        let e = (ptr as usize).wrapping_add(i.wrapping_mul(lay.bucket_size));
        let (ka, va) = (e.wrapping_add(lay.key_offset), e.wrapping_add(lay.value_offset));
        if std::mem::size_of::<K>() > 0 {
            if ka != k as *const K as usize {
                vbail!("{}: key {i} of {len} read at {ka:#x}, stored at {k:p}", ty());
            }
            let rk = unsafe { &*ptr.add(i * lay.bucket_size + lay.key_offset).cast::<K>() };
            veq!(rk, k, "{}: key {i}", ty());
        }
        if std::mem::size_of::<V>() > 0 {
            if va != v as *const V as usize {
                vbail!("{}: value {i} of {len} read at {va:#x}, stored at {v:p}", ty());
            }
            let rv = unsafe { &*ptr.add(i * lay.bucket_size + lay.value_offset).cast::<V>() };
            veq!(rv, v, "{}: value {i}", ty());
        }
    }
    case.count_n("pairs_read", len as u64);
    case.count("reads");
    if len > 8 {
        case.count("reads_above_8");
    } else if len > 0 {
        case.count("reads_upto_8");
    } else {
        case.count("reads_empty");
    }
    Ok(())
}

fn run<K: El, V: El, S: BuildHasher + Default + Clone>(case: &mut Case) -> Verdict
where
    K: RubyHash<(), (), ()> + RubyEql<(), (), ()>,
{
    // a live neighbour keeps the probe's own allocation at varying addresses
    let ballast: Vec<Vec<u8>> = (0..case.rng.us(4)).map(|i| vec![1; 40 << i]).collect();
    let Some(lay) = entries_layout::<K, V, (), (), (), S>() else {
        case.count("layout_not_established");
        return Ok(());
    };
    drop(ballast);
    case.count("layouts");
    case.nontrivial();
    case.sig_bytes(std::any::type_name::<Mp<K, V, S>>().as_bytes());
    if case.rng.chance(1, 8) {
        veq!(entries_layout::<K, V, (), (), (), S>(), Some(lay), "layout published a second time");
    }
    let (e, g) = (&mut (), &mut ());
    let mut m: Mp<K, V, S> = Mp::with_capacity_and_hasher(case.rng.us(20), S::default());
    compare(case, &m, &lay, "when new")?;
    let mut kept: Vec<Box<Mp<K, V, S>>> = vec![];
    let uni = *case.rng.pick(&[4u64, 10, 30, 120]);
    let steps = if case.slow { 10 } else { case.rng.range(10, 80) };
    let mut nv = 0u64;
    for _ in 0..steps {
        let (a, b) = (case.rng.below(uni), case.rng.next());
        nv += 1;
        let n = m.len();
        let at = case.rng.us(n + 1);
        let op = case.rng.below(34);
        case.sig(op);
        case.op(|| format!("{} op {op} a={a} at={at} len={n}", std::any::type_name::<Mp<K, V, S>>()));
        match op {
            0..=9 => drop(m.insert(K::make(a), V::make(nv), e, g).unwrap()),
            10 => drop(m.swap_remove(&K::make(a), e, g).unwrap()),
            11 => drop(m.shift_remove(&K::make(a), e, g).unwrap()),
            12 => drop(m.pop(e, g).unwrap()),
            13 => m.truncate(at, e, g).unwrap(),
            14 if b % 3 == 0 => m.clear(),
            15 => drop(m.drain(at.., e, g).unwrap().next()),
            16 => {
                let t = m.split_off(at, e, g).unwrap();
                compare(case, &t, &lay, "split off")?;
                if b % 2 == 0 {
                    compare(case, &m, &lay, "after split_off")?;
                    m = t;
                }
            }
            17 => {
                let mut o: Mp<K, V, S> = Mp::with_capacity_and_hasher(0, S::default());
                for j in 0..b % 13 {
                    o.insert(K::make(j), V::make(nv + j), e, g).unwrap();
                }
                m.append(&mut o, e, g).unwrap();
                compare(case, &o, &lay, "emptied by append")?;
            }
            18 => m.extend((0..b % 15).map(|j| (K::make(j + a), V::make(nv + j))), e, g).unwrap(),
            19 => {
                let mut j = 0;
                m.retain(|_, _| {
                    j += 1;
                    j % 3 != 1
                })
            }
            20 => m.sort_by(|_, a, _, b| format!("{a:?}").cmp(&format!("{b:?}"))),
            21 => m.reverse(),
            22 if n > 0 => m.move_index(case.rng.us(n), case.rng.us(n), e, g).unwrap(),
            23 => m.reserve(case.rng.us(40)),
            24 => m.shrink_to_fit(),
            25 => m = m.clone(),
            26 => {
                let mut c: Mp<K, V, S> = Mp::with_capacity_and_hasher(case.rng.us(12), S::default());
                for j in 0..b % 12 {
                    c.insert(K::make(j), V::make(j), e, g).unwrap();
                }
                c.clone_from(&m);
                compare(case, &c, &lay, "clone_from")?;
                m = c;
            }
            27 => {
                // a traversal window: positions stay while it is open
                let w = case.rng.range(1, 4);
                for j in 0..w {
                    drop(m.tombstone_remove(&K::make(a + j), K::make(u64::MAX), V::make(nv), e, g).unwrap());
                    compare(case, &m, &lay, "inside a traversal window")?;
                }
                let d = K::make(u64::MAX);
                m.compact_tombstones(|k| *k == d);
                case.count("windows");
            }
            28 => drop(m.entry(K::make(a), e, g).unwrap().or_insert(V::make(nv))),
            29 => {
                for v in m.values_mut() {
                    *v = V::make(nv);
                }
            }
            30 => {
                let b = Box::new(m);
                compare(case, &b, &lay, "moved to the heap")?;
                m = *b;
            }
            31 => {
                let c = m.clone();
                kept.push(Box::new(m));
                m = c;
            }
            32 => m.shrink_to(case.rng.us(30)),
            33 => drop(m.insert_before(at, K::make(a), V::make(nv), e, g).unwrap()),
            _ => {}
        }
        compare(case, &m, &lay, "after a step")?;
    }
    for k in &kept {
        compare(case, k, &lay, "kept from earlier")?;
    }
    let m2 = m.map_keys(|k| (k, 7u8));
    if let Some(l2) = entries_layout::<(K, u8), V, (), (), (), S>() {
        // only the raw positions: the mapped key type has no hash of its own
        let base = &m2 as *const _ as *const u8;
        let size = std::mem::size_of_val(&m2);
        if l2.len_offset + 8 > size || l2.ptr_offset + 8 > size {
            vbail!("mapped keys: words outside the container");
        }
        let len = unsafe { base.add(l2.len_offset).cast::<usize>().read() };
        veq!(len, m2.len(), "mapped keys: length read through the layout");
        let ptr = unsafe { base.add(l2.ptr_offset).cast::<usize>().read() };
        for (i, (k, v)) in m2.iter().enumerate() {
            let at = ptr.wrapping_add(i * l2.bucket_size);
            if at.wrapping_add(l2.key_offset) != k as *const _ as usize || (std::mem::size_of::<V>() > 0 && at.wrapping_add(l2.value_offset) != v as *const _ as usize) {
                vbail!("mapped keys: pair {i} is not where the layout says ({l2:?})");
            }
        }
        case.count("mapped");
    }
    Ok(())
}

macro_rules! combos {
    ($($k:ty, $v:ty, $s:ty;)*) => {
        const COMBOS: &[fn(&mut Case) -> Verdict] = &[$(run::<$k, $v, $s>),*];
    };
}
combos! {
    u64, u64, RandomState;
    Nz, Nz, RandomState;
    Option<Nz>, Nz, RandomState;
    Option<Nz>, Nz, Bh;
    Nz, Nz, Big;
    u8, u8, Tiny;
    u16, u64, Bh;
    u32, u8, Wide;
    Zst, u64, RandomState;
    u64, (), Bh;
    String, String, RandomState;
    String, u8, Big;
    Al16, u8, Wide;
    u64, Al64, Tiny;
    Al64, Option<Nz>, RandomState;
    B3, B3, Bh;
    B33, u64, Tiny;
    u8, B33, RandomState;
    ZstAl, u8, Bh;
    u16, ZstAl, Big;
    En, Box<u64>, RandomState;
    Option<u64>, f64, Wide;
    Vec<u8>, u128, Bh;
    bool, (u8, u32), Tiny;
    Option<Nz32>, u16, Big;
    char, char, RandomState;
    i64, Vec<u64>, Wide;
    Option<Nz>, Option<Nz>, Wide;
    u64, bool, Big;
    Zst, Zst, Tiny;
}

fn main() {
    vh::main_loop("c10", |case| {
        let sel = case.rng.us(COMBOS.len());
        case.sample = Some(format!("raw layout reads, type combination {sel}"));
        COMBOS[sel](case)
    })
}
