//! C34: exact fractions.  The real fraction type runs on generated values;
//! every answer is judged by cross-multiplied inequalities on whole numbers,
//! never by a second fraction type.

#![allow(dead_code)]

use num::BigInt;
use num::ToPrimitive;
use vh::{vbail, vcheck, Case, Verdict};

pub mod value {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RoundHalf {
        Up,
        Down,
        Even,
    }
}

pub mod world {
    use num::BigInt;

    #[derive(Clone, Debug, PartialEq)]
    pub enum Value {
        Int(i64),
        Big(BigInt),
    }
    impl Value {
        pub fn integer(i: i64) -> Value {
            Value::Int(i)
        }
        pub fn bigint(b: BigInt) -> Value {
            Value::Big(b)
        }
    }
    #[derive(Debug)]
    pub struct MonorubyErr(pub &'static str);
    impl MonorubyErr {
        pub fn divide_by_zero() -> Self {
            MonorubyErr("ZeroDivisionError")
        }
    }
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    pub struct RValue;
    pub struct Allocator<T>(std::marker::PhantomData<T>);
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
    #[path = "/repo/monoruby/src/value/rvalue/rational.rs"]
    pub mod rational;
}

use value::RoundHalf;
use world::rational::{RationalFloorResult as Res, RationalInner as Q};

type Check<T = ()> = std::result::Result<T, vh::Violation>;

fn big(i: i128) -> BigInt {
    BigInt::from_i128(i)
}
fn zero() -> BigInt {
    big(0)
}
fn abs(b: &BigInt) -> BigInt {
    if *b < zero() { -b } else { b.clone() }
}
fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (abs(a), abs(b));
    while b != zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}
fn ten(n: u32) -> BigInt {
    let mut r = big(1);
    for _ in 0..n {
        r = r * big(10);
    }
    r
}

/// A fraction as generated: numerator and denominator before reduction.
#[derive(Clone)]
struct F {
    n: BigInt,
    d: BigInt,
}
impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}/{}", self.n, self.d)
    }
}

/// The answer must be the fraction n/d, in lowest terms over a positive
/// denominator.
fn is_fraction(what: &str, q: &Q, n: &BigInt, d: &BigInt) -> Check {
    vcheck!(*q.den() > zero(), "{what}: denominator {} is not positive", q.den());
    vcheck!(q.num() * d == n * q.den(), "{what}: got {}/{}, the value is {n}/{d}", q.num(), q.den());
    let g = gcd(q.num(), q.den());
    vcheck!(g == big(1), "{what}: {}/{} is not in lowest terms", q.num(), q.den());
    Ok(())
}

fn gen_int(case: &mut Case) -> BigInt {
    let v = match case.rng.weighted(&[10, 8, 6, 5, 4, 3, 2]) {
        0 => big(case.rng.below(12) as i128),
        1 => big(case.rng.below(1000) as i128),
        2 => {
            // near a power of two
            let b = case.rng.below(70) as u32;
            let off = case.rng.below(5) as i128 - 2;
            big(((1i128 << b) + off).abs())
        }
        3 => big(case.rng.next() as i128 >> case.rng.below(60)),
        4 => {
            // a product of twos and fives: finite decimals
            let (a, b) = (case.rng.below(20) as u32, case.rng.below(20) as u32);
            let mut r = big(1 << a);
            for _ in 0..b {
                r = r * big(5);
            }
            r
        }
        5 => {
            let bits = case.rng.below(400) as usize;
            case.count("wide_numbers");
            let r = big(case.rng.next() as i128);
            let low = big(case.rng.next() as i128);
            (r << bits) + low
        }
        _ => {
            let bits = case.rng.range(900, 2300) as usize;
            case.count("very_wide_numbers");
            let r = big(case.rng.next() as i128);
            let low = big(case.rng.next() as i128);
            (r << bits) + low
        }
    };
    if case.rng.chance(1, 2) { -v } else { v }
}

fn gen_frac(case: &mut Case) -> F {
    match case.rng.weighted(&[10, 3, 3, 2]) {
        0 => {
            let n = gen_int(case);
            let mut d = gen_int(case);
            if d == zero() {
                d = big(1);
            }
            F { n, d }
        }
        1 => {
            // exactly between two neighbours at some digit
            let k = case.rng.below(6) as u32;
            let n = gen_int(case);
            case.count("values_halfway");
            if case.rng.chance(1, 2) {
                F { n: n * big(2) + big(1), d: ten(k) * big(2) }
            } else {
                F { n: (n * big(2) + big(1)) * ten(k), d: big(2) }
            }
        }
        2 => {
            // a hair away from such a point
            let k = case.rng.below(6) as u32;
            let n = gen_int(case);
            let e = case.rng.below(30) as u32 + 1;
            let s = if case.rng.chance(1, 2) { big(1) } else { big(-1) };
            let h = (n * big(2) + big(1)) * ten(k) * ten(e) + s;
            case.count("values_nearly_halfway");
            F { n: h, d: big(2) * ten(e) }
        }
        _ => F { n: gen_int(case), d: big(1) },
    }
}

fn make(case: &mut Case) -> Check<(Q, F)> {
    let f = gen_frac(case);
    let q = Q::new(f.n.clone(), f.d.clone());
    is_fraction("Rational(n, d)", &q, &f.n, &f.d)?;
    // from here on, work with the reduced form
    let f = F { n: q.num().clone(), d: q.den().clone() };
    Ok((q, f))
}

/// Exact value of a finite double as m * 2^e.
fn parts(f: f64) -> (BigInt, i32) {
    let b = f.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = if e == 0 { b & ((1 << 52) - 1) } else { b & ((1 << 52) - 1) | 1 << 52 };
    let m = big(m as i128);
    (if f < 0.0 { -m } else { m }, e.max(1) - 1075)
}
fn as_frac(f: f64) -> F {
    let (m, e) = parts(f);
    if e >= 0 { F { n: m << e as usize, d: big(1) } } else { F { n: m, d: big(1) << (-e) as usize } }
}

fn sign(b: &BigInt) -> std::cmp::Ordering {
    b.cmp(&zero())
}

fn arithmetic(case: &mut Case) -> Check {
    let (a, fa) = make(case)?;
    let (b, fb) = if case.rng.chance(1, 8) {
        case.count("operand_related");
        match case.rng.below(3) {
            0 => (a.clone(), fa.clone()),
            1 => {
                let n = -&fa.n;
                (Q::new(n.clone(), fa.d.clone()), F { n, d: fa.d.clone() })
            }
            _ => (Q::new(0, 1), F { n: zero(), d: big(1) }),
        }
    } else {
        make(case)?
    };
    let (fa2, fb2) = (fa.clone(), fb.clone());
    case.op(|| format!("{fa2:?} with {fb2:?}"));
    is_fraction("+", &a.add(&b), &(&fa.n * &fb.d + &fb.n * &fa.d), &(&fa.d * &fb.d))?;
    is_fraction("-", &a.sub(&b), &(&fa.n * &fb.d - &fb.n * &fa.d), &(&fa.d * &fb.d))?;
    is_fraction("*", &a.mul(&b), &(&fa.n * &fb.n), &(&fa.d * &fb.d))?;
    match a.div(&b) {
        Ok(q) => {
            vcheck!(fb.n != zero(), "/ by zero gave {}", q.to_s());
            is_fraction("/", &q, &(&fa.n * &fb.d), &(&fa.d * &fb.n))?;
        }
        Err(e) => {
            vcheck!(fb.n == zero() && e.0 == "ZeroDivisionError", "/ raised {e:?}");
            case.count("divisions_by_zero");
        }
    }
    is_fraction("negation", &a.neg(), &(-&fa.n), &fa.d)?;
    is_fraction("abs", &a.abs(), &abs(&fa.n), &fa.d)?;
    let ord = sign(&(&fa.n * &fb.d - &fb.n * &fa.d));
    let got = Q::cmp(&a, &b);
    vcheck!(got == ord, "<=> gave {got:?}, expected {ord:?}");
    let eq = Q::eq(&a, &b);
    vcheck!(eq == ord.is_eq(), "== gave {eq}, <=> is {ord:?}");
    vcheck!((a == b) == eq, "the two notions of equality differ");
    vcheck!(a.is_zero() == (fa.n == zero()), "zero?");
    vcheck!(a.is_negative() == (fa.n < zero()), "negative?");
    // the parts and the text
    for (part, v) in [(a.num_as_value(), &fa.n), (a.den_as_value(), &fa.d)] {
        let ok = match (&part, v.to_i64()) {
            (world::Value::Int(i), Some(j)) => *i == j,
            (world::Value::Big(b), None) => b == v,
            _ => false,
        };
        vcheck!(ok, "part {part:?} of {fa:?}");
    }
    let s = a.to_s();
    let ok = s.split_once('/').is_some_and(|(n, d)| n.parse::<BigInt>().as_ref() == Ok(&fa.n) && d.parse::<BigInt>().as_ref() == Ok(&fa.d));
    vcheck!(ok, "to_s gave {s}");
    vcheck!(a.inspect() == format!("({s})"), "inspect gave {}", a.inspect());
    case.count("arithmetic_judged");
    if ord.is_eq() {
        case.count("equal_operands");
    }
    case.sig(1 << 8 | (ord as i8 as u64 & 3) << 4 | ((fa.n < zero()) as u64) << 1 | (fb.n < zero()) as u64);
    Ok(())
}

/// The value of a rounding answer as a fraction, and whether it is an
/// Integer.
fn answer(what: &str, r: &Res) -> Check<(F, bool)> {
    Ok(match r {
        Res::Integer(i) => (F { n: i.clone(), d: big(1) }, true),
        Res::Rational(q) => {
            is_fraction(what, q, q.num(), q.den())?;
            (F { n: q.num().clone(), d: q.den().clone() }, false)
        }
    })
}

fn rounding(case: &mut Case) -> Check {
    let (mut a, mut fa) = make(case)?;
    let nd: i64 = match case.rng.weighted(&[4, 6, 6, 1]) {
        0 => 0,
        1 => case.rng.range(1, 8) as i64,
        2 => -(case.rng.range(1, 8) as i64),
        _ => case.rng.below(121) as i64 - 60,
    };
    if case.rng.chance(2, 5) {
        // an odd number of half units at this very digit, perhaps a hair off
        let m = gen_int(case) * big(2) + big(1);
        let (mut n, mut d) = if nd >= 0 { (m, ten(nd as u32) * big(2)) } else { (m * ten(-nd as u32), big(2)) };
        if case.rng.chance(1, 3) {
            let k = ten(case.rng.below(40) as u32 + 1);
            let s = big(if case.rng.chance(1, 2) { 1 } else { -1 });
            n = n * &k + s;
            d = d * &k;
        }
        a = Q::new(n.clone(), d.clone());
        is_fraction("Rational(n, d)", &a, &n, &d)?;
        fa = F { n: a.num().clone(), d: a.den().clone() };
    }
    let half = *case.rng.pick(&[None, Some(RoundHalf::Up), Some(RoundHalf::Down), Some(RoundHalf::Even)]);
    let f2 = fa.clone();
    case.op(|| format!("round {f2:?} to {nd} digits, half {half:?}"));
    // one unit in the last digit kept is un/ud
    let (un, ud) = if nd >= 0 { (big(1), ten(nd as u32)) } else { (ten(-nd as u32), big(1)) };
    for which in ["floor", "ceil", "truncate", "round"] {
        let r = match which {
            "floor" => a.rational_floor(nd),
            "ceil" => a.rational_ceil(nd),
            "truncate" => a.rational_truncate(nd),
            _ => a.rational_round(nd, half),
        };
        let (v, is_int) = answer(which, &r)?;
        vcheck!(is_int == (nd <= 0), "{which}({nd}) of {fa:?}: wrong kind of answer");
        // v is a whole number of units
        let units_n = &v.n * &ud;
        let units_d = &v.d * &un;
        vcheck!(&units_n % &units_d == zero(), "{which}({nd}) of {fa:?} gave {v:?}, not a whole number of units");
        // x - v, in units: diff_n/diff_d with a positive denominator
        let diff_n = (&fa.n * &v.d - &v.n * &fa.d) * &ud;
        let diff_d = &fa.d * &v.d * &un;
        let near = |lo_ok: bool, hi_ok: bool| -> bool {
            (if lo_ok { diff_n >= zero() } else { diff_n > -&diff_d }) && (if hi_ok { diff_n <= zero() } else { diff_n < diff_d })
        };
        let ok = match which {
            "floor" => near(true, false),
            "ceil" => near(false, true),
            "truncate" => {
                if fa.n >= zero() {
                    near(true, false)
                } else {
                    near(false, true)
                }
            }
            _ => {
                let twice = abs(&diff_n) * big(2);
                match twice.cmp(&diff_d) {
                    std::cmp::Ordering::Greater => false,
                    std::cmp::Ordering::Less => true,
                    std::cmp::Ordering::Equal => {
                        case.count("ties_rounded");
                        // the magnitude grew if the remainder points towards zero
                        let away = (diff_n > zero()) != (fa.n > zero());
                        match half {
                            None | Some(RoundHalf::Up) => away,
                            Some(RoundHalf::Down) => !away,
                            Some(RoundHalf::Even) => (&units_n / &units_d) % big(2) == zero(),
                        }
                    }
                }
            }
        };
        vcheck!(ok, "{which}({nd}, {half:?}) of {fa:?} gave {v:?}");
    }
    let t = a.to_i();
    let rest = &fa.n - &t * &fa.d;
    vcheck!(abs(&rest) < fa.d && (rest == zero() || (rest > zero()) == (fa.n > zero())), "to_i of {fa:?} gave {t}");
    case.count("roundings_judged");
    if fa.n < zero() {
        case.count("negative_values_rounded");
    }
    case.count(if nd < 0 { "digits_negative" } else if nd > 0 { "digits_positive" } else { "digits_zero" });
    case.sig(2 << 8 | (nd.signum() + 1) as u64 | (half.map_or(0, |h| h as u64 + 1)) << 2 | ((fa.n < zero()) as u64) << 5);
    Ok(())
}

/// |x| against 2^e.
fn cmp_pow2(f: &F, e: i32) -> std::cmp::Ordering {
    if e >= 0 { abs(&f.n).cmp(&(&f.d << e as usize)) } else { (abs(&f.n) << (-e) as usize).cmp(&f.d) }
}

fn to_float(case: &mut Case) -> Check {
    let (a, fa) = match case.rng.below(3) {
        0 => make(case)?,
        1 => {
            // a result of extreme magnitude from wide parts
            let m = big(case.rng.next() as i128 | 1);
            let k = big(case.rng.next() as i128 | 1);
            let s = case.rng.range(900, 1200) as usize;
            let neg = case.rng.chance(1, 2);
            let m = if neg { -m } else { m };
            let q = match case.rng.below(3) {
                0 => Q::new(m << s, k),
                1 => Q::new(m, k << s),
                _ => {
                    let t = case.rng.range(900, 1200) as usize;
                    Q::new(m << s, (k << t) + big(1))
                }
            };
            case.count("extreme_magnitudes");
            let f = F { n: q.num().clone(), d: q.den().clone() };
            (q, f)
        }
        _ => {
            let bits = case.rng.range(1, 53);
            let n = (case.rng.next() >> (64 - bits)) as i128;
            let bits = case.rng.range(1, 53);
            let d = (case.rng.next() >> (64 - bits)) as i128 | 1;
            let q = Q::new(big(if case.rng.chance(1, 2) { -n } else { n }), big(d));
            let f = F { n: q.num().clone(), d: q.den().clone() };
            (q, f)
        }
    };
    let f2 = fa.clone();
    case.op(|| format!("to_f of {f2:?}"));
    let r = a.to_f();
    vcheck!(!r.is_nan(), "to_f of {fa:?} is not a number");
    case.count("to_f_judged");
    if fa.n == zero() {
        vcheck!(r == 0.0, "to_f of zero gave {r:e}");
        return Ok(());
    }
    vcheck!(r == 0.0 || (r < 0.0) == (fa.n < zero()), "to_f of {fa:?} gave {r:e}: wrong sign");
    if let (Some(n), Some(d)) = (fa.n.to_i64(), fa.d.to_i64())
        && n.unsigned_abs() <= 1 << 53
        && d <= 1 << 53
    {
        case.count("to_f_exactly_judged");
        let want = n as f64 / d as f64;
        vcheck!(r == want, "to_f of {fa:?} gave {r:e}, nearest is {want:e}");
        return Ok(());
    }
    if r.is_infinite() {
        vcheck!(cmp_pow2(&fa, 1023).is_gt(), "to_f of {fa:?} overflowed");
        // largest double, less a part in 2^50
        let max = as_frac(f64::MAX);
        let lim = &max.n - (&max.n >> 50usize);
        vcheck!(abs(&fa.n) > lim * &fa.d, "to_f of {fa:?} overflowed");
        case.count("to_f_overflows");
        return Ok(());
    }
    // |r - x| <= |x| / 2^51 + 2^-1073
    let v = as_frac(r);
    let err_n = abs(&(&v.n * &fa.d - &fa.n * &v.d));
    let err_d = &v.d * &fa.d;
    let small = err_n.clone() << 1073usize;
    if small <= err_d {
        case.count("to_f_close_to_zero");
        return Ok(());
    }
    // err - 2^-1073 <= |x| / 2^51
    let lhs_n = small - &err_d;
    let lhs_d = err_d << 1073usize;
    let ok = (lhs_n << 51usize) * &fa.d <= abs(&fa.n) * lhs_d;
    vcheck!(ok, "to_f of {fa:?} gave {r:e}");
    case.count(if cmp_pow2(&fa, -1022).is_lt() { "to_f_below_normal" } else { "to_f_normal" });
    Ok(())
}

fn gen_float(case: &mut Case) -> f64 {
    loop {
        let f = match case.rng.below(6) {
            0 => f64::from_bits(case.rng.next()),
            1 => case.rng.below(1000) as f64 / *case.rng.pick(&[1.0, 2.0, 3.0, 8.0, 10.0, 1000.0]),
            2 => f64::from_bits(case.rng.next() >> 12 >> case.rng.below(52)),
            3 => (case.rng.next() >> case.rng.below(60)) as f64,
            4 => *case.rng.pick(&[0.0, -0.0, 1.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 0.3, -0.3, 1e300, 1e22]),
            _ => 2f64.powi(case.rng.below(2098) as i32 - 1074),
        };
        if f.is_finite() {
            return if case.rng.chance(1, 3) { -f } else { f };
        }
    }
}

fn from_float(case: &mut Case) -> Check {
    let f = gen_float(case);
    case.op(|| format!("from_f64({f:e})"));
    let q = Q::from_f64(f);
    let v = as_frac(f);
    is_fraction("from float", &q, &v.n, &v.d)?;
    case.count("floats_converted");
    if f != 0.0 && f.abs() < f64::MIN_POSITIVE {
        case.count("subnormals_converted");
    }
    let back = q.to_f();
    vcheck!(back == f, "{f:e} came back as {back:e}");
    Ok(())
}

/// Smallest denominator of any fraction in [lo, hi], 0 < lo <= hi, by the
/// continued fraction of the bounds.
fn least_den(lo: &F, hi: &F) -> BigInt {
    fn go(lo: &F, hi: &F) -> (BigInt, BigInt) {
        // simplest n/d in [lo, hi]
        let fl = &lo.n / &lo.d;
        if &fl * &lo.d == lo.n {
            return (fl, big(1));
        }
        if (&fl + big(1)) * &hi.d <= hi.n {
            return (fl + big(1), big(1));
        }
        let l = F { n: hi.d.clone(), d: &hi.n - &fl * &hi.d };
        let h = F { n: lo.d.clone(), d: &lo.n - &fl * &lo.d };
        let (n, d) = go(&l, &h);
        (&fl * &n + d, n)
    }
    go(lo, hi).1
}

fn simplest(case: &mut Case) -> Check {
    let (x, fx, e, fe) = if case.rng.chance(1, 3) {
        // what a float stands for
        let f = loop {
            let f = gen_float(case);
            if f == 0.0 || (1e-12..1e15).contains(&f.abs()) {
                break f;
            }
        };
        let v = as_frac(f);
        let (m, k) = parts(f);
        let _ = m;
        let e = if k - 1 >= 0 { F { n: big(1) << (k - 1) as usize, d: big(1) } } else { F { n: big(1), d: big(1) << (1 - k) as usize } };
        case.count("float_neighbourhoods");
        (Q::new(v.n.clone(), v.d.clone()), v, Q::new(e.n.clone(), e.d.clone()), e)
    } else {
        let n = case.rng.next() as i128 >> case.rng.range(1, 60);
        let d = (case.rng.next() >> case.rng.range(1, 60)) as i128 + 1;
        let n = if case.rng.chance(1, 3) { -n } else { n };
        let k = case.rng.below(3) as i128 + 1;
        let ed = (case.rng.next() >> case.rng.range(1, 62)) as i128 + 1;
        let k = if case.rng.chance(1, 20) { 0 } else if case.rng.chance(1, 4) { -k } else { k };
        let (x, e) = (F { n: big(n), d: big(d) }, F { n: big(k), d: big(ed) });
        (Q::new(big(n), big(d)), x, Q::new(big(k), big(ed)), e)
    };
    let (a, b) = (fx.clone(), fe.clone());
    case.op(|| format!("simplest within {b:?} of {a:?}"));
    vh::step();
    let r = Q::find_simplest(&x, &e);
    is_fraction("simplest", &r, r.num(), r.den())?;
    let en = abs(&fe.n);
    // bounds over a common denominator
    let d = &fx.d * &fe.d;
    let lo = &fx.n * &fe.d - &en * &fx.d;
    let hi = &fx.n * &fe.d + &en * &fx.d;
    let rn = r.num() * &d;
    vcheck!(rn >= &lo * r.den() && rn <= &hi * r.den(), "{} is not within {fe:?} of {fx:?}", r.to_s());
    let least = if lo <= zero() && hi >= zero() {
        case.count("ranges_with_zero");
        big(1)
    } else {
        let (l, h) = if lo > zero() { (lo, hi) } else { (-hi, -lo) };
        least_den(&F { n: l, d: d.clone() }, &F { n: h, d })
    };
    vcheck!(*r.den() == least, "{} is not the simplest within {fe:?} of {fx:?}: a denominator of {least} will do", r.to_s());
    case.count("simplest_judged");
    if en == zero() {
        case.count("ranges_of_one_point");
    }
    if r.den().bits() > 20 {
        case.count("simplest_with_long_denominators");
    }
    Ok(())
}

fn run(case: &mut Case) -> Verdict {
    case.nontrivial();
    let rounds = if case.thorough { 24 } else { 12 };
    for _ in 0..rounds {
        vh::step();
        match case.rng.weighted(&[5, 6, 3, 2, 4]) {
            0 => arithmetic(case)?,
            1 => rounding(case)?,
            2 => to_float(case)?,
            3 => from_float(case)?,
            _ => simplest(case)?,
        }
    }
    if case.rng.chance(1, 50) {
        // a denominator of zero is refused
        let r = vh::catch(|| Q::new(1, 0));
        if r.is_ok() {
            vbail!("Rational(1, 0) was accepted");
        }
        case.count("zero_denominators_refused");
    }
    Ok(())
}

fn main() {
    vh::main_loop("C34", run);
}
