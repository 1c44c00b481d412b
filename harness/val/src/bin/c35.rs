//! C35: the operators on numbers.  The real operator code runs on generated
//! integers of any size and floats; every answer is judged against the
//! definition, and every method the operators call is recorded and judged.

#![allow(dead_code)]

use num::{BigInt, ToPrimitive};
use std::cmp::Ordering;
use vh::{vbail, vcheck, Case, Verdict};
use world::executor::op;
use world::*;

#[path = "../ops_world.rs"]
pub mod world;
pub mod ast {
    pub enum NReal {
        Integer(i64),
        Bignum(num::BigInt),
        Float(f64),
    }
}
pub mod bytecode {
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
    impl BytecodePtr {
        /// # Safety
        /// Never dereferenced.
        pub unsafe fn from_raw(_: *mut u64) -> Option<Self> {
            None
        }
    }
}
pub mod value {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum RoundHalf {
        Up,
        Down,
        Even,
    }
}

type Check<T = ()> = std::result::Result<T, vh::Violation>;
type Res = std::result::Result<Value, MonorubyErr>;
type Kind = MonorubyErrKind;

#[derive(Clone)]
enum N {
    I(BigInt),
    F(f64),
}
impl std::fmt::Debug for N {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            N::I(b) => write!(f, "{b}"),
            N::F(x) => write!(f, "{x:e}f"),
        }
    }
}
use N::{F, I};

fn big(i: i128) -> BigInt {
    BigInt::from_i128(i)
}
fn zero() -> BigInt {
    big(0)
}
fn abs(b: &BigInt) -> BigInt {
    if *b < zero() { -b } else { b.clone() }
}
fn two(n: usize) -> BigInt {
    // by doubling, not by shifting
    let mut r = big(1);
    let mut left = n;
    while left > 0 {
        let k = left.min(60);
        r = r * big(1i128 << k);
        left -= k;
    }
    r
}
fn floor_div(a: &BigInt, b: &BigInt) -> BigInt {
    let q = a / b;
    let r = a - &q * b;
    if r != zero() && (r < zero()) != (*b < zero()) { q - big(1) } else { q }
}

impl N {
    fn val(&self) -> Value {
        match self {
            I(b) => Value::bigint(b.clone()),
            F(f) => Value::float(*f),
        }
    }
    fn read(v: Value) -> Option<N> {
        match v.unpack() {
            RV::Float(f) => Some(F(f)),
            _ => v.as_big().map(I),
        }
    }
    /// The nearest double.
    fn f(&self) -> f64 {
        match self {
            I(b) => b.to_string().parse().unwrap(),
            F(f) => *f,
        }
    }
    fn word(&self) -> bool {
        matches!(self, I(b) if *b >= -two(62) && *b < two(62))
    }
}

fn gen_int(case: &mut Case) -> BigInt {
    let v = match case.rng.weighted(&[10, 8, 10, 5, 4]) {
        0 => big(case.rng.below(12) as i128),
        1 => big(case.rng.below(5000) as i128),
        2 => {
            let e = *case.rng.pick(&[8u32, 16, 31, 32, 33, 52, 53, 54, 60, 61, 62, 63, 64, 65, 96]);
            big((1i128 << e) + case.rng.below(7) as i128 - 3)
        }
        3 => {
            let w = case.rng.below(64);
            big((case.rng.next() >> w) as i128)
        }
        _ => {
            let bits = case.rng.below(250) as usize;
            let hi = big(case.rng.next() as i128);
            let lo = big(case.rng.next() as i128);
            if case.rng.chance(1, 3) { hi * two(bits) } else { hi * two(bits) + lo }
        }
    };
    if case.rng.chance(1, 2) { -v } else { v }
}
fn gen_float(case: &mut Case) -> f64 {
    let f = match case.rng.weighted(&[4, 6, 6, 4, 5]) {
        0 => f64::from_bits(case.rng.next()),
        1 => case.rng.below(4000) as f64 / *case.rng.pick(&[1.0, 2.0, 4.0, 10.0, 1000.0, 3.0]),
        2 => *case.rng.pick(&[
            0.0, 1.0, 0.5, 2.0, 0.1, 0.3, 1e15, 1e16, 1e18, 1e19, 1e20, 1e22, 1e100, 1e300, 1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NAN, 4.0, 9.0,
        ]),
        3 => {
            let e = *case.rng.pick(&[31i32, 32, 52, 53, 54, 61, 62, 63, 64, 65, 100]);
            let base = 2f64.powi(e);
            f64::from_bits(base.to_bits().wrapping_add(case.rng.below(5)).wrapping_sub(2))
        }
        _ => {
            // near an integer of interest
            let b = gen_int(case);
            let f = I(b).f();
            match case.rng.below(3) {
                0 => f,
                1 => f + 0.5,
                _ => f64::from_bits(f.to_bits().wrapping_add(case.rng.below(3)).wrapping_sub(1)),
            }
        }
    };
    if case.rng.chance(1, 2) { -f } else { f }
}
fn number(case: &mut Case) -> N {
    if case.rng.chance(3, 5) { I(gen_int(case)) } else { F(gen_float(case)) }
}

// ---------------------------------------------------------------------
// running one operator

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Pow,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Ge,
    Gt,
    Le,
    Lt,
    Eq,
    Ne,
    Teq,
}
use Op::*;
const ALL: [Op; 18] = [Add, Sub, Mul, Div, Rem, Pow, And, Or, Xor, Shl, Shr, Ge, Gt, Le, Lt, Eq, Ne, Teq];

impl Op {
    fn id(self) -> IdentId {
        match self {
            Add => IdentId::_ADD,
            Sub => IdentId::_SUB,
            Mul => IdentId::_MUL,
            Div => IdentId::_DIV,
            Rem => IdentId::_REM,
            Pow => IdentId::_POW,
            And => IdentId::_BAND,
            Or => IdentId::_BOR,
            Xor => IdentId::_BXOR,
            Shl => IdentId::_SHL,
            Shr => IdentId::_SHR,
            Ge => IdentId::_GE,
            Gt => IdentId::_GT,
            Le => IdentId::_LE,
            Lt => IdentId::_LT,
            Eq => IdentId::_EQ,
            Ne => IdentId::_NEQ,
            Teq => IdentId::_TEQ,
        }
    }
    fn is_bit(self) -> bool {
        matches!(self, And | Or | Xor)
    }
    fn is_cmp(self) -> bool {
        matches!(self, Ge | Gt | Le | Lt)
    }
    fn is_eq(self) -> bool {
        matches!(self, Eq | Ne | Teq)
    }
}

fn exec(vm: &mut Executor, g: &mut Globals, o: Op, a: Value, b: Value, fcall: bool, raw: bool) -> Res {
    vm.calls.clear();
    vm.error = None;
    vm.depth = 0;
    let r = match (o, raw) {
        (Add, false) => op::add_values(vm, g, a, b, fcall),
        (Sub, false) => op::sub_values(vm, g, a, b, fcall),
        (Mul, false) => op::mul_values(vm, g, a, b, fcall),
        (Div, false) => op::div_values(vm, g, a, b, fcall),
        (Rem, false) => op::rem_values(vm, g, a, b, fcall),
        (Pow, false) => op::pow_values(vm, g, a, b, fcall),
        (Shl, false) => op::shl_values(vm, g, a, b, fcall),
        (Shr, false) => op::shr_values(vm, g, a, b, fcall),
        (Ge, false) => op::cmp_ge_values(vm, g, a, b, fcall),
        (Gt, false) => op::cmp_gt_values(vm, g, a, b, fcall),
        (Le, false) => op::cmp_le_values(vm, g, a, b, fcall),
        (Lt, false) => op::cmp_lt_values(vm, g, a, b, fcall),
        (Add, true) => op::add_values_raw(vm, g, a, b, fcall),
        (Sub, true) => op::sub_values_raw(vm, g, a, b, fcall),
        (Mul, true) => op::mul_values_raw(vm, g, a, b, fcall),
        (Div, true) => op::div_values_raw(vm, g, a, b, fcall),
        (Rem, true) => op::rem_values_raw(vm, g, a, b, fcall),
        (Pow, true) => op::pow_values_raw(vm, g, a, b, fcall),
        (Shl, true) => op::shl_values_raw(vm, g, a, b, fcall),
        (Shr, true) => op::shr_values_raw(vm, g, a, b, fcall),
        (Ge, true) => op::cmp_ge_values_raw(vm, g, a, b, fcall),
        (Gt, true) => op::cmp_gt_values_raw(vm, g, a, b, fcall),
        (Le, true) => op::cmp_le_values_raw(vm, g, a, b, fcall),
        (Lt, true) => op::cmp_lt_values_raw(vm, g, a, b, fcall),
        (And, _) => op::bitand_values(vm, g, a, b, fcall),
        (Or, _) => op::bitor_values(vm, g, a, b, fcall),
        (Xor, _) => op::bitxor_values(vm, g, a, b, fcall),
        (Eq, false) => op::cmp_eq_values(vm, g, a, b, fcall),
        (Eq, true) => return vm.eq_values_vis_raw(g, a, b, fcall),
        (Ne, _) => op::cmp_ne_values(vm, g, a, b, fcall),
        (Teq, _) => op::cmp_teq_values(vm, g, a, b, fcall),
    };
    match r {
        Some(v) => Ok(v),
        None => match vm.error.take() {
            Some(e) => Err(e),
            None => panic!("{o:?} gave no value and no error"),
        },
    }
}

// ---------------------------------------------------------------------
// what the answer must be

/// Exact order of two numbers; None if either is not a number.
fn order(a: &N, b: &N) -> Option<Ordering> {
    match (a, b) {
        (I(x), I(y)) => Some(x.cmp(y)),
        (F(x), F(y)) => x.partial_cmp(y),
        (I(x), F(y)) => {
            if y.is_nan() {
                return None;
            }
            if y.is_infinite() {
                return Some(if *y > 0.0 { Ordering::Less } else { Ordering::Greater });
            }
            // x against m * 2^e
            let (m, e) = parts(*y);
            Some(if e >= 0 { x.cmp(&(m * two(e as usize))) } else { (x * two(-e as usize)).cmp(&m) })
        }
        (F(_), I(_)) => order(b, a).map(|o| o.reverse()),
    }
}
/// A word-sized integer a double cannot hold may be compared as the nearest
/// double.
fn order_rounded(a: &N, b: &N) -> Option<Option<Ordering>> {
    match (a, b) {
        (I(_), F(_)) if a.word() => Some(a.f().partial_cmp(&b.f())),
        (F(_), I(_)) if b.word() => Some(a.f().partial_cmp(&b.f())),
        _ => None,
    }
}
fn parts(f: f64) -> (BigInt, i32) {
    let b = f.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = big(if e == 0 { b & ((1 << 52) - 1) } else { b & ((1 << 52) - 1) | 1 << 52 } as i128);
    (if f < 0.0 { -m } else { m }, e.max(1) - 1075)
}

fn int(r: &Res) -> Check<BigInt> {
    match r {
        Ok(v) => match v.as_big() {
            Some(b) => Ok(b),
            None => vbail!("gave {v:?}, an Integer was expected"),
        },
        Err(e) => vbail!("raised {:?} {}", e.kind, e.msg),
    }
}
fn float(r: &Res, want: f64) -> Check {
    match r {
        Ok(v) => match v.unpack() {
            RV::Float(f) if f.to_bits() == want.to_bits() || f.is_nan() && want.is_nan() => Ok(()),
            _ => vbail!("gave {v:?}, {want:e} was expected"),
        },
        Err(e) => vbail!("raised {:?} {}", e.kind, e.msg),
    }
}
fn raises(r: &Res, k: &[Kind]) -> Check {
    match r {
        Ok(v) => vbail!("gave {v:?}, an error was expected"),
        Err(e) if k.contains(&e.kind) => Ok(()),
        Err(e) => vbail!("raised {:?} {}, {k:?} was expected", e.kind, e.msg),
    }
}
fn truth(r: &Res, allowed: &[bool]) -> Check {
    match r {
        Ok(v) if *v == Value::bool(true) && allowed.contains(&true) => Ok(()),
        Ok(v) if *v == Value::bool(false) && allowed.contains(&false) => Ok(()),
        Ok(v) => vbail!("gave {v:?}, expected {allowed:?}"),
        Err(e) => vbail!("raised {:?} {}", e.kind, e.msg),
    }
}

fn limb(x: &BigInt, i: usize) -> u32 {
    let a = floor_div(x, &two(32 * i));
    let r = &a - floor_div(&a, &two(32)) * two(32);
    r.to_i64().unwrap() as u32
}

fn float_mod(a: f64, b: f64) -> f64 {
    let r = a % b;
    if r == 0.0 {
        return 0f64.copysign(a);
    }
    if (r < 0.0) != (b < 0.0) { r + b } else { r }
}

fn judge(case: &mut Case, o: Op, a: &N, b: &N, r: &Res) -> Check {
    match (o, a, b) {
        (Add | Sub | Mul, I(x), I(y)) => {
            let got = int(r)?;
            let want = match o {
                Add => x + y,
                Sub => x - y,
                _ => x * y,
            };
            vcheck!(got == want, "gave {got}, expected {want}");
            case.count(if N::word(a) && N::word(b) && !I(want).word() { "words_overflowed" } else { "exact_integers" });
        }
        (Add | Sub | Mul | Div, _, _) if matches!(a, F(_)) || matches!(b, F(_)) => {
            let (x, y) = (a.f(), b.f());
            float(
                r,
                match o {
                    Add => x + y,
                    Sub => x - y,
                    Mul => x * y,
                    _ => x / y,
                },
            )?;
            case.count("float_results");
        }
        (Div | Rem, I(x), I(y)) => {
            if *y == zero() {
                case.count("zero_divisions");
                return raises(r, &[Kind::ZeroDiv]);
            }
            let got = int(r)?;
            let rest = if o == Div { x - &got * y } else { got.clone() };
            vcheck!(abs(&rest) < abs(y) && (rest == zero() || (rest < zero()) == (*y < zero())), "gave {got}: the remainder {rest} does not belong to {y}");
            if o == Rem {
                vcheck!((x - &rest) % y == zero(), "gave {got}: {x} - {rest} is no multiple of {y}");
            }
            case.count("floor_divisions");
            if (*x < zero()) != (*y < zero()) {
                case.count("divisions_of_unlike_signs");
            }
        }
        (Rem, _, _) => {
            let (x, y) = (a.f(), b.f());
            if y == 0.0 {
                // refused, or not a number
                return match r {
                    Err(_) => raises(r, &[Kind::ZeroDiv]),
                    Ok(_) => float(r, f64::NAN),
                };
            }
            float(r, float_mod(x, y))?;
            case.count("float_remainders");
        }
        (Pow, I(x), I(e)) => return judge_pow(case, x, e, r),
        (Pow, _, _) => {
            let (x, y) = (a.f(), b.f());
            if x < 0.0 && y != y.round() {
                // a complex number, or the limit of one
                let Ok(v) = r else { vbail!("raised") };
                let Some(c) = v.try_complex() else {
                    vcheck!(!(y.is_finite() && x.is_finite()) || x.powf(y).is_infinite(), "gave {v:?}, a Complex was expected");
                    return Ok(());
                };
                let m = (-x).powf(y);
                let (re, im) = (c.re().to_f64(), c.im().to_f64());
                if m.is_finite() && m > 1e-290 && y.abs() < 1000.0 {
                    let t = y.rem_euclid(2.0) * std::f64::consts::PI;
                    let tol = m * 1e-9;
                    vcheck!((re - m * t.cos()).abs() <= tol && (im - m * t.sin()).abs() <= tol, "gave {v:?}, size {m:e} at angle {t}");
                    case.count("complex_powers");
                }
                return Ok(());
            }
            float(r, x.powf(y))?;
            case.count("float_powers");
        }
        (And | Or | Xor, I(x), I(y)) => {
            let got = int(r)?;
            let n = (x.bits().max(y.bits()).max(got.bits()) / 32 + 2) as usize;
            for i in 0..n {
                let (p, q, s) = (limb(x, i), limb(y, i), limb(&got, i));
                let want = match o {
                    And => p & q,
                    Or => p | q,
                    _ => p ^ q,
                };
                vcheck!(s == want, "gave {got}: bits from {} on differ", 32 * i);
            }
            case.count("bitwise_judged");
            if *x < zero() || *y < zero() {
                case.count("bitwise_with_negatives");
            }
        }
        (And | Or | Xor, F(_), _) => return Ok(()),
        (Shl | Shr, I(x), I(n)) => return judge_shift(case, x, if o == Shl { n.clone() } else { -n }, r),
        (Ge | Gt | Le | Lt | Eq | Ne | Teq, _, _) => {
            let hold = |ord: Option<Ordering>| match o {
                Ge => ord.is_some_and(|x| x.is_ge()),
                Gt => ord.is_some_and(|x| x.is_gt()),
                Le => ord.is_some_and(|x| x.is_le()),
                Lt => ord.is_some_and(|x| x.is_lt()),
                Ne => ord.is_none_or(|x| x.is_ne()),
                _ => ord.is_some_and(|x| x.is_eq()),
            };
            let mut ok = vec![hold(order(a, b))];
            if let Some(ord) = order_rounded(a, b) {
                ok.push(hold(ord));
            }
            truth(r, &ok)?;
            case.count("comparisons_judged");
            if matches!((a, b), (I(_), F(_)) | (F(_), I(_))) {
                case.count("integer_float_comparisons");
            }
            if order(a, b).is_none() {
                case.count("comparisons_with_nan");
            }
        }
        _ => {}
    }
    Ok(())
}

fn judge_shift(case: &mut Case, x: &BigInt, n: BigInt, r: &Res) -> Check {
    if n >= zero() {
        match n.to_i64() {
            Some(n) if n <= 5000 => {
                let got = int(r)?;
                vcheck!(got == x * two(n as usize), "gave {got}");
                case.count("left_shifts");
            }
            _ if *x == zero() => {
                let got = int(r)?;
                vcheck!(got == zero(), "gave {got}");
            }
            _ => {
                raises(r, &[Kind::Range])?;
                case.count("shifts_refused");
            }
        }
    } else {
        let got = int(r)?;
        match (-&n).to_i64() {
            Some(n) if n <= 5000 => {
                let p = two(n as usize);
                vcheck!(&got * &p <= *x && *x < (&got + big(1)) * &p, "gave {got}");
                case.count("right_shifts");
            }
            _ => {
                vcheck!(got == if *x < zero() { big(-1) } else { zero() }, "gave {got}");
                case.count("endless_right_shifts");
            }
        }
    }
    Ok(())
}

fn judge_pow(case: &mut Case, x: &BigInt, e: &BigInt, r: &Res) -> Check {
    let one = big(1);
    if *x == zero() && *e < zero() {
        case.count("zero_divisions");
        return raises(r, &[Kind::ZeroDiv]);
    }
    if *e == zero() || abs(x) <= one {
        let want = if *e == zero() || *x == one {
            one
        } else if *x == zero() {
            zero()
        } else if e % big(2) == zero() {
            one
        } else {
            big(-1)
        };
        let got = int(r)?;
        vcheck!(got == want, "gave {got}, expected {want}");
        case.count("unit_powers");
        if abs(e) > two(31) {
            case.count("unit_powers_of_wide_exponents");
        }
        return Ok(());
    }
    match abs(e).to_i64() {
        Some(n) if n <= 400 => {
            let mut p = big(1);
            for _ in 0..n {
                p = p * x;
            }
            if *e > zero() {
                let got = int(r)?;
                vcheck!(got == p, "gave {got}, expected {p}");
                case.count("integer_powers");
            } else {
                let Ok(v) = r else { vbail!("raised {r:?}") };
                let Some(q) = v.try_rational() else { vbail!("gave {v:?}, a Rational was expected") };
                vcheck!(q.num() * &p == *q.den() && abs(q.num()) == big(1) && *q.den() > zero(), "gave {v:?}, expected 1/{p}");
                case.count("rational_powers");
            }
        }
        _ => {
            // too large to hold
            raises(r, &[Kind::Argument, Kind::Range, Kind::Other(ClassId(0))])?;
            case.count("powers_refused");
        }
    }
    Ok(())
}

/// Keep the operands where the answer fits in memory.
fn tame(case: &mut Case, o: Op, a: &mut N, b: &mut N) {
    if let (Shl | Shr, I(_)) = (o, &*a) {
        let f = case.rng.below(40);
        let n = match case.rng.weighted(&[10, 6, 2, 2]) {
            0 => big(case.rng.below(70) as i128),
            1 => big(case.rng.below(400) as i128),
            2 => big(*case.rng.pick(&[31, 32, 33, 61, 62, 63, 64, 65, 1000])),
            _ => {
                // a shift nobody can carry out one way
                let e = case.rng.range(34, 120) as usize;
                two(e) + big(case.rng.below(3) as i128)
            }
        };
        *b = I(if case.rng.chance(1, 2) { -n } else { n });
        if f == 0 {
            *b = F(b.f() / 3.0);
        }
        if f == 1 {
            *a = I(zero());
        }
    }
    if let (Pow, I(x), I(_)) = (o, &*a, &*b) {
        let small = abs(x) <= big(1);
        let n = match case.rng.weighted(&[10, 4, 3]) {
            0 => big(case.rng.below(20) as i128),
            1 => big(case.rng.below(if x.bits() > 40 { 20 } else { 200 }) as i128),
            _ => {
                let e = case.rng.range(36, 120) as usize;
                two(e) + big(case.rng.below(3) as i128)
            }
        };
        let n = if small && case.rng.chance(1, 2) {
            let e = *case.rng.pick(&[30usize, 31, 32, 33, 61, 62, 63, 64, 100]);
            two(e) + big(case.rng.below(5) as i128 - 2)
        } else {
            n
        };
        *b = I(if case.rng.chance(1, 3) { -n } else { n });
        if case.rng.chance(1, 6) {
            *a = I(big(case.rng.below(3) as i128 - 1));
        }
    }
}

fn numbers(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Check {
    let o = *case.rng.pick(&ALL);
    let mut a = number(case);
    let mut b = match case.rng.weighted(&[10, 2, 2]) {
        0 => number(case),
        1 => a.clone(),
        _ => {
            // the same number, or a near one, in the other form
            match &a {
                I(_) => F(a.f()),
                F(f) if f.is_finite() && f.abs() < 1e40 => {
                    let (m, e) = parts(*f);
                    I(if e >= 0 { m * two(e as usize) } else { floor_div(&m, &two(-e as usize)) })
                }
                F(_) => number(case),
            }
        }
    };
    tame(case, o, &mut a, &mut b);
    if matches!(o, Shl | Shr) && matches!(a, F(_)) {
        return Ok(());
    }
    let (va, vb) = (a.val(), b.val());
    let fcall = case.rng.chance(1, 2);
    let raw = case.rng.chance(1, 3);
    // a program that redefines some operator, perhaps this one
    g.store.redefined.clear();
    let mut taken = false;
    if case.rng.chance(1, 5) {
        let c = *case.rng.pick(&[INTEGER_CLASS, FLOAT_CLASS]);
        let p = if case.rng.chance(2, 3) { o } else { *case.rng.pick(&ALL) };
        g.store.redefined.push((c, p.id()));
        if p == Ne && case.rng.chance(1, 2) {
            g.store.redefined.push((c, IdentId::_EQ));
        }
        let always = o.is_bit() || matches!(o, Ne | Teq);
        taken = g.store.redefined.contains(&(va.class(), o.id())) && (always || !raw);
        if o == Ne && !taken && g.store.redefined.contains(&(va.class(), IdentId::_EQ)) {
            return Ok(());
        }
    }
    let ans = Value::symbol(IdentId::get_id("answer"));
    vm.answer = Some(Act::Give(ans));
    let (a2, b2) = (a.clone(), b.clone());
    let red = g.store.redefined.clone();
    case.op(|| format!("{a2:?} {} {b2:?} raw={raw} redefined={red:?}", o.id().name()));
    if matches!((&a, o, &b), (F(_), And | Or | Xor, _)) && !taken {
        // Float has no such operator: a plain call
        let _ = exec(vm, g, o, va, vb, fcall, raw);
        vcheck!(vm.calls.len() == 1 && vm.calls[0].id == o.id(), "{} on a Float: calls {:?}", o.id().name(), vm.calls);
        return Ok(());
    }
    if o.is_bit() && matches!(b, F(_)) && !taken {
        // asks the Float to coerce, and refuses
        let r = exec(vm, g, o, va, vb, fcall, raw);
        return tag(o, &a, &b, raises(&r, &[Kind::Type]));
    }
    let r = exec(vm, g, o, va, vb, fcall, raw);
    if taken {
        let ok = matches!(&r, Ok(v) if *v == ans) && vm.calls.len() == 1 && vm.calls[0].id == o.id() && vm.calls[0].recv == va && vm.calls[0].args == [vb];
        vcheck!(ok, "{} is redefined for {va:?}: gave {r:?} after {:?}", o.id().name(), vm.calls);
        if let Some(f) = vm.calls[0].fcall {
            vcheck!(f == fcall, "{} redefined: the call became {}", o.id().name(), if f { "private" } else { "public" });
        }
        case.count("redefinitions_honoured");
        return Ok(());
    }
    if !g.store.redefined.is_empty() {
        case.count("redefinitions_elsewhere");
    }
    vcheck!(vm.calls.iter().all(|c| c.id != o.id()), "{a:?} {} {b:?}: calls {:?}", o.id().name(), vm.calls);
    let b = match (&b, o) {
        // a shift width is made an integer first
        (F(f), Shl | Shr) => {
            let (m, e) = parts(*f);
            I(if e >= 0 { m * two(e as usize) } else { m / two(-e as usize) })
        }
        _ => b,
    };
    let j = judge(case, o, &a, &b, &r);
    tag(o, &a, &b, j)?;
    case.sig((o as u64) << 8 | (matches!(a, F(_)) as u64) << 4 | (matches!(b, F(_)) as u64) << 3 | (a.word() as u64) << 2 | (b.word() as u64) << 1 | raw as u64);
    Ok(())
}

fn tag(o: Op, a: &N, b: &N, r: Check) -> Check {
    r.map_err(|v| vh::Violation(format!("{a:?} {} {b:?} {}", o.id().name(), v.0)))
}

fn divmod(case: &mut Case, _: &mut Executor, _: &mut Globals) -> Check {
    let (a, b) = (number(case), number(case));
    let (x, y) = (a.f(), b.f());
    if y == 0.0 || y.is_nan() || !x.is_finite() {
        return Ok(());
    }
    let (a2, b2) = (a.clone(), b.clone());
    case.op(|| format!("{a2:?}.divmod({b2:?})"));
    let kinds = (RealKind::try_from(a.val()).unwrap(), RealKind::try_from(b.val()).unwrap());
    let (d, m) = kinds.0.ruby_div_mod(&kinds.1);
    let (d, m): (Value, Value) = (d.into(), m.into());
    // the quotient becomes an Integer
    let d = match d.unpack() {
        RV::Float(f) => match Value::coerce_f64_to_int(f) {
            Ok(v) => v,
            Err(_) => {
                vcheck!((x / y).abs() > 1e308, "{a:?}.divmod({b:?}): no quotient");
                return Ok(());
            }
        },
        _ => d,
    };
    let q = d.as_big().unwrap();
    match (&a, &b) {
        (I(x), I(y)) => {
            let Some(m) = m.as_big() else { vbail!("{a:?}.divmod({b:?}): modulo {m:?}") };
            vcheck!(q == floor_div(x, y) && &q * y + &m == *x, "{a:?}.divmod({b:?}) gave {q} and {m}");
        }
        _ => {
            let want = float_mod(x, y);
            let Some(got) = m.try_float() else { vbail!("{a:?}.divmod({b:?}): modulo {m:?}") };
            vcheck!(got.to_bits() == want.to_bits() || got.is_nan() && want.is_nan(), "{a:?}.divmod({b:?}): modulo {got:e}, expected {want:e}");
            // floor of the exact quotient of the two doubles
            if y.is_infinite() {
                let want = if x != 0.0 && (x < 0.0) != (y < 0.0) { big(-1) } else { zero() };
                vcheck!(q == want, "{a:?}.divmod({b:?}): quotient {q}, expected {want}");
                return Ok(());
            }
            let ((m1, e1), (m2, e2)) = (parts(x), parts(y));
            let e = e1 - e2;
            let exact = if e >= 0 { floor_div(&(m1 * two(e as usize)), &m2) } else { floor_div(&m1, &(m2 * two(-e as usize))) };
            let off = abs(&(&q - &exact));
            vcheck!(off.clone() * two(50) <= abs(&exact), "{a:?}.divmod({b:?}): quotient {q}, expected {exact}");
            case.count("float_divmods");
            if abs(&exact) > two(63) {
                case.count("wide_quotients");
            }
        }
    }
    case.count("divmods_judged");
    Ok(())
}

fn unary(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Check {
    let a = number(case);
    let v = a.val();
    g.store.redefined.clear();
    let which = case.rng.below(4);
    let (id, f): (IdentId, [extern "C" fn(&mut Executor, &mut Globals, Value, bool) -> Option<Value>; 2]) = match which {
        0 => (IdentId::_UMINUS, [op::neg_value, op::neg_value_raw]),
        1 => (IdentId::_UPLUS, [op::pos_value, op::pos_value_raw]),
        2 => (IdentId::_NOT, [op::not_value, op::not_value_raw]),
        _ => (IdentId::_BNOT, [op::bitnot_value, op::bitnot_value_raw]),
    };
    let raw = case.rng.chance(1, 2);
    let fcall = case.rng.chance(1, 2);
    let ans = Value::symbol(IdentId::get_id("answer"));
    vm.answer = Some(Act::Give(ans));
    let redefined = case.rng.chance(1, 5);
    if redefined {
        g.store.redefined.push((v.class(), id));
    }
    vm.calls.clear();
    vm.error = None;
    let a2 = a.clone();
    case.op(|| format!("{} {a2:?} raw={raw} redefined={redefined}", id.name()));
    let r = f[raw as usize](vm, g, v, fcall);
    let what = format!("{} of {a:?}", id.name());
    if redefined && !raw {
        vcheck!(r == Some(ans) && vm.calls.len() == 1 && vm.calls[0].id == id && vm.calls[0].recv == v, "{what}: redefined, gave {r:?} after {:?}", vm.calls);
        vcheck!(vm.calls[0].fcall == Some(fcall), "{what}: visibility changed");
        case.count("redefinitions_honoured");
        return Ok(());
    }
    if which == 3 && matches!(a, F(_)) {
        vcheck!(vm.calls.len() == 1 && vm.calls[0].id == id, "{what}: calls {:?}", vm.calls);
        return Ok(());
    }
    vcheck!(vm.calls.is_empty(), "{what}: calls {:?}", vm.calls);
    let Some(r) = r else { vbail!("{what}: no value") };
    let ok = match (which, &a) {
        (0, I(x)) => r.as_big() == Some(-x),
        (0, F(x)) => same(r, Value::float(-x)),
        (1, _) => same(r, v),
        (2, _) => r == Value::bool(false),
        (_, I(x)) => r.as_big() == Some(-x - big(1)),
        _ => true,
    };
    vcheck!(ok, "{what} gave {r:?}");
    case.count("unary_judged");
    Ok(())
}

fn index(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Check {
    let x = gen_int(case);
    let base = Value::bigint(x.clone());
    g.store.redefined.clear();
    let pos = |case: &mut Case| -> i64 {
        match case.rng.weighted(&[8, 4, 3]) {
            0 => case.rng.below(80) as i64,
            1 => *case.rng.pick(&[0, 1, 30, 31, 32, 60, 61, 62, 63, 64, 65, 127, 128]),
            _ => case.rng.below(400) as i64,
        }
    };
    if case.rng.chance(1, 2) {
        // a single bit
        let i = match case.rng.weighted(&[8, 2, 2]) {
            0 => big(pos(case) as i128),
            1 => -big(pos(case) as i128),
            _ => {
                let n = two(case.rng.range(62, 100) as usize);
                if case.rng.chance(1, 2) { -n } else { n }
            }
        };
        let (x2, i2) = (x.clone(), i.clone());
        case.op(|| format!("{x2}[{i2}]"));
        let r = op::integer_index1(vm, g, base, Value::bigint(i.clone()));
        let got = int(&r)?;
        let want = if i < zero() {
            zero()
        } else {
            match i.to_i64() {
                Some(i) if i < 2000 => {
                    let s = floor_div(&x, &two(i as usize));
                    &s - floor_div(&s, &big(2)) * big(2)
                }
                _ => {
                    case.count("bits_far_beyond");
                    big((x < zero()) as i128)
                }
            }
        };
        vcheck!(got == want, "{x}[{i}] gave {got}, expected {want}");
        case.count("bits_judged");
        return Ok(());
    }
    let mut s = pos(case);
    if case.rng.chance(1, 5) {
        s = -(s / 2);
    }
    let mut e = match case.rng.below(4) {
        0 => pos(case),
        1 => s + case.rng.below(70) as i64,
        2 => s + *case.rng.pick(&[0, 1, 2, 61, 62, 63, 64, 65]),
        _ => s - case.rng.below(3) as i64,
    };
    let excl = case.rng.chance(1, 2);
    let kind = case.rng.weighted(&[8, 2, 2]);
    if kind == 2 && case.rng.chance(1, 2) {
        e = e.abs();
    }
    let range = match kind {
        0 => Value::range(Value::integer(s), Value::integer(e), excl),
        1 => Value::range(Value::integer(s), Value::nil(), excl),
        _ => Value::range(Value::nil(), Value::integer(e), excl),
    };
    let x2 = x.clone();
    case.op(|| format!("{x2}[{range:?}]"));
    let r = op::integer_index1(vm, g, base, range);
    let shift = |n: i64| if n >= 0 { floor_div(&x, &two(n as usize)) } else { &x * two(-n as usize) };
    let low = |v: &BigInt, w: i64| v - floor_div(v, &two(w as usize)) * two(w as usize);
    case.count("bit_ranges_judged");
    if kind == 2 {
        // all bits below: must be none
        let w = if excl { e } else { e + 1 };
        let set = w > 0 && low(&x, w) != zero();
        if set {
            return raises(&r, &[Kind::Argument]).map_err(|v| vh::Violation(format!("{x}[{range:?}] {}", v.0)));
        }
        let got = int(&r)?;
        vcheck!(got == zero(), "{x}[{range:?}] gave {got}");
        return Ok(());
    }
    let shifted = shift(s);
    let want = if kind == 1 || e < s {
        shifted
    } else {
        low(&shifted, e - s + !excl as i64)
    };
    let got = int(&r)?;
    vcheck!(got == want, "{x}[{range:?}] gave {got}, expected {want}");
    if s >= 64 {
        case.count("bit_ranges_beyond_a_word");
    }
    Ok(())
}

/// The other operand is not a number: it is asked.
fn asking(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Check {
    g.store.redefined.clear();
    vm.answer = None;
    let o = *case.rng.pick(&ALL);
    let a = number(case);
    let va = a.val();
    let fcall = case.rng.chance(1, 2);
    let raw = case.rng.chance(1, 3);
    let thrown = MonorubyErr::new(Kind::Scripted(case.rng.below(1000) as u32), "scripted");
    if o.is_bit() && matches!(a, F(_)) || matches!(o, Shl | Shr) && matches!(a, F(_)) {
        return Ok(());
    }
    if o.is_eq() {
        let ans = *case.rng.pick(&[Value::bool(true), Value::bool(false), Value::nil(), Value::integer(0), Value::symbol(IdentId::TO_S)]);
        let act = if case.rng.chance(1, 5) { Act::Raise(thrown.clone()) } else { Act::Give(ans) };
        let b = Value::custom(vec![("==", act.clone())], false);
        case.op(|| format!("{va:?} {} {b:?}", o.id().name()));
        let r = exec(vm, g, o, va, b, fcall, raw);
        vcheck!(vm.calls.len() == 1 && vm.calls[0].id == IdentId::_EQ && vm.calls[0].recv == b && vm.calls[0].args == [va], "{va:?} {} an object: calls {:?}", o.id().name(), vm.calls);
        match act {
            Act::Do(_) => unreachable!(),
            Act::Raise(e) => vcheck!(r == Err(e.clone()), "{va:?} {} an object whose == raises gave {r:?}", o.id().name()),
            Act::Give(v) => {
                let want = match o {
                    Eq => Value::bool(v.as_bool()),
                    Ne => Value::bool(!v.as_bool()),
                    _ => v,
                };
                vcheck!(matches!(&r, Ok(x) if *x == want || o == Teq && x.as_bool() == v.as_bool()), "{va:?} {} an object answering {v:?} gave {r:?}", o.id().name());
            }
        }
        case.count("equality_asked");
        return Ok(());
    }
    if matches!(o, Shl | Shr) {
        let n = case.rng.below(200) as i64 - 100;
        let act = match case.rng.below(4) {
            0 => None,
            1 => Some(Act::Raise(thrown)),
            _ => Some(Act::Give(Value::integer(n))),
        };
        let b = Value::custom(act.clone().map(|a| ("to_int", a)).into_iter().collect(), false);
        if case.rng.chance(1, 3) {
            g.store.redefined.push((INTEGER_CLASS, o.id()));
        }
        vm.answer = Some(Act::Give(Value::nil()));
        case.op(|| format!("{va:?} {} {b:?}", o.id().name()));
        let r = exec(vm, g, o, va, b, fcall, true);
        vcheck!(vm.calls.iter().all(|c| c.id != o.id()), "{va:?} {} an object: the builtin called {:?}", o.id().name(), vm.calls);
        case.count("shift_widths_asked");
        return match act {
            Some(Act::Give(_)) => {
                let j = judge(case, o, &a, &I(big(n as i128)), &r);
                tag(o, &a, &I(big(n as i128)), j)
            }
            _ => {
                vcheck!(r.is_err(), "{va:?} {} {b:?} gave {r:?}", o.id().name());
                Ok(())
            }
        };
    }
    let (mut x, mut y) = (number(case), number(case));
    tame(case, o, &mut x, &mut y);
    let (vx, vy) = (x.val(), y.val());
    let shape = case.rng.weighted(&[6, 2, 2, 2]);
    let act = match shape {
        0 => Some(Act::Give(Value::array2(vx, vy))),
        1 => Some(Act::Raise(thrown.clone())),
        2 => None,
        _ => {
            let odd = [Value::nil(), Value::array_from_vec(vec![]), Value::array_from_vec(vec![vx]), Value::array_from_vec(vec![vx, vy, vx]), vx];
            Some(Act::Give(*case.rng.pick(&odd)))
        }
    };
    let numeric = case.rng.chance(1, 2);
    let b = Value::custom(act.into_iter().map(|a| ("coerce", a)).collect(), numeric);
    case.op(|| format!("{va:?} {} {b:?}", o.id().name()));
    let r = exec(vm, g, o, va, b, fcall, raw);
    let asked: Vec<_> = vm.calls.iter().filter(|c| c.id.name() == "coerce" && c.recv == b).collect();
    vcheck!(asked.len() == 1 && asked[0].args == [va], "{va:?} {} an object: calls {:?}", o.id().name(), vm.calls);
    case.count("coercions_asked");
    let what = |v: vh::Violation| vh::Violation(format!("{va:?} {} {b:?}: {}", o.id().name(), v.0));
    match shape {
        0 => {
            if o.is_bit() && matches!(x, F(_)) {
                return raises(&r, &[Kind::Type]).map_err(what);
            }
            let again = vm.calls.iter().filter(|c| c.id == o.id() && c.recv == vx && c.args == [vy]).count();
            vcheck!(again == 1, "{va:?} {} {b:?}: calls {:?}", o.id().name(), vm.calls);
            if o.is_bit() && matches!(y, F(_)) {
                return Ok(());
            }
            case.count("coerced_pairs_used");
            judge(case, o, &x, &y, &r).map_err(what)
        }
        1 => {
            vcheck!(r == Err(thrown.clone()), "{va:?} {} an object whose coerce raises gave {r:?}", o.id().name());
            Ok(())
        }
        _ => raises(&r, &[if o.is_cmp() { Kind::Argument } else { Kind::Type }]).map_err(what),
    }
}

/// The receiver is an ordinary object: its own method answers.
fn receiving(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Check {
    g.store.redefined.clear();
    vm.answer = None;
    let o = *case.rng.pick(&ALL);
    let name = o.id().name();
    let ans = *case.rng.pick(&[Value::bool(true), Value::nil(), Value::integer(7), Value::symbol(IdentId::TO_S)]);
    let thrown = MonorubyErr::new(Kind::Scripted(3), "scripted");
    let act = if case.rng.chance(1, 4) { Act::Raise(thrown.clone()) } else { Act::Give(ans) };
    let asked = if o == Ne { "==" } else { name.as_str() };
    let a = Value::custom(vec![(asked, act.clone())], case.rng.chance(1, 2));
    let b = number(case).val();
    let fcall = case.rng.chance(1, 2);
    let raw = case.rng.chance(1, 2);
    case.op(|| format!("{a:?} {name} {b:?}"));
    let r = exec(vm, g, o, a, b, fcall, raw);
    vcheck!(vm.calls.len() == 1 && vm.calls[0].id.name() == asked && vm.calls[0].recv == a && vm.calls[0].args == [b], "object {name} {b:?}: calls {:?}", vm.calls);
    if let Some(f) = vm.calls[0].fcall {
        vcheck!(f == fcall, "object {name} {b:?}: the call became {}", if f { "private" } else { "public" });
    }
    match act {
        Act::Do(_) => unreachable!(),
        Act::Raise(e) => vcheck!(r == Err(e.clone()), "object {name}: gave {r:?}"),
        Act::Give(v) => {
            let want = if o == Ne { Value::bool(!v.as_bool()) } else { v };
            vcheck!(matches!(&r, Ok(x) if *x == want), "object {name} answering {v:?} gave {r:?}");
        }
    }
    case.count("objects_answered");
    Ok(())
}

/// Ordering as sorting and ranges ask for it, and equality of plain values.
fn ordering(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Check {
    g.store.redefined.clear();
    vm.answer = None;
    vm.calls.clear();
    if case.rng.chance(1, 2) {
        let (a, b) = (number(case), number(case));
        let (va, vb) = (a.val(), b.val());
        case.op(|| format!("compare {va:?} with {vb:?}"));
        let inner = vm.compare_values_inner(g, va, vb).map_err(|e| vh::Violation(format!("comparing {va:?} with {vb:?} raised {e:?}")))?;
        vcheck!(inner == order(&a, &b) || Some(inner) == order_rounded(&a, &b), "comparing {va:?} with {vb:?} gave {inner:?}");
        let outer = vm.compare_values(g, va, vb);
        vcheck!(outer.as_ref().ok().copied() == inner && (outer.is_ok() || raises(&outer.map(|_| Value::nil()), &[Kind::Argument]).is_ok()), "compare {va:?} with {vb:?}: inconsistent");
        case.count("orderings_judged");
        return Ok(());
    }
    if case.rng.chance(1, 2) {
        return asked_order(case, vm, g);
    }
    let pool = [
        Value::nil(),
        Value::bool(true),
        Value::bool(false),
        Value::symbol(IdentId::TO_S),
        Value::symbol(IdentId::_ADD),
        Value::integer(0),
        Value::integer(1),
        Value::float(0.0),
        Value::float(1.0),
        Value::string_in(b"ab", 0),
        Value::string_in(b"ab", 1),
        Value::string_in(b"\xc3\xa9", 0),
        Value::string_in(b"\xc3\xa9", 1),
    ];
    let i = case.rng.us(pool.len());
    let j = case.rng.us(pool.len());
    let (a, b) = (pool[i], pool[j]);
    let want = match (i, j) {
        (5 | 7, 5 | 7) | (6 | 8, 6 | 8) | (9 | 10, 9 | 10) => true,
        _ => i == j,
    };
    let o = *case.rng.pick(&[Eq, Ne]);
    case.op(|| format!("{a:?} {} {b:?}", o.id().name()));
    let r = exec(vm, g, o, a, b, true, false);
    truth(&r, &[want == (o == Eq)]).map_err(|v| vh::Violation(format!("{a:?} {} {b:?} {}", o.id().name(), v.0)))?;
    if i < 9 {
        let r = op::cmp_teq_values(vm, g, a, b, true).ok_or(MonorubyErr::typeerr("none"));
        truth(&r, &[want]).map_err(|v| vh::Violation(format!("{a:?} === {b:?} {}", v.0)))?;
        let r = op::cmp_teq_values_bool(vm, g, a, b).map(Value::bool);
        truth(&r, &[want]).map_err(|v| vh::Violation(format!("{a:?} === {b:?} {}", v.0)))?;
        vm.error = None;
        let r = op::cmp_teq_rescue_values(vm, g, a, b, true);
        vcheck!(r.is_none() && vm.error.take().is_some_and(|e| e.kind == Kind::Type), "rescue with {a:?} gave {r:?}");
    }
    case.count("plain_equalities");
    Ok(())
}

/// The order is what a `<=>` says, whatever number it says it with.
fn asked_order(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Check {
    let thrown = MonorubyErr::new(Kind::Scripted(5), "scripted");
    let n = number(case);
    let sign = match &n {
        I(b) => Some(b.cmp(&zero())),
        F(f) => f.partial_cmp(&0.0),
    };
    // (what <=> does, the order it stands for, the error expected instead)
    let (act, want, err) = match case.rng.weighted(&[3, 5, 2, 2, 2]) {
        0 => {
            let i = case.rng.below(3) as i64 - 1;
            (Act::Give(Value::integer(i)), Some(i.cmp(&0)), None)
        }
        1 => (Act::Give(n.val()), sign, sign.is_none().then_some(Kind::Argument)),
        2 => (Act::Give(Value::nil()), None, None),
        3 => (Act::Raise(thrown.clone()), None, Some(thrown.kind.clone())),
        _ => {
            // an answer that knows how it compares with zero itself
            let i = case.rng.below(7) as i64 - 3;
            (Act::Give(Value::custom(vec![("<=>", Act::Give(Value::integer(i)))], false)), Some(i.cmp(&0)), None)
        }
    };
    let other = if case.rng.chance(1, 2) { Value::custom(vec![], false) } else { number(case).val() };
    let lhs = if N::read(other).is_none() && case.rng.chance(1, 3) {
        // a number whose own <=> is asked about the object
        let float = !matches!(n, F(_)) && case.rng.chance(1, 2);
        let v = if float { F(gen_float(case)).val() } else { I(gen_int(case)).val() };
        g.store.redefined.push((v.class(), IdentId::_CMP));
        vm.answer = Some(act.clone());
        v
    } else {
        Value::custom(vec![("<=>", act.clone())], false)
    };
    case.op(|| format!("compare {lhs:?} with {other:?}, <=> doing {act:?}"));
    let inner = vm.compare_values_inner(g, lhs, other);
    let first = vm.calls.first().cloned();
    vcheck!(first.is_some_and(|c| c.id == IdentId::_CMP && c.recv == lhs && c.args == [other]), "comparing {lhs:?} with {other:?}: calls {:?}", vm.calls);
    let again = vm.calls.iter().filter(|c| c.id == IdentId::_CMP && c.recv == lhs).count();
    vcheck!(again == 1, "comparing {lhs:?} with {other:?} asked {again} times");
    let outer = vm.compare_values(g, lhs, other);
    match (&err, want) {
        (Some(k), _) => {
            vcheck!(matches!(&inner, Err(e) if e.kind == *k) || *k == Kind::Argument && inner == Ok(None), "<=> doing {act:?} gave {inner:?}");
            vcheck!(matches!(&outer, Err(e) if e.kind == *k), "<=> doing {act:?} gave {outer:?}");
        }
        (None, None) => {
            vcheck!(inner == Ok(None), "<=> answering nil gave {inner:?}");
            vcheck!(matches!(&outer, Err(e) if e.kind == Kind::Argument), "<=> answering nil gave {outer:?}");
        }
        (None, Some(o)) => {
            vcheck!(inner == Ok(Some(o)) && outer == Ok(o), "<=> doing {act:?} gave {inner:?} and {outer:?}, expected {o:?}");
            case.count("answered_orders");
        }
    }
    if let Act::Give(v) = act {
        // the same answer from a block
        let r = vm.cmpint(g, v, lhs, other);
        match want {
            Some(o) => vcheck!(r == Ok(o), "a block answering {v:?} gave {r:?}, expected {o:?}"),
            None => vcheck!(matches!(&r, Err(e) if e.kind == Kind::Argument), "a block answering {v:?} gave {r:?}"),
        }
    }
    Ok(())
}

/// Complex numbers with whole or float parts.
fn complex(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Check {
    g.store.redefined.clear();
    vm.answer = Some(Act::Give(Value::symbol(IdentId::get_id("answer"))));
    let num = |case: &mut Case| -> (f64, f64, Value) {
        let part = |case: &mut Case| -> (f64, N) {
            let i = case.rng.below(2001) as i64 - 1000;
            if case.rng.chance(1, 3) { (i as f64 / 4.0, F(i as f64 / 4.0)) } else { (i as f64, I(big(i as i128))) }
        };
        let (re, a) = part(case);
        if case.rng.chance(1, 3) {
            return (re, 0.0, a.val());
        }
        let (im, b) = part(case);
        let real = |n: &N| match n {
            I(b) => Real::from(b.clone()),
            F(f) => Real::from(*f),
        };
        (re, im, Value::complex(real(&a), real(&b)))
    };
    let (ar, ai, a) = num(case);
    let (br, bi, b) = num(case);
    if a.try_complex().is_none() && b.try_complex().is_none() {
        return Ok(());
    }
    let o = *case.rng.pick(&[Add, Sub, Mul, Div]);
    case.op(|| format!("{a:?} {} {b:?}", o.id().name()));
    let raw = case.rng.chance(1, 2);
    let r = exec(vm, g, o, a, b, false, raw);
    if o == Div {
        // carried out elsewhere, or through coerce
        let want = if a.try_complex().is_some() { "/" } else { "coerce" };
        vcheck!(vm.calls.first().is_some_and(|c| c.id.name() == want), "{a:?} / {b:?}: calls {:?}", vm.calls);
        return Ok(());
    }
    let (wr, wi) = match o {
        Add => (ar + br, ai + bi),
        Sub => (ar - br, ai - bi),
        _ => (ar * br - ai * bi, ar * bi + ai * br),
    };
    let Ok(v) = &r else { vbail!("{a:?} {} {b:?} raised", o.id().name()) };
    let Some(c) = v.try_complex() else { vbail!("{a:?} {} {b:?} gave {v:?}", o.id().name()) };
    vcheck!(c.re().to_f64() == wr && c.im().to_f64() == wi, "{a:?} {} {b:?} gave {v:?}", o.id().name());
    if a.try_complex().is_some() {
        let n = op::neg_value(vm, g, a, false).unwrap();
        let c = n.try_complex();
        vcheck!(c.is_some_and(|c| c.re().to_f64() == -ar && c.im().to_f64() == -ai), "-{a:?} gave {n:?}");
    }
    case.count("complex_judged");
    Ok(())
}

/// A complex number and an object that says whether it is real.
fn complex_asking(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Check {
    g.store.redefined.clear();
    vm.answer = None;
    let (re, im) = (case.rng.below(99) as i64 + 1, case.rng.below(99) as i64 + 1);
    let (x, y) = (case.rng.below(99) as i64 + 1, case.rng.below(99) as i64 + 1);
    let c = Value::complex(Real::from(re), Real::from(im));
    let thrown = MonorubyErr::new(Kind::Scripted(77), "real? raises");
    let numeric = case.rng.chance(3, 4);
    let real = case.rng.below(4);
    let mut m = vec![("coerce", Act::Give(Value::array2(Value::integer(x), Value::integer(y))))];
    match real {
        0 | 1 => m.push(("real?", Act::Give(Value::bool(real == 1)))),
        2 => m.push(("real?", Act::Raise(thrown.clone()))),
        _ => {}
    }
    // without a real? of its own there is none at all
    let obj = Value::custom(m, numeric);
    let o = *case.rng.pick(&[Add, Sub, Mul]);
    case.op(|| format!("{c:?} {} {obj:?}", o.id().name()));
    let raw = case.rng.chance(1, 2);
    let r = exec(vm, g, o, c, obj, false, raw);
    let f = |x: i64, y: i64| match o {
        Add => x + y,
        Sub => x - y,
        _ => x * y,
    };
    if numeric && real == 2 {
        vcheck!(matches!(&r, Err(e) if e.kind == thrown.kind), "{c:?} {} {obj:?} gave {r:?}", o.id().name());
        return Ok(());
    }
    let Ok(v) = &r else { vbail!("{c:?} {} {obj:?} gave {r:?}", o.id().name()) };
    let asked: Vec<Value> = vm.calls.iter().filter(|k| k.id.name() == "coerce").map(|k| k.args[0]).collect();
    if numeric && real == 1 {
        // part by part
        let part = f(x, y) as f64;
        let ok = v.try_complex().is_some_and(|c| c.re().to_f64() == part && c.im().to_f64() == if o == Mul { part } else { im as f64 });
        vcheck!(ok, "{c:?} {} {obj:?} gave {v:?}", o.id().name());
        let want = if o == Mul { vec![Value::integer(re), Value::integer(im)] } else { vec![Value::integer(re)] };
        vcheck!(asked == want, "{c:?} {} {obj:?} coerced {asked:?}", o.id().name());
        case.count("complex_part_by_part");
    } else {
        vcheck!(*v == Value::integer(f(x, y)) && asked == [c], "{c:?} {} {obj:?} gave {v:?}, coerced {asked:?}", o.id().name());
        case.count("complex_coerced");
    }
    Ok(())
}

/// What compiled code calls with bare numbers.
fn direct(case: &mut Case, vm: &mut Executor, _: &mut Globals) -> Check {
    if case.rng.chance(1, 2) {
        let (x, y) = (gen_float(case), gen_float(case));
        case.op(|| format!("{x:e} % {y:e}"));
        if y != 0.0 {
            float(&Ok(Value::float(op::rem_ff(x, y))), float_mod(x, y)).map_err(|v| vh::Violation(format!("{x:e} % {y:e} {}", v.0)))?;
        }
        let r = Ok(op::pow_ff(x, y));
        let j = judge(case, Pow, &F(x), &F(y), &r);
        tag(Pow, &F(x), &F(y), j)?;
    } else {
        let (mut a, mut b) = (I(gen_int(case)), I(zero()));
        tame(case, Pow, &mut a, &mut b);
        let (I(x), I(e)) = (&a, &b) else { unreachable!() };
        if !a.word() || !b.word() {
            return Ok(());
        }
        let (x, e) = (x.to_i64().unwrap(), e.to_i64().unwrap());
        case.op(|| format!("{x} ** {e}"));
        vm.error = None;
        let r = op::pow_ii(x, e, vm).ok_or_else(|| vm.take_error());
        let j = judge(case, Pow, &a, &b, &r);
        tag(Pow, &a, &b, j)?;
    }
    case.count("direct_entries");
    Ok(())
}

fn run(case: &mut Case) -> Verdict {
    case.nontrivial();
    reset_heap();
    let mut vm = Executor::default();
    let mut g = Globals::default();
    let rounds = if case.thorough { 40 } else { 20 };
    for _ in 0..rounds {
        vh::step();
        let (vm, g) = (&mut vm, &mut g);
        match case.rng.weighted(&[20, 4, 3, 4, 6, 2, 3, 2, 2]) {
            0 => numbers(case, vm, g)?,
            1 => divmod(case, vm, g)?,
            2 => unary(case, vm, g)?,
            3 => index(case, vm, g)?,
            4 => asking(case, vm, g)?,
            5 => receiving(case, vm, g)?,
            6 => ordering(case, vm, g)?,
            7 if case.rng.chance(1, 3) => complex_asking(case, vm, g)?,
            7 => complex(case, vm, g)?,
            _ => direct(case, vm, g)?,
        }
        vcheck!(vm.temps.is_empty(), "temporary roots left behind");
    }
    Ok(())
}

fn main() {
    vh::main_loop("C35", run);
}
