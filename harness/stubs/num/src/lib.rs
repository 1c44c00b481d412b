//! A small arbitrary-precision integer with the names the interpreter's
//! files use.  The real crate is not available offline; this one is plain
//! schoolbook arithmetic over 32-bit limbs.

use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct BigInt {
    neg: bool,
    mag: Vec<u32>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}

fn trim(mut m: Vec<u32>) -> Vec<u32> {
    while m.last() == Some(&0) {
        m.pop();
    }
    m
}

fn ucmp(a: &[u32], b: &[u32]) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}

fn uadd(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        c += *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        out.push(c as u32);
        c >>= 32;
    }
    out.push(c as u32);
    trim(out)
}

/// a - b, a >= b
fn usub(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = Vec::with_capacity(a.len());
    let mut borrow = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - borrow;
        borrow = 0;
        if d < 0 {
            d += 1 << 32;
            borrow = 1;
        }
        out.push(d as u32);
    }
    trim(out)
}

fn umul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut out = vec![0u32; a.len() + b.len() + 1];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate() {
            c += x as u64 * y as u64 + out[i + j] as u64;
            out[i + j] = c as u32;
            c >>= 32;
        }
        let mut k = i + b.len();
        while c > 0 {
            c += out[k] as u64;
            out[k] = c as u32;
            c >>= 32;
            k += 1;
        }
    }
    trim(out)
}

fn ushl(a: &[u32], n: usize) -> Vec<u32> {
    if a.is_empty() {
        return vec![];
    }
    let (w, b) = (n / 32, n % 32);
    let mut out = vec![0u32; w];
    let mut c = 0u64;
    for &x in a {
        c |= (x as u64) << b;
        out.push(c as u32);
        c >>= 32;
    }
    out.push(c as u32);
    trim(out)
}

fn ushr(a: &[u32], n: usize) -> Vec<u32> {
    let (w, b) = (n / 32, n % 32);
    let mut out = vec![];
    for i in w..a.len() {
        let hi = *a.get(i + 1).unwrap_or(&0) as u64;
        let v = (hi << 32 | a[i] as u64) >> b;
        out.push(v as u32);
    }
    trim(out)
}

fn udivrem_small(a: &[u32], d: u32) -> (Vec<u32>, u32) {
    let mut q = vec![0u32; a.len()];
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        let cur = r << 32 | a[i] as u64;
        q[i] = (cur / d as u64) as u32;
        r = cur % d as u64;
    }
    (trim(q), r as u32)
}

fn udivrem(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty(), "attempt to divide by zero");
    if ucmp(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let (q, r) = udivrem_small(a, b[0]);
        return (q, trim(vec![r]));
    }
    // Knuth, algorithm D
    let s = b[b.len() - 1].leading_zeros() as usize;
    let b = ushl(b, s);
    let mut u = ushl(a, s);
    let n = b.len();
    while u.len() < a.len() + 1 {
        u.push(0);
    }
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    for j in (0..=m).rev() {
        let top = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
        let mut qh = top / b[n - 1] as u64;
        let mut rh = top % b[n - 1] as u64;
        while qh >= 1 << 32 || qh * b[n - 2] as u64 > (rh << 32 | u[j + n - 2] as u64) {
            qh -= 1;
            rh += b[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qh * b[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p as u32) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                c += u[i + j] as u64 + b[i] as u64;
                u[i + j] = c as u32;
                c >>= 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    u.truncate(n);
    (trim(q), ushr(&trim(u), s))
}

impl BigInt {
    pub const ZERO: BigInt = BigInt { neg: false, mag: Vec::new() };

    fn make(neg: bool, mag: Vec<u32>) -> Self {
        let mag = trim(mag);
        BigInt { neg: neg && !mag.is_empty(), mag }
    }

    pub fn bits(&self) -> u64 {
        match self.mag.last() {
            None => 0,
            Some(t) => self.mag.len() as u64 * 32 - t.leading_zeros() as u64,
        }
    }

    pub fn sign(&self) -> Sign {
        if self.mag.is_empty() {
            Sign::NoSign
        } else if self.neg {
            Sign::Minus
        } else {
            Sign::Plus
        }
    }

    pub fn pow(&self, e: u32) -> BigInt {
        let mut r = BigInt::from(1);
        for _ in 0..e {
            r = &r * self;
        }
        r
    }

    pub fn parse_bytes(s: &[u8], radix: u32) -> Option<BigInt> {
        let (neg, digits) = match s.first()? {
            b'-' => (true, &s[1..]),
            b'+' => (false, &s[1..]),
            _ => (false, s),
        };
        if digits.is_empty() {
            return None;
        }
        let mut m: Vec<u32> = vec![];
        for &c in digits {
            let d = (c as char).to_digit(radix)?;
            m = uadd(&umul(&m, &[radix]), &trim(vec![d]));
        }
        Some(BigInt::make(neg, m))
    }

    pub fn to_str_radix(&self, radix: u32) -> String {
        let mut s = self.digits(radix);
        if self.neg {
            s.insert(0, '-');
        }
        s
    }

    fn digits(&self, radix: u32) -> String {
        if self.mag.is_empty() {
            return "0".to_string();
        }
        let mut m = self.mag.clone();
        let mut out = vec![];
        while !m.is_empty() {
            let (q, r) = udivrem_small(&m, radix);
            out.push(std::char::from_digit(r, radix).unwrap());
            m = q;
        }
        out.iter().rev().collect()
    }

    /// Bit `i` of the two's complement form.
    pub fn bit(&self, i: u64) -> bool {
        (self >> i).to_u64_wrapping() & 1 == 1
    }
    pub fn to_u64_wrapping(&self) -> u64 {
        let lo = *self.mag.first().unwrap_or(&0) as u64 | (*self.mag.get(1).unwrap_or(&0) as u64) << 32;
        if self.neg { lo.wrapping_neg() } else { lo }
    }

    pub fn from_f64(f: f64) -> Option<BigInt> {
        FromPrimitive::from_f64(f)
    }

    pub fn to_i128(&self) -> Option<i128> {
        if self.mag.len() > 4 {
            return None;
        }
        let mut v = 0u128;
        for (i, &x) in self.mag.iter().enumerate() {
            v |= (x as u128) << (32 * i);
        }
        if self.neg {
            if v > 1u128 << 127 { None } else { Some((v as i128).wrapping_neg()) }
        } else {
            i128::try_from(v).ok()
        }
    }

    pub fn from_i128(v: i128) -> BigInt {
        let mut a = v.unsigned_abs();
        let mut m = vec![];
        while a > 0 {
            m.push(a as u32);
            a >>= 32;
        }
        BigInt::make(v < 0, m)
    }
}

macro_rules! from_int {
    ($($t:ty),*) => {$(
        impl From<$t> for BigInt {
            fn from(v: $t) -> Self {
                BigInt::from_i128(v as i128)
            }
        }
        impl Add<$t> for BigInt { type Output = BigInt; fn add(self, o: $t) -> BigInt { &self + &BigInt::from(o) } }
        impl Sub<$t> for BigInt { type Output = BigInt; fn sub(self, o: $t) -> BigInt { &self - &BigInt::from(o) } }
        impl Mul<$t> for BigInt { type Output = BigInt; fn mul(self, o: $t) -> BigInt { &self * &BigInt::from(o) } }
        impl Div<$t> for BigInt { type Output = BigInt; fn div(self, o: $t) -> BigInt { &self / &BigInt::from(o) } }
        impl Rem<$t> for BigInt { type Output = BigInt; fn rem(self, o: $t) -> BigInt { &self % &BigInt::from(o) } }
        impl Add<$t> for &BigInt { type Output = BigInt; fn add(self, o: $t) -> BigInt { self + &BigInt::from(o) } }
        impl Sub<$t> for &BigInt { type Output = BigInt; fn sub(self, o: $t) -> BigInt { self - &BigInt::from(o) } }
        impl Mul<$t> for &BigInt { type Output = BigInt; fn mul(self, o: $t) -> BigInt { self * &BigInt::from(o) } }
        impl Div<$t> for &BigInt { type Output = BigInt; fn div(self, o: $t) -> BigInt { self / &BigInt::from(o) } }
        impl Rem<$t> for &BigInt { type Output = BigInt; fn rem(self, o: $t) -> BigInt { self % &BigInt::from(o) } }
        impl DivAssign<$t> for BigInt { fn div_assign(&mut self, o: $t) { *self = &*self / &BigInt::from(o) } }
        impl MulAssign<$t> for BigInt { fn mul_assign(&mut self, o: $t) { *self = &*self * &BigInt::from(o) } }
        impl AddAssign<$t> for BigInt { fn add_assign(&mut self, o: $t) { *self = &*self + &BigInt::from(o) } }
        impl SubAssign<$t> for BigInt { fn sub_assign(&mut self, o: $t) { *self = &*self - &BigInt::from(o) } }
        impl Shl<$t> for BigInt { type Output = BigInt; fn shl(self, n: $t) -> BigInt { &self << n } }
        impl Shr<$t> for BigInt { type Output = BigInt; fn shr(self, n: $t) -> BigInt { &self >> n } }
        impl Shl<$t> for &BigInt { type Output = BigInt; fn shl(self, n: $t) -> BigInt { BigInt::make(self.neg, ushl(&self.mag, n as usize)) } }
        impl Shr<$t> for &BigInt {
            type Output = BigInt;
            fn shr(self, n: $t) -> BigInt {
                let q = ushr(&self.mag, n as usize);
                // rounds towards minus infinity
                if self.neg && ushl(&q, n as usize) != self.mag {
                    BigInt::make(true, uadd(&q, &[1]))
                } else {
                    BigInt::make(self.neg, q)
                }
            }
        }
        impl ShrAssign<$t> for BigInt { fn shr_assign(&mut self, n: $t) { *self = &*self >> n } }
        impl ShlAssign<$t> for BigInt { fn shl_assign(&mut self, n: $t) { *self = &*self << n } }
        impl TryFrom<&BigInt> for $t { type Error = (); fn try_from(b: &BigInt) -> Result<$t, ()> { b.to_i128().and_then(|v| <$t>::try_from(v).ok()).ok_or(()) } }
        impl TryFrom<BigInt> for $t { type Error = (); fn try_from(b: BigInt) -> Result<$t, ()> { <$t>::try_from(&b) } }
    )*};
}
from_int!(i8, u8, i16, u16, i32, u32, i64, u64, usize, isize);

impl From<i128> for BigInt {
    fn from(v: i128) -> Self {
        BigInt::from_i128(v)
    }
}

impl Add<&BigInt> for &BigInt {
    type Output = BigInt;
    fn add(self, o: &BigInt) -> BigInt {
        if self.neg == o.neg {
            BigInt::make(self.neg, uadd(&self.mag, &o.mag))
        } else {
            match ucmp(&self.mag, &o.mag) {
                Ordering::Less => BigInt::make(o.neg, usub(&o.mag, &self.mag)),
                _ => BigInt::make(self.neg, usub(&self.mag, &o.mag)),
            }
        }
    }
}
impl Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::make(!self.neg, self.mag.clone())
    }
}
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::make(!self.neg, self.mag)
    }
}
impl Sub<&BigInt> for &BigInt {
    type Output = BigInt;
    fn sub(self, o: &BigInt) -> BigInt {
        self + &(-o)
    }
}
impl Mul<&BigInt> for &BigInt {
    type Output = BigInt;
    fn mul(self, o: &BigInt) -> BigInt {
        BigInt::make(self.neg != o.neg, umul(&self.mag, &o.mag))
    }
}
impl Div<&BigInt> for &BigInt {
    type Output = BigInt;
    fn div(self, o: &BigInt) -> BigInt {
        BigInt::make(self.neg != o.neg, udivrem(&self.mag, &o.mag).0)
    }
}
impl Rem<&BigInt> for &BigInt {
    type Output = BigInt;
    fn rem(self, o: &BigInt) -> BigInt {
        BigInt::make(self.neg, udivrem(&self.mag, &o.mag).1)
    }
}
macro_rules! forward {
    ($($tr:ident $m:ident),*) => {$(
        impl $tr<BigInt> for BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { (&self).$m(&o) } }
        impl $tr<&BigInt> for BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { (&self).$m(o) } }
        impl $tr<BigInt> for &BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { self.$m(&o) } }
    )*};
}
forward!(Add add, Sub sub, Mul mul, Div div, Rem rem, BitAnd bitand, BitOr bitor, BitXor bitxor);

/// Two's complement limbs, sign-extended to `n` of them.
fn twos(b: &BigInt, n: usize) -> Vec<u32> {
    let mut out: Vec<u32> = (0..n).map(|i| *b.mag.get(i).unwrap_or(&0)).collect();
    if b.neg {
        let mut carry = true;
        for x in out.iter_mut() {
            let (v, c) = (!*x).overflowing_add(carry as u32);
            *x = v;
            carry = c;
        }
    }
    out
}
fn bitop(a: &BigInt, b: &BigInt, f: impl Fn(u32, u32) -> u32) -> BigInt {
    let n = a.mag.len().max(b.mag.len()) + 1;
    let mut out: Vec<u32> = twos(a, n).into_iter().zip(twos(b, n)).map(|(x, y)| f(x, y)).collect();
    let neg = out[n - 1] >> 31 == 1;
    if neg {
        let mut carry = true;
        for x in out.iter_mut() {
            let (v, c) = (!*x).overflowing_add(carry as u32);
            *x = v;
            carry = c;
        }
    }
    BigInt::make(neg, out)
}
macro_rules! bitops {
    ($($tr:ident $m:ident $f:expr),*) => {$(
        impl $tr<&BigInt> for &BigInt {
            type Output = BigInt;
            fn $m(self, o: &BigInt) -> BigInt { bitop(self, o, $f) }
        }
    )*};
}
bitops!(BitAnd bitand |a, b| a & b, BitOr bitor |a, b| a | b, BitXor bitxor |a, b| a ^ b);
impl Not for &BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        -(self + &BigInt::from(1))
    }
}
impl Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        !&self
    }
}

impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &BigInt) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &BigInt) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => ucmp(&self.mag, &o.mag),
            (true, true) => ucmp(&o.mag, &self.mag),
        }
    }
}

impl fmt::Display for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(!self.neg, "", &self.digits(10))
    }
}
impl fmt::LowerHex for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(!self.neg, "0x", &self.digits(16))
    }
}
impl fmt::UpperHex for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(!self.neg, "0x", &self.digits(16).to_uppercase())
    }
}
impl fmt::Octal for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(!self.neg, "0o", &self.digits(8))
    }
}
impl fmt::Binary for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad_integral(!self.neg, "0b", &self.digits(2))
    }
}
impl std::str::FromStr for BigInt {
    type Err = ();
    fn from_str(s: &str) -> Result<BigInt, ()> {
        BigInt::parse_bytes(s.as_bytes(), 10).ok_or(())
    }
}

pub trait Zero: Sized {
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
}
pub trait One: Sized {
    fn one() -> Self;
    fn is_one(&self) -> bool
    where
        Self: PartialEq,
    {
        *self == Self::one()
    }
}
pub trait Signed: Sized {
    fn abs(&self) -> Self;
    fn is_negative(&self) -> bool;
    fn is_positive(&self) -> bool;
}
pub trait ToPrimitive {
    fn to_i64(&self) -> Option<i64>;
    fn to_u64(&self) -> Option<u64>;
    fn to_f64(&self) -> Option<f64>;
    fn to_i32(&self) -> Option<i32> {
        self.to_i64().and_then(|v| v.try_into().ok())
    }
    fn to_u8(&self) -> Option<u8> {
        self.to_i64().and_then(|v| v.try_into().ok())
    }
    fn to_u32(&self) -> Option<u32> {
        self.to_i64().and_then(|v| v.try_into().ok())
    }
    fn to_usize(&self) -> Option<usize> {
        self.to_u64().and_then(|v| v.try_into().ok())
    }
}
pub trait FromPrimitive: Sized {
    fn from_f64(f: f64) -> Option<Self>;
}

impl Zero for BigInt {
    fn zero() -> Self {
        BigInt::ZERO
    }
    fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
}
impl One for BigInt {
    fn one() -> Self {
        BigInt::from(1)
    }
    fn is_one(&self) -> bool {
        !self.neg && self.mag == [1]
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        BigInt::make(false, self.mag.clone())
    }
    fn is_negative(&self) -> bool {
        self.neg
    }
    fn is_positive(&self) -> bool {
        !self.neg && !self.mag.is_empty()
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        i64::try_from(self).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        u64::try_from(self).ok()
    }
    /// Nearest, ties to even; values out of range become infinite.
    fn to_f64(&self) -> Option<f64> {
        let bits = self.bits();
        let f = if bits <= 64 {
            let mut v = 0u64;
            for (i, &x) in self.mag.iter().enumerate() {
                v |= (x as u64) << (32 * i);
            }
            v as f64
        } else if bits > 1024 {
            f64::INFINITY
        } else {
            let sh = bits as usize - 64;
            let top = ushr(&self.mag, sh);
            let mut v = top[0] as u64 | (top[1] as u64) << 32;
            if ushl(&top, sh) != self.mag {
                v |= 1;
            }
            // v has its top bit set, so the conversion rounds once
            (v as f64) * pow2(sh)
        };
        Some(if self.neg { -f } else { f })
    }
}
fn pow2(n: usize) -> f64 {
    let mut r = 1.0;
    for _ in 0..n {
        r *= 2.0;
    }
    r
}
impl FromPrimitive for BigInt {
    fn from_f64(f: f64) -> Option<Self> {
        if !f.is_finite() {
            return None;
        }
        let b = f.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = if e == 0 { (b & ((1 << 52) - 1)) << 1 } else { b & ((1 << 52) - 1) | 1 << 52 };
        let sh = e - 1075;
        let v = BigInt::from(m);
        let v = if sh >= 0 { v << sh as u32 } else if sh > -64 { BigInt::from(m >> (-sh)) } else { BigInt::ZERO };
        Some(if f < 0.0 { -v } else { v })
    }
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl ToPrimitive for $t {
            fn to_i64(&self) -> Option<i64> { (*self).try_into().ok() }
            fn to_u64(&self) -> Option<u64> { (*self).try_into().ok() }
            fn to_f64(&self) -> Option<f64> { Some(*self as f64) }
        }
        impl Zero for $t { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } }
        impl One for $t { fn one() -> Self { 1 } fn is_one(&self) -> bool { *self == 1 } }
    )*};
}
prim!(i32, u32, i64, u64, usize);

impl ToPrimitive for f64 {
    fn to_i64(&self) -> Option<i64> {
        BigInt::from_f64(*self).and_then(|b| b.to_i64())
    }
    fn to_u64(&self) -> Option<u64> {
        BigInt::from_f64(*self).and_then(|b| b.to_u64())
    }
    fn to_f64(&self) -> Option<f64> {
        Some(*self)
    }
}
impl Signed for i64 {
    fn abs(&self) -> i64 {
        i64::abs(*self)
    }
    fn is_negative(&self) -> bool {
        *self < 0
    }
    fn is_positive(&self) -> bool {
        *self > 0
    }
}

impl Zero for f64 {
    fn zero() -> Self {
        0.0
    }
    fn is_zero(&self) -> bool {
        *self == 0.0
    }
}
impl One for f64 {
    fn one() -> Self {
        1.0
    }
}
pub trait Num: PartialEq + Zero + One {
    type FromStrRadixErr;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, Self::FromStrRadixErr>;
}
impl Num for f64 {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, _: u32) -> Result<Self, ()> {
        s.parse().map_err(|_| ())
    }
}

pub mod complex {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
    pub struct Complex<T> {
        pub re: T,
        pub im: T,
    }
    impl<T> Complex<T> {
        pub const fn new(re: T, im: T) -> Self {
            Complex { re, im }
        }
    }
    impl<T: Num> From<T> for Complex<T> {
        fn from(re: T) -> Self {
            Complex { re, im: T::zero() }
        }
    }
    pub trait Part: Clone + Num + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Rem<Output = Self> {}
    impl<T: Clone + Num + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + Rem<Output = T>> Part for T {}
    macro_rules! ops {
        ($($tr:ident $m:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
            impl<T: Part> $tr<Complex<T>> for Complex<T> {
                type Output = Complex<T>;
                fn $m(self, o: Complex<T>) -> Complex<T> {
                    let ($a, $b) = (self, o);
                    $e
                }
            }
            impl<T: Part> $tr<&Complex<T>> for Complex<T> {
                type Output = Complex<T>;
                fn $m(self, o: &Complex<T>) -> Complex<T> { self.$m(o.clone()) }
            }
            impl<T: Part> $tr<Complex<T>> for &Complex<T> {
                type Output = Complex<T>;
                fn $m(self, o: Complex<T>) -> Complex<T> { self.clone().$m(o) }
            }
            impl<T: Part> $tr<&Complex<T>> for &Complex<T> {
                type Output = Complex<T>;
                fn $m(self, o: &Complex<T>) -> Complex<T> { self.clone().$m(o.clone()) }
            }
        )*};
    }
    ops! {
        Add add |a, b| Complex::new(a.re + b.re, a.im + b.im);
        Sub sub |a, b| Complex::new(a.re - b.re, a.im - b.im);
        Mul mul |a, b| Complex::new(
            a.re.clone() * b.re.clone() - a.im.clone() * b.im.clone(),
            a.re * b.im + a.im * b.re,
        );
        Div div |a, b| {
            let n = b.re.clone() * b.re.clone() + b.im.clone() * b.im.clone();
            let re = a.re.clone() * b.re.clone() + a.im.clone() * b.im.clone();
            let im = a.im * b.re - a.re * b.im;
            Complex::new(re / n.clone(), im / n)
        };
        Rem rem |a, b| {
            let q = a.clone() / b.clone();
            let one = T::one();
            let g = Complex::new(q.re.clone() - q.re % one.clone(), q.im.clone() - q.im % one);
            a - b * g
        };
    }
    impl<T: Part + Neg<Output = T>> Neg for Complex<T> {
        type Output = Complex<T>;
        fn neg(self) -> Complex<T> {
            Complex::new(-self.re, -self.im)
        }
    }
}

pub mod integer {
    use super::*;
    macro_rules! prim_int {
        ($($t:ty),*) => {$(
            impl Integer for $t {
                fn gcd(&self, o: &Self) -> Self {
                    let (mut a, mut b) = (*self, *o);
                    while b != 0 {
                        (a, b) = (b, a % b);
                    }
                    a.wrapping_abs()
                }
                fn div_rem(&self, o: &Self) -> (Self, Self) { (self / o, self % o) }
                fn div_floor(&self, o: &Self) -> Self {
                    let (q, r) = (self / o, self % o);
                    if r != 0 && (r < 0) != (*o < 0) { q - 1 } else { q }
                }
                fn mod_floor(&self, o: &Self) -> Self {
                    let r = self % o;
                    if r != 0 && (r < 0) != (*o < 0) { r + o } else { r }
                }
                fn is_even(&self) -> bool { self % 2 == 0 }
            }
        )*};
    }
    prim_int!(i64, i32);
    pub trait Integer: Sized {
        fn gcd(&self, o: &Self) -> Self;
        fn div_rem(&self, o: &Self) -> (Self, Self);
        fn div_floor(&self, o: &Self) -> Self;
        fn mod_floor(&self, o: &Self) -> Self;
        fn is_even(&self) -> bool;
        fn is_odd(&self) -> bool {
            !self.is_even()
        }
    }
    pub fn div_rem<T: Integer>(a: T, b: T) -> (T, T) {
        a.div_rem(&b)
    }
    impl Integer for BigInt {
        fn gcd(&self, o: &Self) -> Self {
            let (mut a, mut b) = (self.abs(), o.abs());
            while !b.is_zero() {
                let r = &a % &b;
                a = b;
                b = r;
            }
            a
        }
        fn div_rem(&self, o: &Self) -> (Self, Self) {
            (self / o, self % o)
        }
        fn div_floor(&self, o: &Self) -> Self {
            let (q, r) = self.div_rem(o);
            if !r.is_zero() && r.is_negative() != o.is_negative() { q - 1 } else { q }
        }
        fn mod_floor(&self, o: &Self) -> Self {
            self - &(self.div_floor(o) * o)
        }
        fn is_even(&self) -> bool {
            self.mag.first().is_none_or(|x| x % 2 == 0)
        }
    }
}
pub mod bigint {
    pub use super::{BigInt, Sign};
}
pub mod traits {
    pub use super::{FromPrimitive, Num, One, Signed, ToPrimitive, Zero};
}
pub use integer::Integer;
pub fn signum(f: f64) -> f64 {
    f.signum()
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn agrees_with_i128() {
        let mut s = 12345u64;
        let mut next = || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s
        };
        for _ in 0..200000 {
            let wa = next() % 126;
            let a = (((next() as u128) << 64 | next() as u128) >> 1 >> wa) as i128 * if next() & 1 == 0 { 1 } else { -1 };
            let wb = next() % 126;
            let b = (((next() as u128) << 64 | next() as u128) >> 1 >> wb) as i128 * if next() & 1 == 0 { 1 } else { -1 };
            let (x, y) = (BigInt::from(a), BigInt::from(b));
            assert_eq!(x.to_i128(), Some(a));
            assert_eq!(x.to_string(), a.to_string());
            assert_eq!(x.cmp(&y), a.cmp(&b));
            if let Some(c) = a.checked_add(b) {
                assert_eq!((&x + &y).to_i128(), Some(c));
            }
            if let Some(c) = a.checked_mul(b) {
                assert_eq!((&x * &y).to_i128(), Some(c));
            }
            if b != 0 {
                assert_eq!((&x / &y).to_i128(), Some(a / b));
                assert_eq!((&x % &y).to_i128(), Some(a % b));
                let p = &x * &y + &BigInt::from(a % b);
                let (q, r) = p.div_rem(&y);
                assert_eq!(&q * &y + &r, p);
                assert!(r.abs() < y.abs());
            }
            let n = (next() % 130) as u32;
            if n < 127 {
                assert_eq!((&x >> n).to_i128(), Some(a >> n));
            }
            assert_eq!((&x & &y).to_i128(), Some(a & b));
            assert_eq!((&x | &y).to_i128(), Some(a | b));
            assert_eq!((&x ^ &y).to_i128(), Some(a ^ b));
            assert_eq!((!&x).to_i128(), Some(!a));
            assert_eq!(x.bit(n as u64), a >> n.min(127) & 1 == 1);
            assert_eq!(x.to_f64(), Some(a as f64));
            assert_eq!(a.to_string().parse::<BigInt>().unwrap(), x);
        }
    }
}
