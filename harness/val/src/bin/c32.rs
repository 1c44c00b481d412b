//! C32: formatted output against an independent reading of the directives.
#![allow(dead_code, clippy::all)]
use vh::{vbail, vcheck, veq, Case, Verdict, Violation};

#[path = "../mini.rs"]
mod value;
use value::rvalue::string::*;
use value::*;

#[path = "/repo/monoruby/src/executor/format.rs"]
mod format;
use format::negotiate_format;

/// Text as the characters it is made of.
type Text = Vec<Vec<u8>>;

fn text(s: &str) -> Text {
    s.chars().map(|c| c.to_string().into_bytes()).collect()
}
fn flat(t: &[Vec<u8>]) -> Vec<u8> {
    t.concat()
}

#[derive(Clone)]
struct Arg {
    v: Value,
    s: Text,
    p: Text,
    int: Option<BigInt>,
    flt: f64,
    whole: bool,
    chr: Option<Vec<u8>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Num {
    No,
    /// a bare dot
    Dot,
    Lit(usize),
    Star(i64),
}

#[derive(Clone, Debug)]
struct Dir {
    flags: String,
    width: Num,
    prec: Num,
    conv: char,
}

struct Fl {
    minus: bool,
    plus: bool,
    space: bool,
    sharp: bool,
    zero: bool,
    width: i64,
    prec: Option<i64>,
}

impl Dir {
    fn resolve(&self) -> Fl {
        let has = |c| self.flags.contains(c);
        let mut f = Fl { minus: has('-'), plus: has('+'), space: has(' '), sharp: has('#'), zero: has('0'), width: -1, prec: None };
        match self.width {
            Num::Lit(n) => f.width = n as i64,
            Num::Star(n) => {
                f.minus |= n < 0;
                f.width = n.abs();
            }
            _ => {}
        }
        f.prec = match self.prec {
            Num::No => None,
            Num::Dot => Some(0),
            Num::Lit(n) => Some(n as i64),
            Num::Star(n) => (n >= 0).then_some(n),
        };
        f
    }
}

fn pad(body: Vec<u8>, chars: usize, f: &Fl) -> Vec<u8> {
    let fill = vec![b' '; (f.width - chars as i64).max(0) as usize];
    if f.minus { [body, fill].concat() } else { [fill, body].concat() }
}

fn sign_of(neg: bool, f: &Fl) -> &'static str {
    if neg {
        "-"
    } else if f.plus {
        "+"
    } else if f.space {
        " "
    } else {
        ""
    }
}

/// Integers: sign, prefix, dots, zeros and digits, in that order.
fn int_body(v: &BigInt, conv: char, f: &Fl) -> Vec<u8> {
    let zero = BigInt::from(0i64);
    let base: i64 = match conv {
        'd' | 'i' | 'u' => 10,
        'o' => 8,
        'x' | 'X' => 16,
        _ => 2,
    };
    let signed = base == 10 || f.plus || f.space;
    let neg = *v < zero;
    let mag = if neg { -v } else { v.clone() };
    let dots = neg && !signed;
    let top = std::char::from_digit(base as u32 - 1, base as u32).unwrap();
    let mut digits = if dots {
        // the value modulo a power of the base that exceeds it
        let mut m = BigInt::from(base);
        let mut n = 1;
        while m <= mag {
            m = &m * &BigInt::from(base);
            n += 1;
        }
        let d = (&m + v).to_str_radix(base as u32);
        let d = format!("{}{d}", "0".repeat(n - d.len()));
        format!("{top}{}", d.trim_start_matches(top))
    } else {
        mag.to_str_radix(base as u32)
    };
    let mut fill = if dots { top } else { '0' };
    if conv == 'X' {
        digits = digits.to_uppercase();
        fill = fill.to_ascii_uppercase();
    }
    let nil = mag == zero;
    // what a precision asks for
    let mut want = f.prec.unwrap_or(1) - if dots { 2 } else { 0 };
    let mut prefix = match (f.sharp, conv) {
        (true, 'x') => "0x",
        (true, 'X') => "0X",
        (true, 'b') => "0b",
        (true, 'B') => "0B",
        _ => "",
    };
    if nil {
        prefix = "";
        if f.prec == Some(0) {
            digits.clear();
        }
    }
    if f.sharp && conv == 'o' && !dots {
        // octal: at least one leading zero
        want = want.max(digits.trim_start_matches('0').len() as i64 + 1);
    }
    let sc = if signed { sign_of(neg, f) } else { "" };
    let lead = format!("{sc}{prefix}{}", if dots { ".." } else { "" });
    if f.zero && !f.minus && f.prec.is_none() {
        want = want.max(f.width - lead.len() as i64);
    }
    let more = (want - digits.len() as i64).max(0) as usize;
    let body = format!("{lead}{}{digits}", fill.to_string().repeat(more));
    let n = body.len();
    pad(body.into_bytes(), n, f)
}

fn c_float(x: f64, conv: char, f: &Fl) -> Vec<u8> {
    let mut spec = String::from("%");
    for (on, c) in [(f.minus, '-'), (f.plus, '+'), (f.space, ' '), (f.sharp, '#'), (f.zero, '0')] {
        if on {
            spec.push(c);
        }
    }
    spec.push_str(&format!("*.*{conv}\0"));
    let (w, p) = (f.width.max(0) as i32, f.prec.map_or(-1, |p| p as i32));
    unsafe {
        let n = libc::snprintf(std::ptr::null_mut(), 0, spec.as_ptr().cast(), w, p, x);
        let mut b = vec![0u8; n as usize + 1];
        libc::snprintf(b.as_mut_ptr().cast(), b.len(), spec.as_ptr().cast(), w, p, x);
        b.pop();
        b
    }
}

/// The shorter notation: the exponent of the rounded value decides.  (The C
/// library drops digits it must keep when `#` meets a carry.)
fn general(x: f64, conv: char, f: &Fl) -> Vec<u8> {
    let p = f.prec.unwrap_or(6).max(1);
    let plain = |prec: i64| Fl { minus: false, plus: f.plus, space: f.space, sharp: f.sharp, zero: false, width: -1, prec: Some(prec) };
    let sci = String::from_utf8(c_float(x, 'e', &plain(p - 1))).unwrap();
    let (mant, exp) = sci.split_once('e').unwrap();
    let e: i64 = exp.parse().unwrap();
    let strip = |s: &str| if f.sharp || !s.contains('.') { s.to_string() } else { s.trim_end_matches('0').trim_end_matches('.').to_string() };
    let s = if e < -4 || e >= p {
        format!("{}{}{exp}", strip(mant), if conv == 'G' { "E" } else { "e" })
    } else {
        strip(&String::from_utf8(c_float(x, 'f', &plain(p - 1 - e))).unwrap())
    };
    let n = s.len();
    if f.zero && !f.minus && (n as i64) < f.width {
        let at = s.find(|c: char| c.is_ascii_digit()).unwrap();
        return format!("{}{}{}", &s[..at], "0".repeat((f.width - n as i64) as usize), &s[at..]).into_bytes();
    }
    pad(s.into_bytes(), n, f)
}

/// None: the rules leave the rounding open.
fn hex_float(x: f64, conv: char, f: &Fl) -> Option<Vec<u8>> {
    let bits = x.to_bits();
    let (mut exp, mut m) = ((bits >> 52 & 0x7ff) as i64 - 1023, bits & ((1 << 52) - 1));
    if exp == -1023 {
        exp = if m == 0 { 0 } else { -1022 };
        while m != 0 && m >> 52 == 0 {
            m <<= 1;
            exp -= 1;
        }
    } else {
        m |= 1 << 52;
    }
    let (lead, mut frac) = match f.prec {
        Some(p) if p < 13 => {
            let sh = 4 * (13 - p) as u32;
            let (mut q, r, half) = (m >> sh, m & ((1 << sh) - 1), 1u64 << (sh - 1));
            if r > half && r >> (sh - 4) == 8 && q & 1 == 0 {
                return None;
            }
            if r > half || r == half && q & 1 == 1 {
                q += 1;
            }
            let fr = if p == 0 { String::new() } else { format!("{:01$x}", q & ((1 << (4 * p)) - 1), p as usize) };
            (q >> (4 * p), fr)
        }
        p => {
            let mut fr = format!("{:013x}", m & ((1 << 52) - 1));
            match p {
                Some(p) => fr.push_str(&"0".repeat(p as usize - 13)),
                None => fr = fr.trim_end_matches('0').to_string(),
            }
            (m >> 52, fr)
        }
    };
    if !frac.is_empty() || f.sharp {
        frac.insert(0, '.');
    }
    let rest = format!("{lead}{frac}p{exp:+}");
    let sc = sign_of(x.is_sign_negative(), f);
    let zeros = if f.zero && !f.minus { (f.width - (sc.len() + 2 + rest.len()) as i64).max(0) as usize } else { 0 };
    let mut s = format!("{sc}0x{}{rest}", "0".repeat(zeros));
    if conv == 'A' {
        s = s.to_uppercase();
    }
    let n = s.len();
    Some(pad(s.into_bytes(), n, f))
}

fn expect(d: &Dir, a: &Arg) -> Option<Vec<u8>> {
    let f = d.resolve();
    Some(match d.conv {
        's' | 'p' | '{' => {
            let t = if d.conv == 'p' { &a.p } else { &a.s };
            let n = f.prec.map_or(t.len(), |p| t.len().min(p as usize));
            pad(flat(&t[..n]), n, &f)
        }
        'c' => {
            let c = a.chr.clone().unwrap();
            let n = !c.is_empty() as usize;
            pad(c, n, &f)
        }
        'd' | 'i' | 'u' | 'b' | 'B' | 'o' | 'x' | 'X' => int_body(a.int.as_ref().unwrap(), d.conv, &f),
        'f' if a.whole => {
            let v = a.int.as_ref().unwrap();
            let neg = *v < BigInt::from(0i64);
            let mag = if neg { -v } else { v.clone() };
            let mut s = mag.to_str_radix(10);
            let p = f.prec.unwrap_or(6) as usize;
            if p > 0 {
                s = format!("{s}.{}", "0".repeat(p));
            }
            let sc = sign_of(neg, &f);
            let zeros = if f.zero && !f.minus { (f.width - (sc.len() + s.len()) as i64).max(0) as usize } else { 0 };
            let s = format!("{sc}{}{s}", "0".repeat(zeros));
            let n = s.len();
            pad(s.into_bytes(), n, &f)
        }
        c => {
            let x = a.flt;
            if !x.is_finite() {
                let s = format!("{}{}", sign_of(x < 0.0, &f), if x.is_nan() { "NaN" } else { "Inf" });
                let n = s.len();
                pad(s.into_bytes(), n, &f)
            } else if c == 'a' || c == 'A' {
                hex_float(x, c, &f)?
            } else if c == 'g' || c == 'G' {
                general(x, c, &f)
            } else {
                c_float(x, c, &f)
            }
        }
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Utf8,
    /// UTF-8 with bytes somewhere that are not
    Broken,
    Byte(Encoding),
    Multi(Encoding),
}

impl Mode {
    fn enc(self) -> Encoding {
        match self {
            Mode::Utf8 | Mode::Broken => Encoding::Utf8,
            Mode::Byte(e) | Mode::Multi(e) => e,
        }
    }
}

fn gen_char(case: &mut Case, m: Mode) -> Vec<u8> {
    let r = &mut case.rng;
    if r.chance(1, 2) {
        return vec![*r.pick(b"abcxyzABC0189 _-.,:;!")];
    }
    match m {
        Mode::Utf8 | Mode::Broken => r.pick(&['é', 'ß', 'あ', '漢', '𝄞', 'ÿ', '\u{80}', 'Я', '😀', '\u{7ff}', '\u{800}', '\u{ffff}']).to_string().into_bytes(),
        Mode::Byte(Encoding::UsAscii) => vec![b'z'],
        Mode::Byte(_) => vec![0x80 + r.us(128) as u8],
        Mode::Multi(Encoding::EucJp) => match r.us(3) {
            0 => vec![0x8e, 0xa1 + r.us(0x3f) as u8],
            1 => {
                let a = 0xa1 + r.us(0x5e) as u8;
                vec![a, 0xa1 + r.us(0x5e) as u8]
            }
            _ => {
                let a = 0xa1 + r.us(0x5e) as u8;
                vec![0x8f, a, 0xa1 + r.us(0x5e) as u8]
            }
        },
        Mode::Multi(_) => {
            if r.chance(1, 3) {
                vec![0xa1 + r.us(0x3f) as u8]
            } else {
                let a = *r.pick(&[0x81, 0x88, 0x9f, 0xe0, 0xfc]);
                vec![a, *r.pick(&[0x40, 0x5c, 0x7e, 0x80, 0xa1, 0xfc])]
            }
        }
    }
}

fn gen_text(case: &mut Case, m: Mode) -> Text {
    let n = *case.rng.pick(&[0, 1, 1, 2, 3, 5, 8, 13]);
    (0..n).map(|_| gen_char(case, m)).collect()
}

fn quoted(t: &Text) -> Text {
    let mut q = vec![vec![b'"']];
    q.extend(t.iter().cloned());
    q.push(vec![b'"']);
    q
}

fn sval(b: &[u8], e: Encoding) -> Value {
    Value::string_from_inner(RStringInner::from_encoding_scanned(b, e))
}

fn gen_int(case: &mut Case) -> BigInt {
    let r = &mut case.rng;
    let v = match r.us(10) {
        0 => BigInt::from(0i64),
        1 => BigInt::from(r.range(0, 18) as i64 - 9),
        2 | 3 => {
            let k = r.us(64);
            let s = [0i64, -1, 1][r.us(3)];
            BigInt::from_i128((1i128 << k) + s as i128)
        }
        4 | 5 => {
            let k = r.us(64);
            BigInt::from((r.next() >> k) as u64)
        }
        6 => BigInt::from(i64::MIN),
        7 => {
            let k = 1 + r.us(200) as i32;
            let mut b = BigInt::from(1i64) << k;
            if r.chance(1, 2) {
                b = b - BigInt::from(r.next());
            }
            b
        }
        8 => {
            let e = r.us(40) as u32;
            let mut b = BigInt::from(10i64).pow(e);
            if r.chance(1, 2) {
                b = b - 1i64;
            }
            b
        }
        _ => {
            let mut b = BigInt::from(0i64);
            for _ in 0..1 + r.us(5) {
                b = (b << 64i32) + BigInt::from(r.next());
            }
            b
        }
    };
    if case.rng.chance(1, 2) { -v } else { v }
}

fn gen_float(case: &mut Case) -> f64 {
    let r = &mut case.rng;
    let x = match r.us(14) {
        0 => 0.0,
        1 => f64::INFINITY,
        2 => f64::NAN,
        3 => f64::from_bits(r.next()),
        4 => f64::from_bits(r.next() >> (12 + r.us(52))),
        5 | 6 => {
            let n = r.below(2_000_000) as f64;
            n / [1.0, 2.0, 4.0, 8.0, 10.0, 100.0, 1000.0, 64.0][r.us(8)]
        }
        // next to a power of ten
        7 | 8 => {
            let e = r.us(40) as i32 - 20;
            let b = 10f64.powi(e).to_bits();
            f64::from_bits(b + r.below(5) - 2)
        }
        // a run of nines that rounds up at some precision
        9 => {
            let k = 1 + r.us(9) as i32;
            let e = r.us(24) as i32 - 12;
            (10f64.powi(k) - 0.5) * 10f64.powi(e - k)
        }
        10 => {
            let e = r.us(40) as i32 - 20;
            (1.0 + (r.below(16) as f64) / 16.0) * 2f64.powi(e)
        }
        // hexadecimal digits that round up and carry
        11 => {
            let k = r.us(13) as u32;
            let keep = (1u64 << 52) - (1u64 << (4 * k));
            let low = [0u64, 8, 9, 7, 15][r.us(5)] << (4 * k) >> 4;
            f64::from_bits(1023 << 52 | keep | low)
        }
        12 => 10f64.powi(r.us(600) as i32 - 300) * (1 + r.below(999)) as f64,
        _ => (r.below(1 << 40) as f64) * 0.001,
    };
    if case.rng.chance(1, 3) { -x } else { x }
}

fn gen_arg(case: &mut Case, conv: char, m: Mode, broken: &mut bool) -> Arg {
    let none = Arg { v: Value::nil(), s: vec![], p: text("nil"), int: None, flt: 0.0, whole: false, chr: None };
    match conv {
        's' | '{' | 'p' => match case.rng.us(10) {
            0 => none,
            1 => {
                let b = case.rng.chance(1, 2);
                let t = text(if b { "true" } else { "false" });
                Arg { v: Value::bool(b), s: t.clone(), p: t, ..none }
            }
            2 => {
                let i = gen_int(case);
                let t = text(&i.to_str_radix(10));
                Arg { v: Value::bigint(i), s: t.clone(), p: t, ..none }
            }
            3 => {
                // names have to be text the symbol table can hold
                let mm = if m == Mode::Utf8 || m == Mode::Broken { m } else { Mode::Byte(Encoding::UsAscii) };
                let t = gen_text(case, mm);
                let v = Value::symbol_from_str(&String::from_utf8(flat(&t)).unwrap());
                let mut p = vec![vec![b':']];
                p.extend(t.iter().cloned());
                Arg { v, s: t, p, ..none }
            }
            4 => {
                let (a, b) = (gen_text(case, m), gen_text(case, if m == Mode::Broken { m } else if m == Mode::Utf8 { m } else { Mode::Byte(Encoding::UsAscii) }));
                let v = heap::alloc(ObjKind::Custom { to_s: Some(sval(&flat(&a), m.enc())), inspect: Some(sval(&flat(&b), Encoding::Utf8)), int: None, str: None });
                Arg { v, s: a, p: b, ..none }
            }
            5 if m == Mode::Broken && conv != 'p' => {
                // bytes that are not characters; only ever shown whole
                *broken = true;
                let mut b = flat(&gen_text(case, m));
                b.push(*case.rng.pick(&[0x80u8, 0xff, 0xc3, 0xe3, 0xfe]));
                Arg { v: sval(&b, Encoding::Utf8), s: vec![b], ..none }
            }
            _ => {
                let e = if case.rng.chance(1, 6) { Encoding::Utf8 } else { m.enc() };
                let t = if e == m.enc() && conv != 'p' { gen_text(case, m) } else { gen_text(case, Mode::Byte(Encoding::UsAscii)) };
                let p = quoted(&t);
                Arg { v: sval(&flat(&t), e), s: t, p, ..none }
            }
        },
        'c' => {
            if case.rng.chance(1, 2) {
                let t = gen_text(case, m);
                let chr = t.first().cloned().unwrap_or_default();
                Arg { v: sval(&flat(&t), m.enc()), s: t, chr: Some(chr), ..none }
            } else {
                let mut c = gen_char(case, m);
                if matches!(m, Mode::Multi(Encoding::Sjis(_))) && case.rng.chance(1, 8) {
                    // single bytes that are no character and open none
                    c = vec![*case.rng.pick(&[0x80, 0xa0, 0xfd, 0xfe, 0xff])];
                }
                let code = match m {
                    Mode::Utf8 | Mode::Broken => std::str::from_utf8(&c).unwrap().chars().next().unwrap() as i64,
                    _ => c.iter().fold(0i64, |a, b| a << 8 | *b as i64),
                };
                Arg { v: Value::integer(code), chr: Some(c), ..none }
            }
        }
        'd' | 'i' | 'u' | 'b' | 'B' | 'o' | 'x' | 'X' => {
            let i = gen_int(case);
            let mut v = Value::bigint(i.clone());
            if case.rng.chance(1, 12) {
                v = heap::alloc(ObjKind::Custom { to_s: None, inspect: None, int: Some(v), str: None });
            }
            Arg { v, int: Some(i), ..none }
        }
        _ => {
            if case.rng.chance(1, 5) {
                let i = gen_int(case);
                let v = Value::bigint(i.clone());
                let flt = v.coerce_to_float(&mut Executor::default(), &mut Globals::default()).unwrap();
                Arg { v, int: Some(i), flt, whole: true, ..none }
            } else {
                let x = gen_float(case);
                Arg { v: Value::float(x), flt: x, ..none }
            }
        }
    }
}

const CONVS: &[char] = &['s', 's', 'p', 'c', 'd', 'd', 'i', 'u', 'b', 'B', 'o', 'x', 'X', 'f', 'f', 'e', 'E', 'g', 'g', 'G', 'a', 'A'];

fn gen_dir(case: &mut Case, conv: char, star: bool) -> Dir {
    let r = &mut case.rng;
    let mut flags = String::new();
    while r.chance(2, 5) {
        flags.push(*r.pick(&['-', '+', ' ', '#', '0', '0']));
    }
    let big = r.chance(1, 60);
    let width = match r.us(6) {
        0 | 1 => Num::No,
        2 if star => Num::Star(r.range(0, 40) as i64 - 20),
        3 if big => Num::Lit(*r.pick(&[255, 256, 1000, 65535, 65536, 70000])),
        _ => Num::Lit(1 + r.us(30)),
    };
    let prec = match r.us(8) {
        0..=3 => Num::No,
        4 => Num::Dot,
        5 if star => Num::Star(r.range(0, 24) as i64 - 6),
        6 if big => Num::Lit(*r.pick(&[300, 1100, 65536])),
        _ => Num::Lit(r.us(20)),
    };
    Dir { flags, width, prec, conv }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ref {
    Seq,
    Pos,
    Name,
}

const FAULTS: usize = 16;
const FAULT_NAMES: [&str; FAULTS] = [
    "fault_missing", "fault_directive", "fault_cut_short", "fault_unclosed", "fault_mixed", "fault_too_wide", "fault_no_hash", "fault_star_range",
    "fault_type", "fault_char", "fault_no_method", "fault_twice", "fault_encoding", "fault_late_flag", "fault_number", "fault_percent",
];

pub fn check(case: &mut Case) -> Verdict {
    heap::reset();
    let mode = match case.rng.us(10) {
        0..=4 => Mode::Utf8,
        5 => Mode::Broken,
        6 | 7 => {
            let e = *case.rng.pick(&[Encoding::Ascii8, Encoding::Iso8859(1), Encoding::Iso8859(15), Encoding::NamedByte(3), Encoding::UsAscii]);
            Mode::Byte(e)
        }
        8 => Mode::Multi(Encoding::EucJp),
        _ => {
            let k = case.rng.us(2) as u8;
            Mode::Multi(Encoding::Sjis(k))
        }
    };
    let refs = *case.rng.pick(&[Ref::Seq, Ref::Seq, Ref::Seq, Ref::Pos, Ref::Name]);
    let ndir = 1 + case.rng.us(4);
    let fault = case.rng.chance(1, 6).then(|| case.rng.us(FAULTS));
    let fault_at = case.rng.us(ndir + 1);

    let mut fmt: Vec<u8> = Vec::new();
    let mut want: Vec<u8> = Vec::new();
    let mut args: Vec<Value> = Vec::new();
    // argument slots for numbered references are filled as they come and
    // referred to in any order
    let mut slots: Vec<Value> = Vec::new();
    let mut table: Vec<(Value, Value)> = Vec::new();
    let mut default = Value::nil();
    let mut broken = false;
    let mut open = false;
    let mut err: Option<&[Kind]> = None;
    let mut dirs: Vec<Dir> = Vec::new();
    let lit = |case: &mut Case, fmt: &mut Vec<u8>, want: &mut Vec<u8>, broken: &mut bool| {
        if case.rng.chance(1, 2) {
            let b = flat(&gen_text(case, mode));
            fmt.extend(&b);
            want.extend(&b);
        }
        if mode == Mode::Broken && case.rng.chance(1, 3) {
            // a lone continuation byte before an ASCII character
            fmt.extend(b"\x80.");
            want.extend(b"\x80.");
            *broken = true;
        }
        if case.rng.chance(1, 6) {
            fmt.extend(b"%%");
            want.extend(b"%");
        }
    };
    if mode == Mode::Broken && case.rng.chance(1, 2) {
        fmt.extend(b"\xff.");
        want.extend(b"\xff.");
        broken = true;
    }
    for k in 0..=ndir {
        lit(case, &mut fmt, &mut want, &mut broken);
        if fault.is_some() && k == fault_at && err.is_none() {
            err = inject(case, fault.unwrap(), mode, refs, k == 0, default.is_nil(), &mut fmt, &mut args, &mut slots, &mut table);
            if err.is_some() {
                case.count(FAULT_NAMES[fault.unwrap()]);
                break;
            }
        }
        if k == ndir {
            break;
        }
        let conv = if refs == Ref::Name && case.rng.chance(1, 3) { '{' } else { *case.rng.pick(CONVS) };
        let mut d = gen_dir(case, conv, refs != Ref::Name);
        let mut br = false;
        let a = gen_arg(case, conv, mode, &mut br);
        if br {
            broken = true;
            d.width = Num::No;
            d.prec = Num::No;
        }
        // render the reference in one of the places it may stand
        let flags: Vec<char> = d.flags.chars().collect();
        let mut wid = match d.width {
            Num::Lit(n) => n.to_string(),
            _ => String::new(),
        };
        let mut prec = match d.prec {
            Num::No => String::new(),
            Num::Dot => ".".into(),
            Num::Lit(n) => format!(".{n}"),
            Num::Star(_) => String::new(),
        };
        let mut slot = |case: &mut Case, v: Value| -> usize {
            if !slots.is_empty() && case.rng.chance(1, 4) {
                if let Some(i) = slots.iter().position(|x| *x == v) {
                    return i + 1;
                }
            }
            slots.push(v);
            slots.len()
        };
        match refs {
            Ref::Seq => {
                if let Num::Star(n) = d.width {
                    args.push(Value::integer(n));
                    wid = "*".into();
                }
                if let Num::Star(n) = d.prec {
                    args.push(Value::integer(n));
                    prec = ".*".into();
                }
                args.push(a.v);
                fmt.extend(format!("%{}{wid}{prec}{conv}", d.flags).bytes());
            }
            Ref::Pos => {
                if let Num::Star(n) = d.width {
                    wid = format!("*{}$", slot(case, Value::integer(n)));
                }
                if let Num::Star(n) = d.prec {
                    prec = format!(".*{}$", slot(case, Value::integer(n)));
                }
                let me = format!("{}$", slot(case, a.v));
                let late = matches!(d.prec, Num::Star(_)) || matches!(d.width, Num::Star(_)) && prec.is_empty();
                let s = match case.rng.us(3) {
                    0 => format!("%{me}{}{wid}{prec}{conv}", d.flags),
                    1 if late => format!("%{}{wid}{prec}{me}{conv}", d.flags),
                    _ => format!("%{}{me}{wid}{prec}{conv}", d.flags),
                };
                fmt.extend(s.bytes());
            }
            Ref::Name => {
                let nm = if mode == Mode::Utf8 { Mode::Utf8 } else { Mode::Byte(Encoding::UsAscii) };
                let mut name = String::from_utf8(flat(&gen_text(case, nm))).unwrap();
                name.push_str(&format!("#{}", dirs.len()));
                if default.is_nil() && !a.v.is_nil() && !br && case.rng.chance(1, 6) {
                    default = a.v;
                } else {
                    table.push((Value::symbol_from_str(&name), a.v));
                }
                if conv == '{' {
                    fmt.extend(format!("%{}{wid}{prec}{{{name}}}", d.flags).bytes());
                } else {
                    let me = format!("<{name}>");
                    let cut = case.rng.us(flags.len() + 1);
                    let (f1, f2): (String, String) = (flags[..cut].iter().collect(), flags[cut..].iter().collect());
                    let s = match case.rng.us(3) {
                        0 => format!("%{f1}{me}{f2}{wid}{prec}{conv}"),
                        1 => format!("%{}{wid}{me}{prec}{conv}", d.flags),
                        _ => format!("%{}{wid}{prec}{me}{conv}", d.flags),
                    };
                    fmt.extend(s.bytes());
                }
            }
        }
        match expect(&d, &a) {
            Some(b) => want.extend(b),
            None => open = true,
        }
        case.sig(conv as u64 * 64 + d.flags.len() as u64 * 8 + (d.width != Num::No) as u64 * 2 + (d.prec != Num::No) as u64);
        dirs.push(d);
        case.count(match conv {
            's' | '{' | 'p' => "text_directives",
            'c' => "char_directives",
            'd' | 'i' | 'u' => "decimal_directives",
            'b' | 'B' | 'o' | 'x' | 'X' => "radix_directives",
            _ => "float_directives",
        });
    }
    let mut extra = false;
    match refs {
        Ref::Seq => {
            if err.is_none() && case.rng.chance(1, 8) {
                args.push(Value::integer(7));
                extra = true;
            }
        }
        Ref::Pos => args = slots,
        Ref::Name => {
            if !(fault == Some(6) && err.is_some()) {
                let mut t = table;
                case.rng.shuffle(&mut t);
                args.push(Value::hash_from(t, default));
            }
        }
    }
    let before: Vec<String> = args.iter().map(|v| format!("{v:?}")).collect();
    // the encoding may also come from the text put in
    let mut fenc = mode.enc();
    let tells = |v: &Value| v.is_rstring_inner().is_some_and(|s| s.encoding() == mode.enc() && !s.as_bytes().is_ascii());
    if err.is_none() && refs != Ref::Name && fmt.is_ascii() && args.iter().any(tells) && !dirs.iter().any(|d| d.conv == 'c') && case.rng.chance(1, 2) {
        fenc = *case.rng.pick(&[Encoding::Utf8, Encoding::UsAscii, Encoding::Ascii8, Encoding::Iso8859(1), Encoding::EucJp]);
        case.count("encodings_from_arguments");
    }
    let f = RStringInner::from_encoding_scanned(&fmt, fenc);
    let mut g = Globals::default();
    g.verbose = case.rng.chance(1, 2);
    let mut vm = Executor::default();
    case.op(|| format!("{mode:?} {} % {args:?}", show(&fmt)));
    case.sig_bytes(&fmt);
    let got = negotiate_format(&g.store, &f, &args).and_then(|ctx| {
        let view = ctx.view_owned(&f)?;
        let s = vm.format_by_args(&mut g, &view, &args, ctx)?;
        Ok(ctx.finish(&s))
    });
    let what = || format!("{mode:?} {fenc:?} {} % {args:?}", show(&fmt));
    let after: Vec<String> = args.iter().map(|v| format!("{v:?}")).collect();
    veq!(after, before, "{}: arguments changed", what());
    match (got, err) {
        (Ok(v), Some(k)) => vbail!("{}: gives {v:?} where {k:?} is due", what()),
        (Err(e), Some(k)) => {
            vcheck!(k.contains(&e.kind), "{}: raises {:?} ({}) where {k:?} is due", what(), e.kind, e.msg);
            case.count("errors_demanded");
        }
        (Err(e), None) => vbail!("{}: raises {:?} ({})", what(), e.kind, e.msg),
        (Ok(v), None) => {
            if open {
                case.count("open");
                return Ok(());
            }
            let s = v.as_rstring_inner();
            if s.as_bytes() != &want[..] {
                let at = s.as_bytes().iter().zip(&want).position(|(a, b)| a != b).unwrap_or(s.as_bytes().len().min(want.len()));
                vbail!("{}: gives {} ({} bytes), expected {} ({} bytes), first difference at {at}", what(), show(s.as_bytes()), s.as_bytes().len(), show(&want), want.len());
            }
            if mode.enc() != Encoding::UsAscii || want.is_ascii() {
                veq!(s.encoding(), mode.enc(), "{}: encoding", what());
            }
            veq!(s.is_valid_encoding(), RStringInner::from_encoding_scanned(&want, s.encoding()).is_valid_encoding(), "{}: validity", what());
            let warn = (g.verbose && extra) as usize;
            veq!(vm.warnings, warn, "{}: warnings about unused arguments", what());
            case.count_n("directives_compared", dirs.len() as u64);
            if broken {
                case.count("with_broken_text");
            }
            if !want.is_ascii() {
                case.count("non_ascii_results");
            }
            if extra {
                case.count("unused_arguments");
            }
            match refs {
                Ref::Seq => case.count("by_order"),
                Ref::Pos => case.count("by_number"),
                Ref::Name => case.count("by_name"),
            }
            case.nontrivial();
        }
    }
    Ok(())
}

/// One thing wrong with an otherwise good format.
#[allow(clippy::too_many_arguments)]
fn inject(case: &mut Case, fault: usize, mode: Mode, refs: Ref, first: bool, no_default: bool, fmt: &mut Vec<u8>, args: &mut Vec<Value>, slots: &mut Vec<Value>, table: &mut Vec<(Value, Value)>) -> Option<&'static [Kind]> {
    const ARG: &[Kind] = &[Kind::Argument];
    const NUM: &[Kind] = &[Kind::Argument, Kind::Range];
    let seq = refs == Ref::Seq;
    let mut put = |s: &str| fmt.extend(s.bytes());
    match fault {
        0 => {
            // nothing left to show
            let n = slots.len() + 1;
            match refs {
                Ref::Seq => put("%d"),
                Ref::Pos => put(&format!("%{n}$d")),
                Ref::Name => {
                    if !no_default {
                        return None;
                    }
                    let s = *case.rng.pick(&["%<not there>d", "%{not there}"]);
                    put(s);
                    return Some(&[Kind::Key]);
                }
            }
            Some(ARG)
        }
        1 => {
            // an unknown directive
            let c = *case.rng.pick(&['v', 'y', 'Z', 'q', 'k', 'h', 'l', 'D', 'F', '!', ']']);
            let f = *case.rng.pick(&["", "-", "05", ".3", "5.1"]);
            if !seq {
                return None;
            }
            args.push(Value::integer(1));
            put(&format!("%{f}{c}"));
            Some(ARG)
        }
        2 => {
            let s = *case.rng.pick(&["%", "%5", "%-", "%.", "%.3", "%08", "%+"]);
            if !seq {
                return None;
            }
            put(s);
            args.push(Value::integer(1));
            Some(ARG)
        }
        3 => {
            if refs != Ref::Name {
                return None;
            }
            let s = *case.rng.pick(&["%<abc", "%{abc", "%-5<a", "%.3{a"]);
            put(s);
            Some(ARG)
        }
        4 => {
            // two ways of referring in one format
            if first {
                return None;
            }
            match refs {
                Ref::Seq => {
                    args.push(Value::integer(1));
                    let s = *case.rng.pick(&["%1$s", "%-1$5s", "%*1$s"]);
                    put(s)
                }
                Ref::Pos => {
                    slots.push(Value::integer(1));
                    let n = slots.len();
                    let s = *case.rng.pick(&["%s", "%*N$s", "%1$*d"]);
                    put(&s.replace('N', &n.to_string()))
                }
                Ref::Name => {
                    let s = *case.rng.pick(&["%s", "%5d", "%1$s"]);
                    put(s)
                }
            }
            Some(ARG)
        }
        5 => {
            // more than a width or precision can be
            if !seq {
                return None;
            }
            args.push(Value::integer(1));
            let n = *case.rng.pick(&["2147483648", "9223372036854775807", "18446744073709551616", "99999999999999999999999"]);
            let d = case.rng.chance(1, 2);
            put(&if d { format!("%.{n}d") } else { format!("%{n}d") });
            Some(ARG)
        }
        6 => {
            if refs != Ref::Name {
                return None;
            }
            put("%<x>d");
            args.push(Value::integer(1));
            Some(ARG)
        }
        7 => {
            if !seq {
                return None;
            }
            let n = *case.rng.pick(&[1i128 << 31, 1 << 40, i64::MAX as i128, i64::MIN as i128, 1 << 70, -(1 << 40), -(1 << 64)]);
            args.push(Value::bigint(BigInt::from_i128(n)));
            args.push(Value::integer(1));
            // a precision below zero is no precision
            let s = if n > 0 && case.rng.chance(1, 2) { "%.*d" } else { "%*d" };
            put(s);
            Some(NUM)
        }
        8 => {
            if !seq {
                return None;
            }
            args.push(Value::nil());
            args.push(Value::integer(1));
            let s = *case.rng.pick(&["%*d", "%.*d", "%*s", "%d", "%x", "%f", "%g", "%a", "%c", "%b"]);
            put(s);
            Some(&[Kind::Type])
        }
        9 => {
            if !seq {
                return None;
            }
            let n = match mode {
                Mode::Utf8 | Mode::Broken => *case.rng.pick(&[-1i64, 0x110000, 1 << 31, 1 << 33, -(1 << 40)]),
                Mode::Byte(_) => *case.rng.pick(&[-1i64, 256, 0x110000, 1 << 40]),
                Mode::Multi(Encoding::EucJp) => *case.rng.pick(&[-1i64, 1 << 33, 0x80, 0xa4, 0xff, 0xa47f, 0x41a4, 0x8fa421, 0x1a4a4a4]),
                Mode::Multi(_) => *case.rng.pick(&[-1i64, 1 << 33, 0x81, 0x9f, 0xe0, 0xfc, 0x823f, 0x827f, 0x82fd, 0x18240]),
            };
            args.push(Value::integer(n));
            put("%c");
            Some(NUM)
        }
        10 => {
            if !seq {
                return None;
            }
            args.push(heap::alloc(ObjKind::Custom { to_s: None, inspect: None, int: None, str: None }));
            put("%s");
            Some(&[Kind::NoMethod])
        }
        11 => {
            if refs != Ref::Name {
                return None;
            }
            table.push((Value::symbol_from_str("twice"), Value::integer(1)));
            let s = *case.rng.pick(&["%<twice><twice>d", "%<twice>5<twice>d", "%-<twice>.3<twice>d", "%<twice>{twice}", "%+<twice>-<twice>d"]);
            put(s);
            Some(ARG)
        }
        12 => {
            // text that cannot be put together
            if !seq || mode == Mode::Broken || mode == Mode::Byte(Encoding::UsAscii) {
                return None;
            }
            let mine: &[u8] = match mode {
                Mode::Utf8 => "é".as_bytes(),
                Mode::Multi(Encoding::EucJp) => b"\xa4\xa2",
                Mode::Multi(_) => b"\x82\xa0",
                _ => b"\xe9",
            };
            if case.rng.chance(1, 2) {
                fmt.extend(mine);
            } else {
                fmt.extend(b"%s");
                args.push(sval(mine, mode.enc()));
            }
            fmt.extend(b"%s");
            args.push(if mode == Mode::Utf8 { sval(b"\xa4\xa2", Encoding::EucJp) } else { sval("é".as_bytes(), Encoding::Utf8) });
            Some(&[Kind::Compat])
        }
        13 => {
            // a flag where none may stand
            if !seq {
                return None;
            }
            args.push(Value::integer(1));
            let s = *case.rng.pick(&["%5-d", "%.3 d", "%5.3+d", "%12#x"]);
            put(s);
            Some(ARG)
        }
        14 => {
            if refs != Ref::Pos {
                return None;
            }
            let n = *case.rng.pick(&["18446744073709551617", "99999999999999999999999999", "4294967297", "9223372036854775808"]);
            slots.push(Value::integer(1));
            let s = format!("%{}{n}${}", *case.rng.pick(&["", "-", "05"]), "d");
            // digits after a zero flag still are a width to be
            put(&s.replace("05", "0"));
            Some(ARG)
        }
        _ => {
            let s = *case.rng.pick(&["%5%", "%-%", "%05.2%"]);
            if !seq {
                return None;
            }
            args.push(Value::integer(1));
            put(s);
            Some(ARG)
        }
    }
}

/// A format no directive can be read from.
fn check_wide(case: &mut Case) -> Verdict {
    heap::reset();
    let e = *case.rng.pick(&[Encoding::Utf16Le, Encoding::Utf16Be, Encoding::Utf32Le, Encoding::Utf32Be]);
    let f = RStringInner::from_encoding_scanned(b"\0%\0d", e);
    let st = Store::default();
    case.op(|| format!("format in {e:?}"));
    match negotiate_format(&st, &f, &[Value::integer(1)]) {
        Ok(_) => vbail!("a format in {e:?} is accepted"),
        Err(x) => veq!(x.kind, Kind::Compat, "a format in {e:?}"),
    }
    case.count("wide_formats");
    case.nontrivial();
    Ok(())
}

fn main() {
    vh::main_loop("c32", |case| {
        if case.rng.chance(1, 200) {
            return check_wide(case);
        }
        for _ in 0..8 {
            vh::step();
            check(case)?;
        }
        Ok(())
    })
}
