//! C33: JSON texts read and written against a reading of the grammar.
#![allow(dead_code, clippy::all)]
use vh::{vbail, vcheck, veq, Case, Verdict, Violation};

#[path = "../mini.rs"]
mod value;
use value::*;

#[path = "/repo/monoruby/src/builtins/json.rs"]
mod json;

#[derive(Clone, Debug)]
enum J {
    Null,
    Bool(bool),
    Int(BigInt),
    Flt(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl PartialEq for J {
    fn eq(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Int(a), J::Int(b)) => a == b,
            (J::Flt(a), J::Flt(b)) => a.to_bits() == b.to_bits(),
            (J::Str(a), J::Str(b)) => a == b,
            (J::Arr(a), J::Arr(b)) => a == b,
            (J::Obj(a), J::Obj(b)) => a == b,
            _ => false,
        }
    }
}

/// Why a text has no value: it is not JSON, or the rules leave it open.
#[derive(Clone, Copy, Debug, PartialEq)]
enum No {
    Bad,
    Open,
}

type Rs<T> = std::result::Result<T, No>;

struct Rd<'a> {
    c: &'a [char],
    i: usize,
}

impl Rd<'_> {
    fn at(&self) -> char {
        self.c.get(self.i).copied().unwrap_or('\0')
    }
    fn end(&self) -> bool {
        self.i >= self.c.len()
    }
    fn ws(&mut self) {
        while !self.end() && matches!(self.at(), ' ' | '\t' | '\n' | '\r') {
            self.i += 1;
        }
    }
    fn word(&mut self, w: &str, j: J) -> Rs<J> {
        for c in w.chars() {
            if self.end() || self.at() != c {
                return Err(No::Bad);
            }
            self.i += 1;
        }
        Ok(j)
    }
    fn digits(&mut self) -> Rs<()> {
        let s = self.i;
        while self.at().is_ascii_digit() {
            self.i += 1;
        }
        if s == self.i { Err(No::Bad) } else { Ok(()) }
    }
    fn number(&mut self) -> Rs<J> {
        let s = self.i;
        if self.at() == '-' {
            self.i += 1;
        }
        let lead = self.i;
        self.digits()?;
        if self.c[lead] == '0' && self.i > lead + 1 {
            return Err(No::Bad);
        }
        let mut whole = true;
        if self.at() == '.' {
            whole = false;
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.at(), 'e' | 'E') {
            whole = false;
            self.i += 1;
            if matches!(self.at(), '+' | '-') {
                self.i += 1;
            }
            self.digits()?;
        }
        let t: String = self.c[s..self.i].iter().collect();
        Ok(if whole {
            J::Int(BigInt::parse_bytes(t.as_bytes(), 10).unwrap())
        } else {
            let z = std::ffi::CString::new(t).unwrap();
            J::Flt(unsafe { libc::strtod(z.as_ptr(), std::ptr::null_mut()) })
        })
    }
    fn hex4(&mut self) -> Rs<u32> {
        let mut v = 0;
        for _ in 0..4 {
            v = v * 16 + self.at().to_digit(16).filter(|_| !self.end()).ok_or(No::Bad)?;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Rs<String> {
        self.i += 1;
        let mut s = String::new();
        loop {
            if self.end() {
                return Err(No::Bad);
            }
            let c = self.at();
            self.i += 1;
            match c {
                '"' => return Ok(s),
                '\\' => {
                    if self.end() {
                        return Err(No::Bad);
                    }
                    let e = self.at();
                    self.i += 1;
                    s.push(match e {
                        '"' | '\\' | '/' => e,
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let a = self.hex4()?;
                            match a {
                                0xD800..=0xDBFF => {
                                    if self.at() != '\\' || self.c.get(self.i + 1) != Some(&'u') {
                                        return Err(No::Open);
                                    }
                                    self.i += 2;
                                    let b = self.hex4()?;
                                    if !(0xDC00..=0xDFFF).contains(&b) {
                                        return Err(No::Open);
                                    }
                                    char::from_u32(0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00)).unwrap()
                                }
                                0xDC00..=0xDFFF => return Err(No::Open),
                                _ => char::from_u32(a).unwrap(),
                            }
                        }
                        _ => return Err(No::Open),
                    });
                }
                c if c < ' ' => return Err(No::Bad),
                c => s.push(c),
            }
        }
    }
    fn value(&mut self) -> Rs<J> {
        self.ws();
        if self.end() {
            return Err(No::Bad);
        }
        match self.at() {
            '"' => self.string().map(J::Str),
            't' => self.word("true", J::Bool(true)),
            'f' => self.word("false", J::Bool(false)),
            'n' => self.word("null", J::Null),
            '[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.at() == ']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    self.i += 1;
                    match self.c.get(self.i - 1) {
                        Some(',') => {}
                        Some(']') => return Ok(J::Arr(v)),
                        _ => return Err(if self.c.get(self.i - 1) == Some(&'/') { No::Open } else { No::Bad }),
                    }
                }
            }
            '{' => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.at() == '}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.at() != '"' {
                        return Err(if self.at() == '/' { No::Open } else { No::Bad });
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.at() != ':' {
                        return Err(if self.at() == '/' { No::Open } else { No::Bad });
                    }
                    self.i += 1;
                    let x = self.value()?;
                    match v.iter_mut().find(|e| e.0 == k) {
                        Some(e) => e.1 = x,
                        None => v.push((k, x)),
                    }
                    self.ws();
                    self.i += 1;
                    match self.c.get(self.i - 1) {
                        Some(',') => {}
                        Some('}') => return Ok(J::Obj(v)),
                        _ => return Err(if self.c.get(self.i - 1) == Some(&'/') { No::Open } else { No::Bad }),
                    }
                }
            }
            '/' => Err(No::Open),
            c if c == '-' || c.is_ascii_digit() => self.number(),
            _ => Err(No::Bad),
        }
    }
}

fn read(c: &[char]) -> Rs<J> {
    let mut r = Rd { c, i: 0 };
    let j = r.value()?;
    r.ws();
    match r.end() {
        true => Ok(j),
        false if r.at() == '/' => Err(No::Open),
        false => Err(No::Bad),
    }
}

fn to_j(v: Value) -> J {
    match v.unpack() {
        RV::Nil => J::Null,
        RV::Bool(b) => J::Bool(b),
        RV::Fixnum(_) | RV::BigInt(_) => J::Int(v.as_big().unwrap()),
        RV::Float(f) => J::Flt(f),
        RV::String(s) => J::Str(String::from_utf8(s.as_bytes().to_vec()).expect("text that is not UTF-8")),
        _ => match v.try_array() {
            Some(a) => J::Arr(a.iter().map(|v| to_j(*v)).collect()),
            None => J::Obj(
                v.try_hash_ty()
                    .expect("a value JSON has none of")
                    .iter()
                    .map(|(k, v)| match to_j(k) {
                        J::Str(s) => (s, to_j(v)),
                        k => panic!("a key {k:?}"),
                    })
                    .collect(),
            ),
        },
    }
}

fn text(case: &mut Case) -> String {
    let n = *case.rng.pick(&[0, 1, 1, 2, 3, 5, 9, 20]);
    let r = &mut case.rng;
    (0..n)
        .map(|_| match r.us(10) {
            0 => *r.pick(&['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}']),
            1 => char::from(r.us(0x20) as u8),
            2 => *r.pick(&['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{2028}', '\u{feff}']),
            3 => *r.pick(&['😀', '𝄞', '\u{10000}', '\u{10ffff}']),
            4 => *r.pick(&['é', 'あ', '漢', 'Я']),
            5 => *r.pick(&['{', '}', '[', ']', ':', ',', 'u', '0']),
            _ => char::from(0x20 + r.us(0x5f) as u8),
        })
        .collect()
}

fn int(case: &mut Case) -> BigInt {
    let r = &mut case.rng;
    let v = match r.us(6) {
        0 => BigInt::from(r.below(10)),
        1 => BigInt::from_i128((1i128 << r.us(100)) - r.us(2) as i128),
        2 => BigInt::from(10i64).pow(r.us(30) as u32) - r.us(2) as i64,
        3 => BigInt::from(i64::MAX) + r.us(3) as i64,
        4 => (BigInt::from(r.next()) << 64i32) + BigInt::from(r.next()),
        _ => {
            let k = r.us(64);
            BigInt::from(r.next() >> k)
        }
    };
    if r.chance(1, 2) { -v } else { v }
}

fn float(case: &mut Case) -> f64 {
    let r = &mut case.rng;
    loop {
        let f = match r.us(5) {
            0 => f64::from_bits(r.next()),
            1 => 0.0,
            2 => r.below(100_000) as f64 / 100.0,
            3 => f64::from_bits(r.next() >> 12),
            _ => 10f64.powi(r.us(40) as i32 - 20),
        };
        if f.is_finite() {
            return if r.chance(1, 3) { -f } else { f };
        }
    }
}

fn gen_j(case: &mut Case, depth: usize) -> J {
    let k = case.rng.us(if depth == 0 { 6 } else { 10 });
    match k {
        0 => J::Null,
        1 => {
            let b = case.rng.chance(1, 2);
            J::Bool(b)
        }
        2 => J::Int(int(case)),
        3 => J::Flt(float(case)),
        4 | 5 => J::Str(text(case)),
        6 | 7 => {
            let n = case.rng.us(5);
            J::Arr((0..n).map(|_| gen_j(case, depth - 1)).collect())
        }
        _ => {
            let n = case.rng.us(5);
            let mut v: Vec<(String, J)> = vec![];
            for _ in 0..n {
                let k = text(case);
                let x = gen_j(case, depth - 1);
                if !v.iter().any(|e| e.0 == k) {
                    v.push((k, x));
                }
            }
            J::Obj(v)
        }
    }
}

fn ws(case: &mut Case, out: &mut String) {
    while case.rng.chance(1, 6) {
        out.push(*case.rng.pick(&[' ', '\t', '\n', '\r']));
    }
}

fn write_str(case: &mut Case, s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '/' => Some("\\/"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            _ => None,
        };
        let must = c < ' ' || c == '"' || c == '\\';
        let how = case.rng.us(6);
        match short {
            Some(e) if (must || how < 2) && how != 5 => out.push_str(e),
            _ if must || how == 0 => {
                let up = case.rng.chance(1, 2);
                for u in c.encode_utf16(&mut [0; 2]) {
                    out.push_str(&if up { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") });
                }
            }
            _ => out.push(c),
        }
    }
    out.push('"');
}

fn write(case: &mut Case, j: &J, out: &mut String) {
    ws(case, out);
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Int(i) => out.push_str(&i.to_str_radix(10)),
        J::Flt(f) => {
            let s = match case.rng.us(4) {
                0 => format!("{f:?}"),
                1 => format!("{f:e}").replace("e", if case.rng.chance(1, 2) { "E" } else { "e" }),
                2 => format!("{f:.20e}"),
                _ => {
                    let s = format!("{f:e}");
                    if s.contains("e-") { s } else { s.replace("e", "e+0") }
                }
            };
            out.push_str(&s);
        }
        J::Str(s) => write_str(case, s, out),
        J::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(case, x, out);
            }
            if a.is_empty() {
                ws(case, out);
            }
            out.push(']');
        }
        J::Obj(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                if case.rng.chance(1, 12) {
                    // said twice: the later one counts
                    ws(case, out);
                    write_str(case, k, out);
                    out.push_str(":1,");
                }
                ws(case, out);
                write_str(case, k, out);
                ws(case, out);
                out.push(':');
                write(case, x, out);
            }
            if o.is_empty() {
                ws(case, out);
            }
            out.push('}');
        }
    }
    ws(case, out);
}

/// The text the generator is to give; None where a number could be spelled
/// in more than one way.
fn plain(j: &J, out: &mut String) -> bool {
    fn string(s: &str, out: &mut String) {
        out.push('"');
        for c in s.chars() {
            match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '\u{8}' => out.push_str("\\b"),
                '\u{c}' => out.push_str("\\f"),
                '\n' => out.push_str("\\n"),
                '\r' => out.push_str("\\r"),
                '\t' => out.push_str("\\t"),
                c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
                c => out.push(c),
            }
        }
        out.push('"');
    }
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(&b.to_string()),
        J::Int(i) => out.push_str(&i.to_str_radix(10)),
        J::Flt(_) => return false,
        J::Str(s) => string(s, out),
        J::Arr(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                if !plain(x, out) {
                    return false;
                }
            }
            out.push(']');
        }
        J::Obj(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                string(k, out);
                out.push(':');
                if !plain(x, out) {
                    return false;
                }
            }
            out.push('}');
        }
    }
    true
}

/// The value to be written, and what it is to read back as.
fn to_value(case: &mut Case, j: &J) -> (Value, J) {
    match j {
        J::Null => (Value::nil(), J::Null),
        J::Bool(b) => (Value::bool(*b), j.clone()),
        J::Int(i) => (Value::bigint(i.clone()), j.clone()),
        J::Flt(f) => (Value::float(*f), j.clone()),
        J::Str(s) => (if case.rng.chance(1, 6) { Value::symbol_from_str(s) } else { Value::string_from_str(s) }, j.clone()),
        J::Arr(a) => {
            let (v, j) = a.iter().map(|x| to_value(case, x)).unzip();
            (Value::array_from_vec(v), J::Arr(j))
        }
        J::Obj(o) => {
            let (mut v, mut e): (Vec<(Value, Value)>, Vec<(String, J)>) = (vec![], vec![]);
            for (k, x) in o {
                let (x, jx) = to_value(case, x);
                let (kv, ks) = match case.rng.us(8) {
                    0 => (Value::symbol_from_str(k), k.clone()),
                    1 => {
                        let i = int(case);
                        let s = i.to_str_radix(10);
                        (Value::bigint(i), s)
                    }
                    2 => (Value::nil(), String::new()),
                    _ => (Value::string_from_str(k), k.clone()),
                };
                if !e.iter().any(|e| e.0 == ks) {
                    v.push((kv, x));
                    e.push((ks, jx));
                }
            }
            (Value::hash_from(v, Value::nil()), J::Obj(e))
        }
    }
}

struct W {
    g: Globals,
    vm: Executor,
    parse: BuiltinFn,
    generate: BuiltinFn,
}

impl W {
    fn new() -> W {
        let mut g = Globals::default();
        json::init(&mut g);
        let f = |n: &str| {
            g.funcs.iter().find(|f| f.0 == n).map(|f| f.1).unwrap_or_else(|| {
                eprintln!("no {n}");
                std::process::exit(3)
            })
        };
        W { parse: f("__json_parse"), generate: f("__json_generate"), vm: Executor::default(), g }
    }
    fn call(&mut self, f: BuiltinFn, v: Value) -> value::Result<Value> {
        let args = [v];
        f(&mut self.vm, &mut self.g, Lfp::new(&args), BytecodePtr)
    }
    fn read(&mut self, t: &str) -> value::Result<Value> {
        self.call(self.parse, Value::string_from_str(t))
    }
}

const SPICE: &[&str] = &[
    "null", "nul", "nulll", "tru", "True", "falsey", "[", "]", "{", "}", ",", ":", "\"", "\\", "\\u", "\\u12", "\\u+123", "\\u 123", "\\uD800", "\\x", "-", "+", ".", "e", "E+", "0", "00", "01", "-0", "-01", "1.", ".5", "1e",
    "1e+", "1.5e3", "1e400", "1e-400", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "NaN", "Infinity", "-Infinity", "'a'", "\u{b}", "\u{a0}", "\u{feff}", "\0", "\n", " ", "\t", "\u{1}", "#", "\"a\":1", "[1,]",
    "{\"a\":1,}", "{\"a\"}", "{1:2}", "[]", "{}", "\"\"", "1 2", "é",
];

fn check(case: &mut Case, w: &mut W) -> Verdict {
    heap::reset();
    let mode = case.rng.us(10);
    let depth = case.rng.us(4);
    let mut j = gen_j(case, depth);
    if mode < 6 {
        // a text, and texts near it
        let mut t = String::new();
        if case.rng.chance(1, 40) {
            for _ in 0..1 + case.rng.us(90) {
                j = if case.rng.chance(1, 2) { J::Arr(vec![j]) } else { J::Obj(vec![("k".into(), j)]) };
            }
            case.count("deeply_nested");
        }
        write(case, &j, &mut t);
        let mut c: Vec<char> = t.chars().collect();
        let mangled = case.rng.chance(1, 2);
        if mangled {
            for _ in 0..1 + case.rng.us(3) {
                let at = case.rng.us(c.len() + 1);
                match case.rng.us(5) {
                    0 if at < c.len() => {
                        c.remove(at);
                    }
                    1 => c.truncate(at),
                    2 => {
                        let s: Vec<char> = case.rng.pick(SPICE).chars().collect();
                        c.splice(at..at, s);
                    }
                    3 if at < c.len() => c[at] = *case.rng.pick(&['[', ']', '{', '}', ',', ':', '"', '\\', '0', '9', '-', '.', 'e', 'u', ' ', '\n', 'a', '\u{7f}']),
                    _ => {
                        let s: Vec<char> = case.rng.pick(SPICE).chars().collect();
                        if case.rng.chance(1, 2) {
                            c.extend(s)
                        } else {
                            c = s
                        }
                    }
                }
            }
        }
        let t: String = c.iter().collect();
        let want = read(&c);
        if !mangled {
            match &want {
                Ok(w) if *w == j => {}
                // floats spelled with too few digits to be exact never occur
                other => {
                    eprintln!("oracle disagrees with itself on {t:?}: {other:?} {j:?}");
                    std::process::exit(3)
                }
            }
        }
        case.sig_bytes(t.as_bytes());
        case.op(|| format!("parse {t:?}"));
        let got = w.read(&t);
        match (want, got) {
            (Err(No::Open), _) => case.count("open"),
            (Ok(e), Ok(v)) => {
                let g = to_j(v);
                vcheck!(g == e, "reading {t:?} gives {g:?}, expected {e:?}");
                case.count("texts_read");
                case.nontrivial();
            }
            (Ok(e), Err(x)) => vbail!("reading {t:?} raises ({}), expected {e:?}", x.msg),
            (Err(No::Bad), Ok(v)) => vbail!("{t:?} is no JSON text but reads as {:?}", to_j(v)),
            (Err(No::Bad), Err(x)) => {
                veq!(x.kind, Kind::Runtime, "{t:?}");
                case.count("texts_refused");
                case.nontrivial();
            }
        }
    } else {
        let (v, e) = to_value(case, &j);
        case.sig_bytes(format!("{v:?}").as_bytes());
        case.op(|| format!("generate {v:?}"));
        let before = format!("{v:?}");
        let out = match w.call(w.generate, v) {
            Ok(s) => s,
            Err(x) => vbail!("writing {v:?} raises ({})", x.msg),
        };
        veq!(format!("{v:?}"), before, "the value written changed");
        let s = out.as_rstring_inner();
        let t = match std::str::from_utf8(s.as_bytes()) {
            Ok(t) => t.to_string(),
            Err(_) => vbail!("writing {v:?} gives text that is not UTF-8"),
        };
        veq!(s.encoding(), Encoding::Utf8, "writing {v:?}");
        let c: Vec<char> = t.chars().collect();
        match read(&c) {
            Ok(g) => vcheck!(g == e, "writing {v:?} gives {t:?}, which says {g:?}"),
            Err(_) => vbail!("writing {v:?} gives {t:?}, which is no JSON text"),
        }
        let mut p = String::new();
        if plain(&e, &mut p) {
            veq!(t, p, "writing {v:?}");
            case.count("texts_exact");
        }
        match w.read(&t) {
            Ok(b) => {
                let b = to_j(b);
                vcheck!(b == e, "{v:?} written as {t:?} reads back as {b:?}")
            }
            Err(x) => vbail!("{v:?} written as {t:?} cannot be read back ({})", x.msg),
        }
        case.count("round_trips");
        case.nontrivial();
    }
    Ok(())
}

/// Long text must not be read over and over.
fn check_long(case: &mut Case, w: &mut W) -> Verdict {
    heap::reset();
    let n = 20_000 + case.rng.us(20_000);
    let c = *case.rng.pick(&['é', '漢', '😀', 'a']);
    let body: String = std::iter::repeat_n(c, n).collect();
    let t = format!("[\"{body}\",\"{body}\"]");
    case.op(|| format!("parse two strings of {n} {c:?}"));
    match w.read(&t) {
        Ok(v) => {
            let e = J::Arr(vec![J::Str(body.clone()), J::Str(body)]);
            vcheck!(to_j(v) == e, "two strings of {n} {c:?} read wrongly");
        }
        Err(x) => vbail!("two strings of {n} {c:?}: {}", x.msg),
    }
    case.count("long_texts");
    case.nontrivial();
    Ok(())
}

fn main() {
    let mut w = W::new();
    vh::main_loop("c33", |case| {
        if case.rng.chance(1, 400) {
            return check_long(case, &mut w);
        }
        for _ in 0..8 {
            vh::step();
            check(case, &mut w)?;
        }
        Ok(())
    })
}
