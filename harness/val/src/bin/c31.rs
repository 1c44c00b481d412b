//! C31: packing and unpacking against an independent reading of the
//! directives.
#![allow(dead_code, clippy::all)]
use vh::{vbail, vcheck, veq, Case, Verdict, Violation};

#[path = "../mini.rs"]
mod value;
use value::rvalue::string::*;
use value::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum N {
    Bare,
    Num(usize),
    Star,
}

#[derive(Clone, Copy, Debug)]
struct D {
    ch: char,
    m: &'static str,
    n: N,
}

#[derive(Clone, Debug, PartialEq)]
enum It {
    Int(i128),
    Flt(f64),
    Str(Vec<u8>),
    Nil,
}

/// A result the rules decide, an error they demand, or nothing.
#[derive(Clone, Debug, PartialEq)]
enum Bad {
    Err(Kind),
    Open,
}
use Bad::Open;
type M<T> = std::result::Result<T, Bad>;
fn err<T>(k: Kind) -> M<T> {
    Err(Bad::Err(k))
}

/// (bytes, signed, most significant first)
fn int_kind(d: &D) -> Option<(usize, bool, bool)> {
    let native = d.m.contains('!') || d.m.contains('_');
    let (n, s) = match d.ch {
        'c' => (1, true),
        'C' => (1, false),
        's' => (2, true),
        'S' | 'n' | 'v' => (2, false),
        'i' => (4, true),
        'I' | 'N' | 'V' => (4, false),
        'l' => (if native { 8 } else { 4 }, true),
        'L' => (if native { 8 } else { 4 }, false),
        'q' | 'j' => (8, true),
        'Q' | 'J' => (8, false),
        _ => return None,
    };
    Some((n, s, d.ch == 'n' || d.ch == 'N' || d.m.contains('>')))
}

fn flt_kind(d: &D) -> Option<(usize, bool)> {
    Some(match d.ch {
        'd' | 'D' | 'E' => (8, false),
        'f' | 'F' | 'e' => (4, false),
        'G' => (8, true),
        'g' => (4, true),
        _ => return None,
    })
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn sextets(b: &[u8]) -> Vec<u8> {
    // bit string cut into groups of six, zero filled to whole triples
    let bits: Vec<u8> = b.iter().flat_map(|c| (0..8).rev().map(move |i| c >> i & 1)).collect();
    let mut v: Vec<u8> = bits.chunks(6).map(|g| (0..6).fold(0, |a, i| a << 1 | g.get(i).copied().unwrap_or(0))).collect();
    while v.len() % 4 != 0 {
        v.push(64);
    }
    v
}

fn m_base64(b: &[u8], n: N) -> Vec<u8> {
    let line = match n {
        N::Num(0) => usize::MAX,
        N::Num(k) if k >= 3 => k / 3 * 3,
        _ => 45,
    };
    let mut o = vec![];
    for l in b.chunks(line) {
        o.extend(sextets(l).iter().map(|&s| if s == 64 { b'=' } else { B64[s as usize] }));
        if line != usize::MAX {
            o.push(b'\n');
        }
    }
    o
}

fn m_uu(b: &[u8], n: N) -> Vec<u8> {
    let line = match n {
        N::Num(k) if k > 63 => 63,
        N::Num(k) if k >= 3 => k / 3 * 3,
        _ => 45,
    };
    let mut o = vec![];
    for l in b.chunks(line) {
        o.push(b' ' + l.len() as u8);
        o.extend(sextets(l).iter().map(|&s| if s == 0 || s == 64 { b'`' } else { b' ' + s }));
        o.push(b'\n');
    }
    o
}

fn m_qp(b: &[u8], n: N) -> Vec<u8> {
    let limit = match n {
        N::Num(k) if k > 1 => k,
        _ => 72,
    };
    let mut o: Vec<u8> = vec![];
    let mut col = 0;
    let mut prev = 0u8;
    for &c in b {
        if c == b'\n' {
            if prev == b' ' || prev == b'\t' {
                o.extend(b"=\n");
            }
            o.push(c);
            col = 0;
            prev = c;
        } else if c == b'\t' || (b' '..=b'~').contains(&c) && c != b'=' {
            o.push(c);
            col += 1;
            prev = c;
        } else {
            o.extend(format!("={c:02X}").bytes());
            col += 3;
            prev = 0;
        }
        if col > limit {
            o.extend(b"=\n");
            col = 0;
            prev = b'\n';
        }
    }
    if col > 0 {
        o.extend(b"=\n");
    }
    o
}

fn m_utf8(cp: i128) -> Vec<u8> {
    if cp < 0x80 {
        return vec![cp as u8];
    }
    let n = [0x800i128, 0x1_0000, 0x20_0000, 0x400_0000, 0x8000_0000].iter().position(|l| cp < *l).unwrap() + 2;
    let mut v = vec![(0xffu32 << (8 - n)) as u8 | (cp >> (6 * (n - 1))) as u8];
    for i in (0..n - 1).rev() {
        v.push(0x80 | (cp >> (6 * i) & 0x3f) as u8);
    }
    v
}

fn m_ber(v: i128) -> Vec<u8> {
    let mut o = vec![(v & 0x7f) as u8];
    let mut v = v >> 7;
    while v > 0 {
        o.insert(0, 0x80 | (v & 0x7f) as u8);
        v >>= 7;
    }
    o
}

fn m_leb(v: i128, signed: bool) -> Vec<u8> {
    let mut o = vec![];
    let mut v = v;
    loop {
        let g = (v & 0x7f) as u8;
        v >>= 7;
        let last = if signed { v == if g & 0x40 != 0 { -1 } else { 0 } } else { v == 0 };
        o.push(if last { g } else { g | 0x80 });
        if last {
            return o;
        }
    }
}

fn m_pack(ds: &[D], args: &[It], start: &[u8]) -> M<Vec<u8>> {
    let mut o = start.to_vec();
    let mut at = 0;
    for d in ds {
        let times = |at: usize| match d.n {
            N::Bare => 1,
            N::Num(k) => k,
            N::Star => args.len() - at,
        };
        macro_rules! next {
            () => {{
                let Some(i) = args.get(at) else { return err(Kind::Argument) };
                at += 1;
                i
            }};
        }
        if let Some((size, _, big)) = int_kind(d) {
            for _ in 0..times(at) {
                let It::Int(v) = next!() else { return err(Kind::Type) };
                for k in 0..size {
                    o.push((v >> (8 * if big { size - 1 - k } else { k })) as u8);
                }
            }
            continue;
        }
        if let Some((size, big)) = flt_kind(d) {
            for _ in 0..times(at) {
                let f = match next!() {
                    It::Flt(f) => *f,
                    It::Int(i) => *i as f64,
                    _ => return err(Kind::Type),
                };
                let mut b = if size == 8 { f.to_bits().to_le_bytes().to_vec() } else { (f as f32).to_bits().to_le_bytes().to_vec() };
                if big {
                    b.reverse();
                }
                o.extend(b);
            }
            continue;
        }
        match d.ch {
            'a' | 'A' | 'Z' | 'b' | 'B' | 'h' | 'H' => {
                let s = match next!() {
                    It::Str(s) => s.clone(),
                    It::Nil => vec![],
                    _ => return err(Kind::Type),
                };
                let digits = |k: usize, per: usize| -> Vec<u8> {
                    let width = 8 / per;
                    let mut v = vec![];
                    for g in 0..k.div_ceil(per) {
                        let mut byte = 0u32;
                        for j in 0..per {
                            let x = match (g * per + j < k).then(|| s.get(g * per + j)).flatten() {
                                None => 0,
                                Some(c) if per == 8 => (c & 1) as u32,
                                Some(c) if c.is_ascii_alphabetic() => (*c as u32 + 9) & 15,
                                Some(c) => (c & 15) as u32,
                            };
                            let high_first = d.ch.is_ascii_uppercase();
                            byte |= x << (width * if high_first { per - 1 - j } else { j });
                        }
                        v.push(byte as u8);
                    }
                    v
                };
                let k = match d.n {
                    N::Bare => 1,
                    N::Num(k) => k,
                    N::Star => s.len() + (d.ch == 'Z') as usize,
                };
                match d.ch {
                    'b' | 'B' => {
                        if k > s.len() {
                            return Err(Open);
                        }
                        o.extend(digits(k, 8))
                    }
                    'h' | 'H' => o.extend(digits(k, 2)),
                    _ => {
                        let fill = if d.ch == 'A' { b' ' } else { 0 };
                        o.extend((0..k).map(|i| s.get(i).copied().unwrap_or(fill)));
                    }
                }
            }
            'm' | 'u' => {
                let It::Str(s) = next!() else { return err(Kind::Type) };
                o.extend(if d.ch == 'm' { m_base64(s, d.n) } else { m_uu(s, d.n) });
            }
            'M' => {
                let s = match next!() {
                    It::Str(s) => s.clone(),
                    It::Int(i) => i.to_string().into_bytes(),
                    It::Nil => vec![],
                    It::Flt(_) => return Err(Open),
                };
                o.extend(m_qp(&s, d.n));
            }
            'U' | 'w' | 'R' | 'r' => {
                for _ in 0..times(at) {
                    let It::Int(v) = next!() else { return err(Kind::Type) };
                    match d.ch {
                        'U' => {
                            if !(0..=0x7fff_ffff).contains(v) {
                                return err(Kind::Range);
                            }
                            o.extend(m_utf8(*v))
                        }
                        'w' => {
                            if *v < 0 {
                                return err(Kind::Argument);
                            }
                            o.extend(m_ber(*v))
                        }
                        _ => {
                            let r = if d.ch == 'r' { i64::MIN as i128..=i64::MAX as i128 } else { 0..=u64::MAX as i128 };
                            if !r.contains(v) {
                                return Err(Open);
                            }
                            o.extend(m_leb(*v, d.ch == 'r'))
                        }
                    }
                }
            }
            'x' => {
                let k = if let N::Num(k) = d.n { k } else { (d.n == N::Bare) as usize };
                o.extend(std::iter::repeat_n(0, k));
            }
            'X' => {
                let k = if let N::Num(k) = d.n { k } else { (d.n == N::Bare) as usize };
                if k > o.len() {
                    return err(Kind::Argument);
                }
                o.truncate(o.len() - k);
            }
            '@' => {
                let k = if let N::Num(k) = d.n { k } else { (d.n == N::Bare) as usize };
                o.resize(k, 0);
            }
            c => unreachable!("{c}"),
        }
    }
    Ok(o)
}

fn m_unbase64(b: &[u8], strict: bool) -> M<Vec<u8>> {
    let val = |c: u8| B64.iter().position(|x| *x == c).map(|p| p as u32);
    let mut six: Vec<u32> = vec![];
    if strict {
        if b.len() % 4 != 0 {
            return err(Kind::Argument);
        }
        let pad = b.iter().rev().take(2).take_while(|c| **c == b'=').count();
        for &c in &b[..b.len() - pad] {
            match val(c) {
                Some(v) => six.push(v),
                None => return err(Kind::Argument),
            }
        }
        let rest = match six.len() % 4 {
            2 => six.last().unwrap() & 15,
            3 => six.last().unwrap() & 3,
            _ => 0,
        };
        if rest != 0 {
            return err(Kind::Argument);
        }
    } else {
        for &c in b {
            match val(c) {
                Some(v) => six.push(v),
                // padding ends the text, unless a group has no two digits yet
                None if c == b'=' && six.len() % 4 >= 2 => break,
                None => {}
            }
        }
    }
    let mut o = vec![];
    for g in six.chunks(4) {
        let w = g.iter().fold(0u32, |a, v| a << 6 | v) << (6 * (4 - g.len()));
        o.extend(&w.to_be_bytes()[1..g.len().max(1)]);
    }
    Ok(o)
}

fn m_unuu(b: &[u8]) -> M<Vec<u8>> {
    let mut o = vec![];
    let mut rest = b;
    while !rest.is_empty() {
        let Some(e) = rest.iter().position(|c| *c == b'\n') else { return Err(Open) };
        let l = &rest[..e];
        rest = &rest[e + 1..];
        if l.is_empty() || !(b'!'..=b'_').contains(&l[0]) {
            return Err(Open);
        }
        let n = (l[0] - b' ') as usize;
        if l.len() != 1 + n.div_ceil(3) * 4 || l[1..].iter().any(|c| !(b' '..=b'`').contains(c)) {
            return Err(Open);
        }
        let mut line = vec![];
        for g in l[1..].chunks(4) {
            let w = g.iter().fold(0u32, |a, c| a << 6 | ((c - b' ') & 63) as u32);
            line.extend(&w.to_be_bytes()[1..]);
        }
        o.extend(&line[..n]);
    }
    Ok(o)
}

fn m_unqp(b: &[u8]) -> M<Vec<u8>> {
    let hex = |c: Option<&u8>| c.and_then(|c| (*c as char).to_digit(16));
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'=' {
            o.push(b[i]);
            i += 1;
        } else if b[i + 1..].starts_with(b"\n") {
            i += 2;
        } else if b[i + 1..].starts_with(b"\r\n") {
            i += 3;
        } else if let (Some(h), Some(l)) = (hex(b.get(i + 1)), hex(b.get(i + 2))) {
            o.push((h * 16 + l) as u8);
            i += 3;
        } else {
            return Err(Open);
        }
    }
    Ok(o)
}

fn m_unutf8(b: &[u8]) -> M<(i128, usize)> {
    let n = (!b[0]).leading_zeros() as usize;
    if n == 0 {
        return Ok((b[0] as i128, 1));
    }
    if n == 1 || n > 6 || b.len() < n || b[1..n].iter().any(|c| c & 0xc0 != 0x80) {
        return err(Kind::Argument);
    }
    let v = b[1..n].iter().fold((b[0] & (0x7f >> n)) as i128, |a, c| a << 6 | (c & 0x3f) as i128);
    if m_utf8(v).len() != n {
        return err(Kind::Argument);
    }
    Ok((v, n))
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Int(i128),
    Flt(f64),
    Bin(Vec<u8>),
    Ascii(Vec<u8>),
    Nil,
}

fn m_unpack(b: &[u8], ds: &[D], base: usize, once: bool) -> M<Vec<Out>> {
    let mut o = vec![];
    let mut i = 0;
    // position after an encoded text with anything unusual in it is not defined
    let mut lost = false;
    for d in ds {
        if once && !o.is_empty() {
            break;
        }
        if lost {
            return Err(Open);
        }
        let rest = &b[i..];
        let size = int_kind(d).map(|k| k.0).or(flt_kind(d).map(|k| k.0));
        if let Some(size) = size {
            let k = match d.n {
                N::Bare => 1,
                N::Num(k) => k,
                N::Star => rest.len() / size,
            };
            for j in 0..k {
                if rest.len() < (j + 1) * size {
                    if once && o.is_empty() && ds.len() > 1 {
                        return Err(Open);
                    }
                    o.push(Out::Nil);
                    continue;
                }
                let mut w = rest[j * size..(j + 1) * size].to_vec();
                i += size;
                if let Some((_, big)) = flt_kind(d) {
                    if big {
                        w.reverse();
                    }
                    o.push(Out::Flt(match size {
                        4 => f32::from_bits(w.iter().rev().fold(0, |a, c| a << 8 | *c as u32)) as f64,
                        _ => f64::from_bits(w.iter().rev().fold(0, |a, c| a << 8 | *c as u64)),
                    }));
                } else {
                    let (_, signed, big) = int_kind(d).unwrap();
                    if !big {
                        w.reverse();
                    }
                    let mut v = w.iter().fold(0i128, |a, c| a << 8 | *c as i128);
                    if signed && w[0] >= 0x80 {
                        v -= 1 << (8 * size);
                    }
                    o.push(Out::Int(v));
                }
            }
            continue;
        }
        let text_len = match d.n {
            N::Bare => 1.min(rest.len()),
            N::Num(k) => k.min(rest.len()),
            N::Star => rest.len(),
        };
        match d.ch {
            'a' | 'A' | 'Z' => {
                let mut t = rest[..text_len].to_vec();
                i += text_len;
                match d.ch {
                    'A' => {
                        while t.last().is_some_and(|c| *c == 0 || *c == b' ') {
                            t.pop();
                        }
                    }
                    'Z' => {
                        if let Some(p) = t.iter().position(|c| *c == 0) {
                            if d.n == N::Star {
                                i = i - text_len + p + 1;
                            }
                            t.truncate(p);
                        }
                    }
                    _ => {}
                }
                o.push(Out::Bin(t));
            }
            'b' | 'B' | 'h' | 'H' => {
                let per = if d.ch.eq_ignore_ascii_case(&'b') { 8 } else { 2 };
                let all: Vec<u8> = rest
                    .iter()
                    .flat_map(|c| {
                        let s = if per == 8 { format!("{c:08b}") } else { format!("{c:02x}") };
                        let v: Vec<u8> = if d.ch.is_ascii_uppercase() { s.bytes().collect() } else { s.bytes().rev().collect() };
                        v
                    })
                    .collect();
                let k = match d.n {
                    N::Bare => 1.min(all.len()),
                    N::Num(k) => k.min(all.len()),
                    N::Star => all.len(),
                };
                i += k.div_ceil(per);
                o.push(Out::Ascii(all[..k].to_vec()));
            }
            'm' => {
                o.push(Out::Bin(m_unbase64(rest, d.n == N::Num(0))?));
                i = b.len();
                lost = true;
            }
            'M' => {
                o.push(Out::Bin(m_unqp(rest)?));
                i = b.len();
                lost = true;
            }
            'u' => {
                o.push(Out::Bin(m_unuu(rest)?));
                i = b.len();
                lost = true;
            }
            'U' | 'w' | 'R' | 'r' => {
                let k = match d.n {
                    N::Bare => 1,
                    N::Num(k) => k,
                    N::Star => usize::MAX,
                };
                let mut got = 0;
                while got < k && i < b.len() {
                    let rest = &b[i..];
                    if d.ch == 'U' {
                        let (v, n) = m_unutf8(rest)?;
                        o.push(Out::Int(v));
                        i += n;
                    } else {
                        let Some(e) = rest.iter().position(|c| *c < 0x80) else { return Err(Open) };
                        let g: Vec<i128> = rest[..=e].iter().map(|c| (*c & 0x7f) as i128).collect();
                        i += e + 1;
                        if d.ch == 'w' {
                            if g.len() > 17 {
                                return Err(Open);
                            }
                            o.push(Out::Int(g.iter().fold(0, |a, v| a << 7 | v)));
                        } else {
                            if g.len() > 10 {
                                return Err(Open);
                            }
                            let mut v = g.iter().rev().fold(0, |a, v| a << 7 | v);
                            if d.ch == 'r' && g[e] & 0x40 != 0 {
                                v -= 1 << (7 * g.len());
                            }
                            let r = if d.ch == 'r' { i64::MIN as i128..=i64::MAX as i128 } else { 0..=u64::MAX as i128 };
                            if !r.contains(&v) {
                                return Err(Open);
                            }
                            o.push(Out::Int(v));
                        }
                    }
                    got += 1;
                }
                if got < k && k != usize::MAX && (d.ch == 'R' || d.ch == 'r') {
                    return Err(Open);
                }
                if once && got == 0 && k > 0 && ds.len() > 1 {
                    return Err(Open);
                }
            }
            'x' => {
                let k = match d.n {
                    N::Bare => 1,
                    N::Num(k) => k,
                    N::Star => rest.len(),
                };
                if k > rest.len() {
                    return err(Kind::Argument);
                }
                i += k;
            }
            'X' => {
                let k = match d.n {
                    N::Bare => 1,
                    N::Num(k) => k,
                    N::Star => rest.len(),
                };
                if k > i {
                    return err(Kind::Argument);
                }
                i -= k;
            }
            '@' => {
                let k = match d.n {
                    N::Bare => 0,
                    N::Num(k) => k,
                    N::Star => return Err(Open),
                };
                if k > b.len() {
                    return err(Kind::Argument);
                }
                i = k;
            }
            '^' => o.push(Out::Int((base + i) as i128)),
            c => unreachable!("{c}"),
        }
    }
    Ok(o)
}

// ---- values ---------------------------------------------------------------

fn big(v: i128) -> Value {
    Value::bigint(v.to_string().parse().unwrap())
}

fn to_value(case: &mut Case, it: &It, wrap: bool, roots: &mut Vec<Value>) -> Value {
    let v = match it {
        It::Nil => Value::nil(),
        It::Flt(f) => Value::float(*f),
        It::Int(i) => {
            let v = big(*i);
            roots.push(v);
            if wrap && i64::try_from(*i).is_ok() && case.rng.chance(1, 20) {
                heap::alloc(ObjKind::Custom { to_s: Some(Value::string(i.to_string())), inspect: None, int: Some(v), str: None })
            } else {
                v
            }
        }
        It::Str(s) => {
            let e = *case.rng.pick(&[Encoding::Ascii8, Encoding::Utf8, Encoding::UsAscii, Encoding::EucJp, Encoding::Utf16Le]);
            let v = Value::string_from_inner(RStringInner::from_encoding(s, e));
            roots.push(v);
            if case.rng.chance(1, 20) {
                heap::alloc(ObjKind::Custom { to_s: Some(v), inspect: None, int: None, str: Some(v) })
            } else {
                v
            }
        }
    };
    roots.push(v);
    v
}

fn from_value(v: Value) -> std::result::Result<Out, Violation> {
    Ok(match v.unpack() {
        RV::Nil => Out::Nil,
        RV::Fixnum(i) => Out::Int(i as i128),
        RV::BigInt(b) => Out::Int(b.to_string().parse().map_err(|_| Violation(format!("an integer of {b}")))?),
        RV::Float(f) => Out::Flt(f),
        RV::String(s) => {
            let b = s.as_bytes().to_vec();
            if s.is_ascii_only() != b.is_ascii() {
                return Err(Violation(format!("unpacked {} says ASCII-only: {}", show(&b), s.is_ascii_only())));
            }
            match s.encoding() {
                Encoding::Ascii8 => Out::Bin(b),
                Encoding::UsAscii => Out::Ascii(b),
                e => return Err(Violation(format!("an unpacked string came as {e:?}"))),
            }
        }
        _ => return Err(Violation(format!("unpacked an unexpected {v:?}"))),
    })
}

fn same(a: &[Out], b: &[Out]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(a, b)| match (a, b) {
            (Out::Flt(x), Out::Flt(y)) => x.is_nan() && y.is_nan() || x.to_bits() == y.to_bits(),
            _ => a == b,
        })
}

// ---- generators -----------------------------------------------------------

fn bytes(case: &mut Case, max: usize) -> Vec<u8> {
    let n = if case.rng.chance(1, 4) { case.rng.us(max + 1) } else { case.rng.us(12) };
    let style = case.rng.us(6);
    (0..n)
        .map(|_| match style {
            0 => case.rng.next() as u8,
            1 => *case.rng.pick(b"ab \t\0\n="),
            2 => *case.rng.pick(b"0123456789abcdefABCDEFgZ@^"),
            3 => *case.rng.pick(b"01"),
            4 => 32 + case.rng.us(95) as u8,
            _ => *case.rng.pick(&[0, 1, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc3, 0xe3, 0xf4, 0xfe, 0xff]),
        })
        .collect()
}

fn integer(case: &mut Case) -> i128 {
    let v = match case.rng.us(8) {
        0..=1 => case.rng.us(300) as i128,
        2 => case.rng.next() as i128,
        3 => case.rng.next() as i64 as i128,
        4 => (case.rng.next() as i128) << 40 | case.rng.next() as i128,
        5 => {
            let s = case.rng.us(90);
            let d = case.rng.us(3) as i128 - 1;
            (1i128 << s) + d
        }
        6 => {
            let s = case.rng.us(64);
            (case.rng.next() >> s) as i128
        }
        _ => -(case.rng.us(70000) as i128),
    };
    if case.rng.chance(1, 6) { -v } else { v }
}

fn float(case: &mut Case) -> f64 {
    match case.rng.us(6) {
        0 => *case.rng.pick(&[0.0, -0.0, 1.5, -2.25, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MAX, 3.4028235677973366e38, 1e-45, 16777217.0]),
        1 => case.rng.us(1000) as f64 / 8.0,
        2 => f64::from_bits(case.rng.next()),
        3 => f32::from_bits(case.rng.next() as u32) as f64,
        _ => (case.rng.next() as i64) as f64 / 1e9,
    }
}

fn modifier(case: &mut Case, ch: char) -> &'static str {
    if "sSiIlLqQjJ".contains(ch) && case.rng.chance(1, 2) {
        *case.rng.pick(&["<", ">", "!", "_", "!<", "<!", "_>", ">_", "!>", "<_", "!!"])
    } else {
        ""
    }
}

fn text(case: &mut Case, ds: &[D]) -> String {
    let mut s = String::new();
    for d in ds {
        if case.rng.chance(1, 6) {
            s.push_str(*case.rng.pick(&[" ", "\t", "\n", "  ", "\x0b\x0c\r", "#x C9 \n", "#\n"]));
        }
        s.push(d.ch);
        s.push_str(d.m);
        match d.n {
            N::Bare => {}
            N::Num(k) => {
                if case.rng.chance(1, 20) {
                    s.push_str("00");
                }
                s.push_str(&k.to_string())
            }
            N::Star => s.push('*'),
        }
    }
    if case.rng.chance(1, 8) {
        s.push_str(*case.rng.pick(&[" ", "\n", "# the end", " #", "\t\r\n"]));
    }
    s
}

const INTS: &str = "cCsSiIlLqQjJnNvV";
const FLTS: &str = "dDfFeEgG";
const STRS: &str = "aAZbBhH";

/// A template and arguments that fit it.
fn plan(case: &mut Case) -> (Vec<D>, Vec<It>) {
    let mut ds = vec![];
    let mut args = vec![];
    let k = 1 + case.rng.us(6);
    let theme = case.rng.us(8);
    for _ in 0..k {
        let set = match theme {
            0 => INTS,
            1 => FLTS,
            2 => STRS,
            3 => "mMu",
            4 => "UwRr",
            5 => "mMuU",
            _ => "cCsSiIlLqQjJnNvVdDfFeEgGaAZbBhHmMuUwRrxX@xX@",
        };
        let ch = *case.rng.pick(set.as_bytes()) as char;
        let m = modifier(case, ch);
        let n = match case.rng.us(6) {
            0..=1 => N::Bare,
            2 => N::Star,
            _ => N::Num(match ch {
                'm' | 'M' | 'u' => *case.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 44, 45, 46, 59, 60, 61, 62, 63, 64, 66, 71, 72, 73, 100, 300]),
                'a' | 'A' | 'Z' | 'b' | 'B' | 'h' | 'H' => case.rng.us(20),
                '@' => case.rng.us(40),
                _ => case.rng.us(4),
            }),
        };
        let d = D { ch, m, n };
        let int = int_kind(&d).is_some() || "UwRr".contains(ch);
        if int || flt_kind(&d).is_some() {
            let times = match n {
                N::Bare => 1,
                N::Num(k) => k,
                N::Star => case.rng.us(6),
            };
            for _ in 0..times {
                let it = if !int && case.rng.chance(4, 5) {
                    It::Flt(float(case))
                } else if !int {
                    It::Int(case.rng.us(100000) as i128 - 50000)
                } else {
                    let v = integer(case);
                    It::Int(match ch {
                        'U' if case.rng.chance(9, 10) => v & *case.rng.pick(&[0x7f, 0x7ff, 0xffff, 0x10ffff, 0x1f_ffff, 0x3ff_ffff, 0x7fff_ffff]),
                        'w' if case.rng.chance(9, 10) => v & i128::MAX >> 10,
                        'R' => v & u64::MAX as i128,
                        'r' => v as i64 as i128,
                        _ => v,
                    })
                };
                args.push(it);
            }
        } else if STRS.contains(ch) || "mMu".contains(ch) {
            let max = if "mMu".contains(ch) { 400 } else { 40 };
            let b = bytes(case, max);
            args.push(if case.rng.chance(1, 25) {
                It::Nil
            } else if ch == 'M' && case.rng.chance(1, 10) {
                It::Int(integer(case))
            } else {
                It::Str(b)
            });
        }
        ds.push(d);
        if n == N::Star && (int || flt_kind(&d).is_some()) {
            // everything is taken: only directives without arguments may follow
            if case.rng.chance(1, 3) {
                ds.push(D { ch: *case.rng.pick(b"xX@") as char, m: "", n: N::Num(case.rng.us(4)) });
            }
            break;
        }
    }
    match case.rng.us(25) {
        0 => {
            args.pop();
        }
        1 => args.push(It::Int(7)),
        2 if !args.is_empty() => {
            let i = case.rng.us(args.len());
            args[i] = case.rng.pick(&[It::Nil, It::Str(vec![b'7']), It::Int(-1), It::Flt(1.5)]).clone();
        }
        _ => {}
    }
    (ds, args)
}

fn string_facts(what: &str, s: &RStringInner) -> Verdict {
    let b = s.as_bytes();
    let valid = match s.encoding() {
        Encoding::Ascii8 => true,
        Encoding::UsAscii => b.is_ascii(),
        Encoding::Utf8 => std::str::from_utf8(b).is_ok(),
        _ => return Ok(()),
    };
    veq!(s.is_valid_encoding(), valid, "{what}: validity of {:?} {}", s.encoding(), show(b));
    veq!(s.is_ascii_only(), b.is_ascii(), "{what}: ASCII-only of {:?} {}", s.encoding(), show(b));
    Ok(())
}

fn pack_case(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> std::result::Result<Option<(Vec<u8>, Vec<D>)>, Violation> {
    let (ds, args) = plan(case);
    let mut roots = vec![];
    let wrap = ds.iter().all(|d| flt_kind(d).is_none());
    let vals: Vec<Value> = args.iter().map(|a| to_value(case, a, wrap, &mut roots)).collect();
    let t = text(case, &ds);
    let buffer = if case.rng.chance(1, 3) {
        let e = *case.rng.pick(&[Encoding::Ascii8, Encoding::Utf8, Encoding::Utf8, Encoding::UsAscii, Encoding::EucJp, Encoding::Utf16Le, Encoding::Utf16Be]);
        let b = match case.rng.us(3) {
            0 => vec![],
            1 => "aあbいz".as_bytes()[..4].to_vec(),
            _ => bytes(case, 60),
        };
        let mut s = RStringInner::from_encoding(&b, e);
        if case.rng.chance(1, 2) {
            s.is_valid_encoding();
        }
        let mut v = Value::string_from_inner(s);
        if case.rng.chance(1, 40) {
            v.set_frozen();
        }
        Some((v, e, b))
    } else {
        None
    };
    case.op(|| format!("{args:?}.pack({t:?}) into {:?}", buffer.as_ref().map(|b| b.0)));
    let start = buffer.as_ref().map(|b| b.2.clone()).unwrap_or_default();
    let mut want = m_pack(&ds, &args, &start);
    if buffer.as_ref().is_some_and(|b| b.0.is_frozen()) && want.is_ok() {
        want = err(Kind::Frozen);
    } else if buffer.as_ref().is_some_and(|b| b.0.is_frozen()) {
        want = Err(Open);
    }
    let got = pack::pack(vm, g, &vals, &t, buffer.as_ref().map(|b| b.0));
    vh::step();
    for (a, v) in args.iter().zip(&vals) {
        if let (It::Str(b), Some(s)) = (a, v.is_rstring_inner()) {
            veq!(show(s.as_bytes()), show(b), "an argument changed by pack({t:?})");
        }
    }
    let ascii = ds.iter().all(|d| "mMu".contains(d.ch));
    let utf8 = !ascii && ds.iter().all(|d| "mMuU".contains(d.ch));
    let moves = ds.iter().any(|d| "xX@".contains(d.ch));
    let plain = ds.iter().any(|d| !"xX@mMuU".contains(d.ch));
    match (&want, &got) {
        (Err(Open), _) => {
            case.count("calls_the_rules_leave_open");
            return Ok(None);
        }
        (Err(Bad::Err(k)), Err(e)) => {
            veq!(e.kind, *k, "the error of {args:?}.pack({t:?})");
            case.count("refused_packings");
            Ok(None)
        }
        (Ok(w), Ok(v)) => {
            let s = v.as_rstring_inner();
            // a NaN may carry any payload: compare other positions only
            let nan = args.iter().any(|a| matches!(a, It::Flt(f) if f.is_nan()));
            if nan {
                veq!(s.as_bytes().len(), w.len(), "length of {args:?}.pack({t:?})");
            } else if s.as_bytes() != w {
                vbail!("{args:?}.pack({t:?}) into {:?} is {}, not {}", buffer.as_ref().map(|b| show(&b.2)), show(s.as_bytes()), show(w));
            }
            string_facts(&format!("result of pack({t:?})"), s)?;
            match &buffer {
                Some((b, e, _)) => {
                    veq!(v.id(), b.id(), "pack with a buffer returns the buffer");
                    if ds.iter().all(|d| !"mMuU".contains(d.ch)) {
                        veq!(s.encoding(), *e, "encoding of the buffer after pack({t:?})");
                    }
                    case.count("packings_into_a_buffer");
                    if moves {
                        case.count("packings_moving_in_a_buffer");
                    }
                }
                None => {
                    let e = if ascii {
                        Encoding::UsAscii
                    } else if utf8 {
                        Encoding::Utf8
                    } else {
                        Encoding::Ascii8
                    };
                    if !moves || plain {
                        veq!(s.encoding(), e, "encoding of pack({t:?})");
                    }
                    if utf8 {
                        case.count("packings_in_UTF_8");
                    }
                    if ascii {
                        case.count("packings_in_US_ASCII");
                    }
                }
            }
            for d in &ds {
                case.count("directives_packed");
                if int_kind(d).is_some_and(|k| k.2) {
                    case.count("big_endian_directives");
                }
                if "mMu".contains(d.ch) {
                    case.count("texts_encoded");
                }
            }
            case.sig_bytes(w);
            Ok(Some((s.as_bytes().to_vec(), ds)))
        }
        _ => vbail!("{args:?}.pack({t:?}) into {:?}: {got:?}, expected {want:?}", buffer.as_ref().map(|b| show(&b.2))),
    }
}

fn unpack_dirs(case: &mut Case) -> Vec<D> {
    let k = 1 + case.rng.us(6);
    let theme = case.rng.us(6);
    (0..k)
        .map(|_| {
            let set = match theme {
                0 => "aAZbBhHxX@^",
                1 => "UwRr^",
                2 => "mMu",
                _ => "cCsSiIlLqQjJnNvVdDfFeEgGaAZbBhHUwRrxX@^aAZxX@^mMu",
            };
            let ch = *case.rng.pick(set.as_bytes()) as char;
            let m = modifier(case, ch);
            let n = match case.rng.us(8) {
                0..=2 => N::Bare,
                3 => N::Star,
                4 => N::Num(0),
                5 if "aAZbBhHxX@".contains(ch) && case.rng.chance(1, 5) => N::Num(*case.rng.pick(&[1000usize, 1 << 31, 1 << 40, i64::MAX as usize])),
                _ => N::Num(case.rng.us(9)),
            };
            D { ch, m, n }
        })
        .collect()
}

fn data(case: &mut Case) -> Vec<u8> {
    let b = bytes(case, 200);
    match case.rng.us(12) {
        0 => m_base64(&b, N::Num(case.rng.us(70))),
        1 => {
            // text with stray and missing characters
            let mut t = m_base64(&b, N::Bare);
            for _ in 0..case.rng.us(4) {
                let i = case.rng.us(t.len() + 1);
                if case.rng.chance(1, 2) && i < t.len() {
                    t.remove(i);
                } else {
                    t.insert(i, *case.rng.pick(b"=A \n*"));
                }
            }
            t
        }
        2 => m_qp(&b, N::Num(case.rng.us(90))),
        3 => m_uu(&b, N::Num(case.rng.us(70))),
        4..=5 => {
            let mut t = vec![];
            for _ in 0..case.rng.us(6) {
                let v = integer(case);
                let m = *case.rng.pick(&[0x7f, 0x7ff, 0xffff, 0x1f_ffff, 0x3ff_ffff, 0x7fff_ffff]);
                t.extend(m_utf8(v & m));
            }
            if case.rng.chance(1, 4) && !t.is_empty() {
                let i = case.rng.us(t.len());
                t[i] ^= 1 << case.rng.us(8);
            }
            t
        }
        6..=7 => {
            let mut t = vec![];
            for _ in 0..case.rng.us(6) {
                let v = integer(case);
                if case.rng.chance(1, 2) {
                    t.extend(m_ber(v & i128::MAX >> 10))
                } else {
                    t.extend(m_leb(v as i64 as i128, true))
                }
            }
            t
        }
        _ => b,
    }
}

fn unpack_case(case: &mut Case, from: Option<(Vec<u8>, Vec<D>)>) -> Verdict {
    let (b, ds) = match from {
        Some(x) => x,
        None => {
            let mut ds = unpack_dirs(case);
            let mut b = data(case);
            if case.rng.chance(1, 4) {
                // a text alone, read by the matching directive
                let b0 = bytes(case, 200);
                let ch = *case.rng.pick(b"mmmMu") as char;
                let n = if ch == 'm' && case.rng.chance(1, 2) { N::Num(0) } else { N::Bare };
                b = match ch {
                    'm' => m_base64(&b0, n),
                    'M' => m_qp(&b0, n),
                    _ => m_uu(&b0, n),
                };
                if ch == 'm' && case.rng.chance(1, 2) && !b.is_empty() {
                    let i = case.rng.us(b.len());
                    match case.rng.us(4) {
                        0 => {
                            b.remove(i);
                        }
                        1 => b.truncate(i),
                        2 => b[i] = *case.rng.pick(b"=*AZ/+ "),
                        _ => b.push(*case.rng.pick(b"=\nA")),
                    }
                }
                ds = vec![D { ch, m: "", n }];
            }
            (b, ds)
        }
    };
    let t = text(case, &ds);
    let base = if case.rng.chance(1, 4) { case.rng.us(100) } else { 0 };
    let once = case.rng.chance(1, 5);
    case.op(|| format!("{}.unpack{}({t:?}) at offset {base}", show(&b), if once { "1" } else { "" }));
    // an exact copy, so that reading beyond it is seen
    let copy: Box<[u8]> = b.clone().into_boxed_slice();
    let got = pack::unpack(&copy, &t, once, base);
    vh::step();
    let want = m_unpack(&b, &ds, base, once);
    match (&want, &got) {
        (Err(Open), _) => {
            case.count("calls_the_rules_leave_open");
            return Ok(());
        }
        (Err(Bad::Err(k)), Err(e)) => {
            veq!(e.kind, *k, "the error of {}.unpack({t:?})", show(&b));
            case.count("refused_unpackings");
        }
        (Ok(w), Ok(v)) => {
            let g: Vec<Out> = if once {
                vec![from_value(*v)?]
            } else {
                let mut o = vec![];
                for v in v.as_array() {
                    o.push(from_value(*v)?);
                }
                o
            };
            let w: Vec<Out> = if once { vec![w.first().cloned().unwrap_or(Out::Nil)] } else { w.clone() };
            if !same(&g, &w) {
                vbail!("{}.unpack{}({t:?}) is {g:?}, not {w:?}", show(&b), if once { "1" } else { "" });
            }
            case.count("unpackings_compared");
            case.count_n("values_unpacked", g.len() as u64);
            if once {
                case.count("first_values_taken");
            }
            if ds[0].ch == 'm' && ds[0].n == N::Num(0) {
                case.count("strict_texts_read");
            }
            case.sig(g.len() as u64);
        }
        _ => vbail!("{}.unpack{}({t:?}): {got:?}, expected {want:?}", show(&b), if once { "1" } else { "" }),
    }
    Ok(())
}

/// Templates the rules refuse.
fn refused(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Verdict {
    let (t, k): (&str, Kind) = *case.rng.pick(&[
        ("y", Kind::Argument),
        ("C%", Kind::Argument),
        ("C 2", Kind::Argument),
        ("あ", Kind::Argument),
        ("a!", Kind::Argument),
        ("C_", Kind::Argument),
        ("n!2", Kind::Argument),
        ("U<", Kind::Argument),
        ("m>", Kind::Argument),
        ("s<>", Kind::Range),
        ("l><", Kind::Range),
        ("q<<", Kind::Range),
        ("C99999999999999999999", Kind::Range),
        ("a9223372036854775808", Kind::Range),
    ]);
    let pre = *case.rng.pick(&["", "C", " x"]);
    let t = format!("{pre}{t}");
    let args = vec![Value::integer(65); 8];
    case.op(|| format!("pack / unpack {t:?}"));
    match pack::pack(vm, g, &args, &t, None) {
        Err(e) => veq!(e.kind, k, "the error of pack({t:?})"),
        Ok(v) => vbail!("pack({t:?}) gave {v:?}"),
    }
    match pack::unpack(b"aaaaaaaaaaaaaaaaaaaa", &t, false, 0) {
        Err(e) => veq!(e.kind, k, "the error of unpack({t:?})"),
        Ok(v) => vbail!("unpack({t:?}) gave {v:?}"),
    }
    case.count("templates_refused");
    Ok(())
}

/// Strings passed by address come back.
fn pointers(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Verdict {
    let n = case.rng.us(4);
    let strs: Vec<Option<Vec<u8>>> = (0..n)
        .map(|_| {
            let b: Vec<u8> = bytes(case, 30).into_iter().filter(|c| *c != 0).collect();
            if case.rng.chance(1, 6) { None } else { Some(b) }
        })
        .collect();
    let vals: Vec<Value> = strs.iter().map(|s| s.as_ref().map_or(Value::nil(), |b| Value::bytes(b.clone()))).collect();
    let t = if case.rng.chance(1, 2) { "p*".to_string() } else { format!("p{n}") };
    case.op(|| format!("{vals:?}.pack({t:?})"));
    let v = match pack::pack(vm, g, &vals, &t, None) {
        Ok(v) => v,
        Err(e) => vbail!("pack({t:?}) of {vals:?}: {e:?}"),
    };
    let b = v.as_rstring_inner().as_bytes().to_vec();
    veq!(b.len(), 8 * n, "bytes of {vals:?}.pack({t:?})");
    let v = match pack::unpack(&b, &t, false, 0) {
        Ok(v) => v,
        Err(e) => vbail!("unpack({t:?}): {e:?}"),
    };
    let back: Vec<Option<Vec<u8>>> = v.as_array().iter().map(|v| v.is_rstring_inner().map(|s| s.as_bytes().to_vec())).collect();
    veq!(back, strs, "strings passed by address through {t:?}");
    // with a length
    let b = bytes(case, 30);
    let k = case.rng.us(b.len() + 3);
    let t = format!("P{k}");
    case.op(|| format!("{}.pack({t:?})", show(&b)));
    let got = pack::pack(vm, g, &[Value::bytes(b.clone())], &t, None);
    match got {
        Err(e) if k > b.len() => veq!(e.kind, Kind::Argument, "the error of a P longer than its string"),
        Err(e) => vbail!("pack({t:?}) of {}: {e:?}", show(&b)),
        Ok(_) if k > b.len() => vbail!("pack({t:?}) accepted a string of {} bytes", b.len()),
        Ok(v) => {
            let a = v.as_rstring_inner().as_bytes().to_vec();
            match pack::unpack(&a, &t, false, 0) {
                Ok(v) => veq!(show(v.as_array()[0].as_rstring_inner().as_bytes()), show(&b[..k]), "a string passed by address"),
                Err(e) => vbail!("unpack({t:?}): {e:?}"),
            }
        }
    }
    case.count("addresses_followed");
    Ok(())
}

/// Any text at all is answered or refused.
fn garbage(case: &mut Case, vm: &mut Executor, g: &mut Globals) -> Verdict {
    let n = case.rng.us(12);
    let mut digits = 0;
    let mut t = String::new();
    for _ in 0..n {
        let c = *case.rng.pick(b"aAZbBhHcCsSiIlLqQjJnNvVdDfFeEgGUwRrxX@^mMu*!_<>0123456789 \n#y%");
        if c.is_ascii_digit() {
            digits += 1;
            if digits > 2 {
                continue;
            }
        } else {
            digits = 0;
        }
        t.push(c as char);
    }
    let b = data(case);
    let copy: Box<[u8]> = b.into_boxed_slice();
    case.op(|| format!("any template {t:?}"));
    let r = pack::unpack(&copy, &t, case.rng.chance(1, 3), 0);
    let mut args = vec![];
    for _ in 0..case.rng.us(6) {
        args.push(match case.rng.us(3) {
            0 => big(integer(case)),
            1 => Value::bytes(bytes(case, 50)),
            _ => Value::float(float(case)),
        });
    }
    let q = pack::pack(vm, g, &args, &t, None);
    if let Ok(v) = &q {
        string_facts(&format!("result of pack({t:?})"), v.as_rstring_inner())?;
    }
    for e in [r.err(), q.err()].into_iter().flatten() {
        vcheck!(matches!(e.kind, Kind::Argument | Kind::Range | Kind::Type), "template {t:?} raised {e:?}");
    }
    case.count("arbitrary_templates");
    Ok(())
}

fn run(case: &mut Case) -> Verdict {
    heap::reset();
    let mut vm = Executor::default();
    let mut g = Globals::default();
    for _ in 0..30 {
        let r = pack_case(case, &mut vm, &mut g)?;
        if let Some((b, mut ds)) = r {
            if case.rng.chance(1, 2) {
                // repositioning and texts have no mirror image
                ds.retain(|d| !"xX@".contains(d.ch));
                if !ds.is_empty() {
                    unpack_case(case, Some((b, ds)))?;
                    case.count("packed_bytes_read_back");
                }
            }
        }
        unpack_case(case, None)?;
    }
    refused(case, &mut vm, &mut g)?;
    garbage(case, &mut vm, &mut g)?;
    if case.rng.chance(1, 5) {
        pointers(case, &mut vm, &mut g)?;
    }
    case.nontrivial();
    heap::reset();
    Ok(())
}

fn main() {
    vh::main_loop("c31", run);
}
