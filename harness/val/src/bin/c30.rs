//! C30: strings against a model of independent byte sequences, with a
//! collector that frees whatever the strings do not keep alive.
#![allow(dead_code, clippy::all)]
use vh::{vbail, vcheck, veq, Case, Verdict, Violation};

#[path = "../mini.rs"]
mod value;
use value::rvalue::string::*;
use value::*;

// ---- the oracle: what a byte sequence means under an encoding -------------

fn ascii_compat(e: Encoding) -> bool {
    use Encoding::*;
    !matches!(e, Utf16Le | Utf16Be | Utf32Le | Utf32Be | Iso2022Jp | Other(_))
}

/// (width, well formed) of the character at the start of `b`.
fn first_char(e: Encoding, b: &[u8]) -> (usize, bool) {
    use Encoding::*;
    let at = |i: usize, lo: u8, hi: u8| b.get(i).is_some_and(|c| (lo..=hi).contains(c));
    match e {
        UsAscii => (1, b[0] < 0x80),
        Ascii8 | Iso8859(_) | Other(_) | NamedByte(_) | Iso2022Jp => (1, true),
        Utf16Le | Utf16Be => {
            if b.len() >= 2 {
                (2, true)
            } else {
                (b.len(), false)
            }
        }
        Utf32Le | Utf32Be => {
            if b.len() >= 4 {
                (4, true)
            } else {
                (b.len(), false)
            }
        }
        EucJp => match b[0] {
            0..=0x7f => (1, true),
            0x8e if at(1, 0xa1, 0xdf) => (2, true),
            0x8f if at(1, 0xa1, 0xfe) && at(2, 0xa1, 0xfe) => (3, true),
            0xa1..=0xfe if at(1, 0xa1, 0xfe) => (2, true),
            _ => (1, false),
        },
        Sjis(_) => match b[0] {
            0..=0x7f | 0xa1..=0xdf => (1, true),
            0x81..=0x9f | 0xe0..=0xfc if at(1, 0x40, 0x7e) || at(1, 0x80, 0xfc) => (2, true),
            _ => (1, false),
        },
        Utf8 => {
            let n = match b[0] {
                0..=0x7f => 1,
                0xc2..=0xdf if at(1, 0x80, 0xbf) => 2,
                0xe0 if at(1, 0xa0, 0xbf) => 3,
                0xed if at(1, 0x80, 0x9f) => 3,
                0xe1..=0xef if b[0] != 0xed && at(1, 0x80, 0xbf) => 3,
                0xf0 if at(1, 0x90, 0xbf) => 4,
                0xf1..=0xf3 if at(1, 0x80, 0xbf) => 4,
                0xf4 if at(1, 0x80, 0x8f) => 4,
                _ => 0,
            };
            if n != 0 && (2..n).all(|i| at(i, 0x80, 0xbf)) {
                (n, true)
            } else {
                (1, false)
            }
        }
    }
}

fn chars(e: Encoding, b: &[u8]) -> Vec<(std::ops::Range<usize>, bool)> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let (w, ok) = first_char(e, &b[i..]);
        v.push((i..i + w, ok));
        i += w;
    }
    v
}

fn valid(e: Encoding, b: &[u8]) -> bool {
    chars(e, b).iter().all(|c| c.1)
}

fn seven(e: Encoding, b: &[u8]) -> bool {
    ascii_compat(e) && b.iter().all(|c| *c < 0x80)
}

fn compat(a: &M, b: &M) -> Option<Encoding> {
    if a.e == b.e || b.b.is_empty() {
        return Some(a.e);
    }
    if a.b.is_empty() {
        return Some(if ascii_compat(a.e) && seven(b.e, &b.b) { a.e } else { b.e });
    }
    if !ascii_compat(a.e) || !ascii_compat(b.e) {
        return None;
    }
    match (seven(a.e, &a.b), seven(b.e, &b.b)) {
        (_, true) => Some(a.e),
        (true, false) => Some(b.e),
        _ => None,
    }
}

#[derive(Clone, Debug)]
struct M {
    b: Vec<u8>,
    e: Encoding,
    frozen: bool,
}

const ENCS: &[Encoding] = &[
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::Ascii8,
    Encoding::UsAscii,
    Encoding::Utf16Le,
    Encoding::Utf16Be,
    Encoding::Utf32Le,
    Encoding::Utf32Be,
    Encoding::Iso8859(1),
    Encoding::Iso8859(15),
    Encoding::EucJp,
    Encoding::Sjis(0),
    Encoding::Sjis(1),
    Encoding::Other(0),
    Encoding::NamedByte(3),
];

fn enc(case: &mut Case) -> Encoding {
    ENCS[case.rng.us(ENCS.len())]
}

fn put_char(case: &mut Case, e: Encoding, out: &mut Vec<u8>) {
    let r = &mut case.rng;
    use Encoding::*;
    match e {
        Utf8 => {
            let c = match r.us(8) {
                0..=2 => 'a' as u32 + r.us(26) as u32,
                3 => r.us(128) as u32,
                4 => 0x80 + r.us(0x780) as u32,
                5 => 0x3041 + r.us(80) as u32,
                6 => *r.pick(&[0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0x7ff, 0x800, 0x200b, 0x1f600]),
                _ => 0x4e00 + r.us(500) as u32,
            };
            let mut buf = [0; 4];
            out.extend_from_slice(char::from_u32(c).unwrap().encode_utf8(&mut buf).as_bytes());
        }
        Utf16Le | Utf16Be => {
            let c = if r.chance(1, 2) { r.us(128) } else { 0x3041 + r.us(90) } as u16;
            out.extend_from_slice(&if e == Utf16Le { c.to_le_bytes() } else { c.to_be_bytes() });
        }
        Utf32Le | Utf32Be => {
            let c = if r.chance(1, 2) { r.us(128) } else { 0x1f600 + r.us(90) } as u32;
            out.extend_from_slice(&if e == Utf32Le { c.to_le_bytes() } else { c.to_be_bytes() });
        }
        EucJp if r.chance(1, 2) => match r.us(3) {
            0 => out.extend_from_slice(&[0x8e, 0xa1 + r.us(0x3f) as u8]),
            1 => {
                let a = 0xa1 + r.us(0x5e) as u8;
                out.extend_from_slice(&[0x8f, a, 0xa1 + r.us(0x5e) as u8])
            }
            _ => {
                let a = 0xa1 + r.us(0x5e) as u8;
                out.extend_from_slice(&[a, 0xa1 + r.us(0x5e) as u8])
            }
        },
        Sjis(_) if r.chance(1, 2) => match r.us(2) {
            0 => out.push(0xa1 + r.us(0x3f) as u8),
            _ => {
                let a = *r.pick(&[0x81, 0x82, 0x9f, 0xe0, 0xfc]);
                out.extend_from_slice(&[a, *r.pick(&[0x40, 0x41, 0x7e, 0x80, 0xa0, 0xfc])])
            }
        },
        _ => out.push(if e != UsAscii && r.chance(1, 3) { 0x80 + r.us(128) as u8 } else { b' ' + r.us(95) as u8 }),
    }
}

fn len(case: &mut Case) -> usize {
    let r = &mut case.rng;
    match r.us(8) {
        0 => 0,
        1 => 1,
        2..=3 => r.us(12),
        4 => 26 + r.us(14),
        _ => r.us(100),
    }
}

/// Content that leans towards what the encoding can hold but does not stop
/// there.
fn content(case: &mut Case, e: Encoding) -> Vec<u8> {
    let n = len(case);
    let style = case.rng.us(8);
    let mut v = vec![];
    for _ in 0..n {
        match style {
            0..=1 => v.push(b' ' + case.rng.us(95) as u8),
            2 => v.push(case.rng.us(256) as u8),
            3 if case.rng.chance(1, 10) => v.push(case.rng.us(256) as u8),
            4 => {
                let c = *case.rng.pick(&[b'#', b'{', b'$', b'@', b'"', b'\\', b'\n', b'\t', 0x1b, 7, 0, b'a', b'x', b'u', 0x7f]);
                v.push(c)
            }
            5 => {
                let c = *case.rng.pick(&[b'a', b'b', 0x80, 0xbf, 0xc3, 0xe3, 0x81, 0x82, 0xa4, 0xa2, 0x8e, 0x8f, 0xf0, 0x9f, 0xff]);
                v.push(c)
            }
            _ => put_char(case, e, &mut v),
        }
        if v.len() >= n && style >= 6 {
            break;
        }
    }
    v
}

struct World {
    store: Store,
    v: Vec<(Value, M)>,
}

fn make(case: &mut Case, e: Encoding, b: &[u8]) -> (RStringInner, M) {
    let mut m = M { b: b.to_vec(), e, frozen: false };
    let utf8 = std::str::from_utf8(b).ok();
    let inner = match case.rng.us(8) {
        0 if utf8.is_some() => {
            m.e = Encoding::Utf8;
            let s = utf8.unwrap();
            match case.rng.us(4) {
                0 => RStringInner::from_str(s),
                1 => RStringInner::from_str_scanned(s),
                2 => RStringInner::from_string(s.to_string()),
                _ => RStringInner::from_string_scanned(s.to_string()),
            }
        }
        1 => {
            m.e = Encoding::Ascii8;
            if case.rng.chance(1, 2) {
                RStringInner::bytes(b)
            } else {
                RStringInner::bytes_from_vec(b.to_vec())
            }
        }
        2 => {
            m.e = if utf8.is_some() { Encoding::Utf8 } else { Encoding::Ascii8 };
            RStringInner::from_vec_scanned(b.to_vec())
        }
        3 if seven(e, b) => RStringInner::from_ascii_bytes(smallvec::SmallVec::from_slice(b), e),
        4 => {
            let mut s = RStringInner::with_encoding_capacity(e, case.rng.us(70));
            if b.is_empty() {
                return (s, m);
            }
            match case.rng.us(2) {
                0 => s.extend_from_slice_merge_cr(b),
                _ => s.extend_from_slice_no_validate(b),
            }
            s
        }
        5..=6 => RStringInner::from_encoding_scanned(b, e),
        _ => RStringInner::from_encoding(b, e),
    };
    (inner, m)
}

fn same(what: &str, got: &RStringInner, m: &M) -> Verdict {
    if got.as_bytes() != &m.b[..] {
        vbail!("{what}: holds {} and should hold {}", show(got.as_bytes()), show(&m.b));
    }
    veq!(got.len(), m.b.len(), "{what}: length");
    veq!(got.encoding(), m.e, "{what}: encoding");
    Ok(())
}

/// What the string says about itself, against a fresh scan.
fn facts(case: &mut Case, what: &str, s: &RStringInner, m: &M) -> Verdict {
    let cs = chars(m.e, &m.b);
    let ok = cs.iter().all(|c| c.1);
    let d = || format!("{what}: {:?} {}", m.e, show(&m.b));
    veq!(s.is_valid_encoding(), ok, "{}: valid encoding", d());
    veq!(s.valid(), ok, "{}: valid", d());
    if !(m.b.is_empty() && !ascii_compat(m.e)) {
        veq!(s.is_ascii_only(), seven(m.e, &m.b), "{}: ascii only", d());
        veq!(s.needs_byte_mapping() , !seven(m.e, &m.b) && !matches!(m.e, Encoding::Utf8 | Encoding::UsAscii | Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be), "{}: byte mapped", d());
    }
    if m.e != Encoding::Iso2022Jp {
        veq!(s.char_length(), cs.len(), "{}: characters", d());
        let got: Vec<&[u8]> = s.iter_char_bytes().collect();
        let want: Vec<&[u8]> = cs.iter().map(|c| &m.b[c.0.clone()]).collect();
        if got != want {
            vbail!("{}: splits into {got:x?} and not {want:x?}", d());
        }
        let i = case.rng.us(cs.len() + 1);
        let n = case.rng.us(cs.len() - i + 3);
        let at = |k: usize| if k >= cs.len() { m.b.len() } else { cs[k].0.start };
        let want = at(i)..at(i + n);
        let got = s.get_range(i, n);
        if got != want && !(got.is_empty() && want.is_empty() && i == cs.len()) {
            vbail!("{}: characters {i}, {n} long, are bytes {want:?}, was given {got:?}", d());
        }
        let p = case.rng.range(0, 2 * cs.len() as u64 + 6) as i64 - cs.len() as i64 - 3;
        let want = if p >= 0 { (p <= cs.len() as i64).then_some(p as usize) } else { (p + cs.len() as i64 >= 0).then(|| (p + cs.len() as i64) as usize) };
        veq!(s.conv_char_index(p), want, "{}: position {p}", d());
        let want = if p >= 0 || (p == -1 && cs.is_empty()) { Some(p.max(0) as usize) } else { want };
        veq!(s.conv_char_index2(p), want, "{}: open position {p}", d());
    }
    let utf8 = std::str::from_utf8(&m.b);
    let got = s.check_utf8();
    if got.is_ok() != utf8.is_ok() || got.is_ok_and(|s| s.as_bytes() != &m.b[..]) {
        vbail!("{}: taken as UTF-8: {}", d(), s.check_utf8().is_ok());
    }
    let bytes_ok = matches!(m.e, Encoding::Utf8 | Encoding::UsAscii);
    match s.first_code() {
        Ok(c) => {
            let want = if bytes_ok { utf8.unwrap().chars().next().unwrap() as u32 } else { m.b[0] as u32 };
            veq!(c, want, "{}: first code", d());
        }
        Err(_) => vcheck!(m.b.is_empty() || (bytes_ok && utf8.is_err()), "{}: first code refused", d()),
    }
    if let (Ok(t), true) = (utf8, case.rng.chance(1, 3)) {
        let p = case.rng.us(m.b.len() + 2);
        let want = t.char_indices().position(|(i, _)| i == p);
        veq!(s.byte_to_char_index(p).ok(), want, "{}: character at byte {p}", d());
    }
    match s.regex_view() {
        Ok(v) => {
            if s.needs_byte_mapping() {
                let back = RStringInner::from_mapped_utf8(&v, m.e);
                same(&format!("{} mapped and back", d()), &back, m)?;
                veq!(v.chars().count(), m.b.len(), "{}: one character per byte", d());
            } else {
                vcheck!(v.as_bytes() == &m.b[..], "{}: view differs", d());
            }
        }
        Err(_) => vcheck!(utf8.is_err(), "{}: no view of valid text", d()),
    }
    case.count(if ok { "scans_valid" } else { "scans_broken" });
    Ok(())
}

/// Read a rendered string back.
fn unescape(t: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut put = |out: &mut Vec<u8>, cp: u32| {
        let mut b = [0; 4];
        char::from_u32(cp).map(|c| out.extend_from_slice(c.encode_utf8(&mut b).as_bytes()))
    };
    while i < c.len() {
        if c[i] == '"' || (c[i].is_ascii() && (c[i] as u8) < 32) {
            return None;
        }
        if c[i] == '#' && matches!(c.get(i + 1), Some('$' | '@' | '{')) {
            return None;
        }
        if c[i] != '\\' {
            put(&mut out, c[i] as u32)?;
            i += 1;
            continue;
        }
        i += 2;
        let hex = |a: usize, b: usize| -> Option<u32> { u32::from_str_radix(&c.get(a..b)?.iter().collect::<String>(), 16).ok() };
        match *c.get(i - 1)? {
            'n' => out.push(10),
            't' => out.push(9),
            'r' => out.push(13),
            'f' => out.push(12),
            'v' => out.push(11),
            'b' => out.push(8),
            'a' => out.push(7),
            'e' => out.push(27),
            x @ ('"' | '\\' | '#') => out.push(x as u8),
            'x' if c.get(i) == Some(&'{') => {
                let e = i + c[i..].iter().position(|c| *c == '}')?;
                let mut k = i + 1;
                while k < e {
                    out.push(hex(k, k + 2)? as u8);
                    k += 2;
                }
                i = e + 1;
            }
            'x' => {
                out.push(hex(i, i + 2)? as u8);
                i += 2;
            }
            'u' if c.get(i) == Some(&'{') => {
                let e = i + c[i..].iter().position(|c| *c == '}')?;
                put(&mut out, hex(i + 1, e)?)?;
                i = e + 1;
            }
            'u' => {
                put(&mut out, hex(i, i + 4)?)?;
                i += 4;
            }
            _ => return None,
        }
    }
    Some(out)
}

fn rendered(case: &mut Case, s: &RStringInner, m: &M) -> Verdict {
    let (dump, ins) = (s.dump(), s.inspect());
    let wide = matches!(m.e, Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be);
    let what = format!("{:?} {}", m.e, show(&m.b));
    match unescape(&dump) {
        Some(b) if b == m.b => {}
        b => vbail!("{what}: dumped as {dump:?}, which reads as {:?}", b.map(|b| show(&b))),
    }
    vcheck!(dump.bytes().all(|c| (32..127).contains(&c)), "{what}: dump {dump:?} is not plain");
    if wide {
        if valid(m.e, &m.b) {
            let mut want = vec![];
            for (c, _) in chars(m.e, &m.b) {
                let c = &m.b[c];
                let cp = match m.e {
                    Encoding::Utf16Le => u16::from_le_bytes([c[0], c[1]]) as u32,
                    Encoding::Utf16Be => u16::from_be_bytes([c[0], c[1]]) as u32,
                    Encoding::Utf32Le => u32::from_le_bytes(c.try_into().unwrap()),
                    _ => u32::from_be_bytes(c.try_into().unwrap()),
                };
                match char::from_u32(cp) {
                    Some(c) => want.extend_from_slice(c.to_string().as_bytes()),
                    None => return Ok(()),
                }
            }
            match unescape(&ins) {
                Some(b) if b == want => case.count("wide_strings_read_back"),
                b => vbail!("{what}: inspected as {ins:?}, which reads as {:?}", b.map(|b| show(&b))),
            }
        }
        return Ok(());
    }
    match unescape(&ins) {
        Some(b) if b == m.b => {}
        b => vbail!("{what}: inspected as {ins:?}, which reads as {:?}", b.map(|b| show(&b))),
    }
    if m.e == Encoding::Utf8 {
        // what has a glyph is shown, everything else is spelled out
        if let Ok(t) = std::str::from_utf8(&m.b) {
            for c in t.chars().filter(|c| matches!(*c as u32, 0xc0..=0x17f | 0x3041..=0x3096 | 0x4e00..=0x9fa5 | 0x1f600..=0x1f64f)) {
                vcheck!(ins.contains(c), "{what}: {c} is not shown in {ins:?}");
            }
            for c in t.chars().filter(|c| matches!(*c as u32, 0x80..=0x9f | 0x200b | 0xffff | 0x10ffff | 0xe000)) {
                vcheck!(!ins.contains(c), "{what}: {c:?} is shown in {ins:?}");
            }
        }
    } else {
        vcheck!(ins.is_ascii(), "{what}: inspected as {ins:?}");
    }
    case.count("renderings_read_back");
    Ok(())
}

fn pick(case: &mut Case, w: &World) -> usize {
    case.rng.us(w.v.len())
}

/// A cut of the string, often on character boundaries.
fn cut(case: &mut Case, m: &M) -> (usize, usize) {
    let n = m.b.len();
    if case.rng.chance(2, 3) {
        let mut at: Vec<usize> = chars(m.e, &m.b).iter().map(|c| c.0.start).collect();
        at.push(n);
        let k = at.len() as u64;
        let mut a = case.rng.below(k) as usize;
        let mut b = case.rng.below(k) as usize;
        if case.rng.chance(1, 4) {
            a = 0;
        }
        if case.rng.chance(1, 4) {
            b = at.len() - 1;
        }
        (at[a.min(b)], at[a.max(b)])
    } else {
        let a = case.rng.us(n + 1);
        let b = case.rng.us(n + 1);
        (a.min(b), a.max(b))
    }
}

fn step(case: &mut Case, w: &mut World) -> Verdict {
    vh::step();
    let _ = heap::take_barriers();
    let roots_before: Vec<_> = w.v.iter().map(|(v, _)| v.as_rstring_inner().shared_root()).collect();
    let i = pick(case, w);
    let j = pick(case, w);
    let (val, m) = w.v[i].clone();
    let mut target = val;
    let mutable = !m.frozen;
    let mut changed = i;
    match case.rng.us(28) {
        0 => {
            let e = enc(case);
            let b = content(case, e);
            let (s, m) = make(case, e, &b);
            case.op(|| format!("new {:?} {}", m.e, show(&m.b)));
            changed = w.v.len();
            w.v.push((Value::string_from_inner(s), m));
        }
        1..=4 => {
            let (a, b) = cut(case, &m);
            case.op(|| format!("#{i}[{a}..{b}]"));
            let nm = M { b: m.b[a..b].to_vec(), e: m.e, frozen: false };
            let v = if case.rng.chance(1, 5) {
                Value::string_from_inner(RStringInner::from_substring(val.as_rstring_inner(), a, b))
            } else {
                string_substring(val, a, b)
            };
            if v.as_rstring_inner().is_shared() {
                case.count("substrings_sharing_a_buffer");
            }
            changed = w.v.len();
            w.v.push((v, nm));
        }
        5 => {
            case.op(|| format!("dup #{i}"));
            changed = w.v.len();
            w.v.push((Value::string_from_inner(val.as_rstring_inner().clone()), M { frozen: false, ..m }));
        }
        6 => {
            case.op(|| format!("snapshot #{i}"));
            let v = string_snapshot(val);
            vcheck!(v.is_frozen(), "snapshot of #{i} is not frozen");
            changed = w.v.len();
            w.v.push((v, M { frozen: true, ..m }));
            case.count("snapshots");
        }
        7 => {
            case.op(|| format!("share #{i}"));
            share_string_buffer(&mut target);
        }
        8 if mutable => {
            case.op(|| format!("detach #{i}"));
            target.as_rstring_inner_mut().detach();
            vcheck!(!val.as_rstring_inner().is_shared(), "#{i} is still shared after being detached");
        }
        9 if case.rng.chance(1, 3) => {
            case.op(|| format!("freeze #{i}"));
            target.set_frozen();
            w.v[i].1.frozen = true;
        }
        10..=11 if mutable && !m.b.is_empty() => {
            let k = case.rng.us(m.b.len());
            let b = if case.rng.chance(1, 2) { b'a' + case.rng.us(26) as u8 } else { case.rng.us(256) as u8 };
            case.op(|| format!("#{i}.setbyte {k} {b:#x}"));
            target.as_rstring_inner_mut().set_byte(k, b);
            w.v[i].1.b[k] = b;
            case.count("writes");
        }
        12..=15 if mutable => {
            let mut other = w.v[j].1.clone();
            let o = if case.rng.chance(1, 3) {
                let e = if case.rng.chance(1, 2) { m.e } else { enc(case) };
                let b = content(case, e);
                let (s, m) = make(case, e, &b);
                other = m;
                s
            } else {
                w.v[j].0.as_rstring_inner().clone()
            };
            let want = compat(&m, &other);
            veq!(val.as_rstring_inner().compatible_encoding(&o), want, "{m:?} with {other:?}");
            case.op(|| format!("#{i} << {:?} {}", other.e, show(&other.b)));
            let got = target.as_rstring_inner_mut().extend(&o, &w.store);
            match (got, want) {
                (Ok(()), Some(e)) => {
                    w.v[i].1.b.extend_from_slice(&other.b);
                    if !other.b.is_empty() {
                        w.v[i].1.e = e;
                    }
                    if e != m.e {
                        case.count("appends_that_changed_the_encoding");
                    }
                    case.count("appends");
                }
                (Err(e), None) => {
                    veq!(e.kind, Kind::Compat, "kind of error");
                    case.count("incompatible_appends_refused");
                }
                (Err(_), Some(_)) if other.b.is_empty() => vbail!("appending nothing was refused"),
                (g, wnt) => vbail!("appending {other:?} to {m:?} gave {g:?}, expected {wnt:?}"),
            }
        }
        16 if mutable => {
            let e = if case.rng.chance(1, 2) { m.e } else { Encoding::Utf8 };
            let b = content(case, e);
            let s = target.as_rstring_inner_mut();
            match case.rng.us(3) {
                0 => {
                    case.op(|| format!("#{i} append checked {}", show(&b)));
                    let bad = matches!(m.e, Encoding::Utf8 | Encoding::UsAscii) && std::str::from_utf8(&b).is_err();
                    let got = s.extend_from_slice_checked(&b);
                    veq!(got.is_err(), bad, "{:?}: appending {} checked", m.e, show(&b));
                    if !bad {
                        w.v[i].1.b.extend_from_slice(&b);
                    }
                }
                1 => {
                    case.op(|| format!("#{i} append merged {}", show(&b)));
                    s.extend_from_slice_merge_cr(&b);
                    w.v[i].1.b.extend_from_slice(&b);
                }
                _ => {
                    case.op(|| format!("#{i} append raw {}", show(&b)));
                    s.extend_from_slice_no_validate(&b);
                    w.v[i].1.b.extend_from_slice(&b);
                }
            }
            case.count("raw_appends");
        }
        17..=19 if mutable => {
            let (a, b) = cut(case, &m);
            let e = if case.rng.chance(2, 3) { m.e } else { enc(case) };
            let nb = if case.rng.chance(1, 3) { vec![] } else { content(case, e) };
            let (r, rm) = make(case, e, &nb);
            let want = compat(&m, &rm);
            case.op(|| format!("#{i}[{a}..{b}] = {:?} {}", rm.e, show(&rm.b)));
            let got = target.as_rstring_inner_mut().bytesplice_with(a, b - a, &r, &w.store);
            match (got, want) {
                (Ok(()), Some(e)) => {
                    let nm = &mut w.v[i].1;
                    nm.b.splice(a..b, rm.b.iter().copied());
                    nm.e = e;
                    // a text that the splice broke may come back as binary
                    if matches!(e, Encoding::Utf8 | Encoding::UsAscii) && !valid(e, &nm.b) && val.as_rstring_inner().encoding() == Encoding::Ascii8 {
                        nm.e = Encoding::Ascii8;
                    }
                    case.count("splices");
                }
                (Err(e), None) => {
                    veq!(e.kind, Kind::Compat, "kind of error");
                    case.count("incompatible_splices_refused");
                }
                (g, wnt) => vbail!("splicing {rm:?} into {m:?} gave {g:?}, expected {wnt:?}"),
            }
        }
        20 => {
            case.op(|| format!("reverse #{i}"));
            let r = val.as_rstring_inner().reverse();
            let mut b = vec![];
            for c in chars(m.e, &m.b).iter().rev() {
                b.extend_from_slice(&m.b[c.0.clone()]);
            }
            changed = w.v.len();
            w.v.push((Value::string_from_inner(r), M { b, e: m.e, frozen: false }));
            case.count("reversals");
        }
        21 => {
            let n = case.rng.us(4);
            case.op(|| format!("#{i} * {n}"));
            let r = val.as_rstring_inner().repeat(n);
            changed = w.v.len();
            w.v.push((Value::string_from_inner(r), M { b: m.b.repeat(n), e: m.e, frozen: false }));
            case.count("repetitions");
        }
        22 => {
            case.op(|| format!("scrub #{i}"));
            let repl = if m.e == Encoding::Utf8 && case.rng.chance(1, 2) { "\u{fffd}" } else { "?" };
            let r = val.as_rstring_inner().scrub(&RStringInner::from_str(repl));
            let r = r.map_err(|e| Violation(format!("scrub: {e:?}")))?;
            let b = scrubbed(&m, repl.as_bytes());
            if !m.b.is_empty() && b != m.b {
                case.count("scrubs_that_replaced_something");
            }
            changed = w.v.len();
            w.v.push((Value::string_from_inner(r), M { b, e: m.e, frozen: false }));
        }
        23 if mutable => {
            let e = enc(case);
            case.op(|| format!("#{i} tagged {e:?}"));
            target.as_rstring_inner_mut().set_encoding(e);
            w.v[i].1.e = e;
            case.count("re-taggings");
        }
        24 if mutable => {
            case.op(|| format!("C view of #{i}"));
            let n = m.b.len();
            let p = target.as_rstring_inner_mut().nul_terminated_buf_ptr();
            unsafe {
                veq!(*p.add(n), 0, "the byte after #{i}");
                if n > 0 && case.rng.chance(1, 2) && m.b[0] < 0x80 {
                    // a C function writing ASCII over ASCII
                    *p = b'!';
                    w.v[i].1.b[0] = b'!';
                }
            }
            if w.v[i].1.b != m.b && !(ascii_compat(m.e)) {
                target.as_rstring_inner_mut().set_encoding(m.e);
            }
            case.count("C_views");
        }
        25 if std::str::from_utf8(&m.b).is_ok() => {
            // every second match replaced, as gsub does
            let t = std::str::from_utf8(&m.b).unwrap();
            let mut reps = vec![];
            let mut want = vec![];
            let mut last = 0;
            let mut bad = false;
            let gm = M { b: m.b.clone(), e: Encoding::Utf8, frozen: false };
            for (k, c) in t.char_indices() {
                if !case.rng.chance(1, 4) {
                    continue;
                }
                let e = if case.rng.chance(7, 8) { Encoding::Utf8 } else { enc(case) };
                let b = content(case, e);
                let (r, rm) = make(case, e, &b);
                bad |= compat(&gm, &rm).is_none();
                want.extend_from_slice(&m.b[last..k]);
                want.extend_from_slice(&rm.b);
                last = k + c.len_utf8();
                reps.push((k..last, r));
            }
            want.extend_from_slice(&m.b[last..]);
            case.op(|| format!("splice {} pieces into {t:?}", reps.len()));
            match RStringInner::splice_all(&w.store, t, &reps) {
                Ok(r) => {
                    vcheck!(!bad, "incompatible replacement accepted");
                    vcheck!(r.as_bytes() == &want[..], "replaced text is {} and should be {}", show(r.as_bytes()), show(&want));
                    case.count("multiple_splices");
                }
                Err(e) => vcheck!(bad, "replacement refused: {e:?}"),
            }
        }
        26 => {
            let (x, y) = (val.as_rstring_inner(), w.v[j].0.as_rstring_inner());
            let (mx, my) = (&m.b, &w.v[j].1.b);
            veq!(x.cmp(y), mx.cmp(my), "order of {} and {}", show(mx), show(my));
            veq!(x == y, mx == my, "equality of {} and {}", show(mx), show(my));
            let h = |s: &RStringInner| {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                s.hash(&mut h);
                h.finish()
            };
            vcheck!(mx != my || h(x) == h(y), "equal strings with different hashes");
            veq!(check_string_not_modified(val, m.b.len()).is_ok(), true, "unmodified");
            vcheck!(check_string_not_modified(val, m.b.len() + 1).is_err(), "modification missed");
        }
        _ => {
            rendered(case, val.as_rstring_inner(), &m)?;
        }
    }
    // every string still holds what it should
    for (k, (v, m)) in w.v.iter().enumerate() {
        same(&format!("#{k}"), v.as_rstring_inner(), m)?;
        veq!(v.is_frozen(), m.frozen, "#{k} frozen");
    }
    case.count_n("strings_compared", w.v.len() as u64);
    // the collector must hear of every reference a string gained
    let barriers = heap::take_barriers();
    for (k, before) in roots_before.iter().enumerate() {
        let v = w.v[k].0;
        if let Some(root) = v.as_rstring_inner().shared_root() {
            if *before != Some(root) {
                vcheck!(barriers.iter().any(|b| *b == (v, root)), "#{k} came to refer to another object and the collector was not told");
                case.count("references_announced_to_the_collector");
            }
        }
    }
    if case.rng.chance(2, 3) {
        facts(case, &format!("#{changed}"), w.v[changed].0.as_rstring_inner(), &w.v[changed].1.clone())?;
    }
    // forget some strings
    while w.v.len() > 8 || (w.v.len() > 3 && case.rng.chance(1, 12)) {
        let k = case.rng.us(w.v.len());
        w.v.swap_remove(k);
    }
    if case.rng.chance(1, 4) {
        let roots: Vec<Value> = w.v.iter().map(|v| v.0).collect();
        let n = heap::collect(&roots);
        case.count_n("objects_freed", n as u64);
        for (k, (v, m)) in w.v.iter().enumerate() {
            same(&format!("#{k} after a collection"), v.as_rstring_inner(), m)?;
        }
    }
    Ok(())
}

/// Ill-formed parts replaced; in UTF-8 a part is as much of a character as
/// could still have become one.
fn scrubbed(m: &M, repl: &[u8]) -> Vec<u8> {
    if valid(m.e, &m.b) {
        return m.b.clone();
    }
    let mut out = vec![];
    let mut i = 0;
    while i < m.b.len() {
        let (n, ok) = first_char(m.e, &m.b[i..]);
        if ok {
            out.extend_from_slice(&m.b[i..i + n]);
            i += n;
            continue;
        }
        match m.e {
            Encoding::Utf8 => {
                // extend while some continuation would make it a character
                let mut k = 1;
                while i + k < m.b.len() {
                    let mut p = m.b[i..=i + k].to_vec();
                    let could = (0..2).any(|_| {
                        p.push(0x80);
                        first_char(Encoding::Utf8, &p) == (p.len(), true)
                    });
                    if !could {
                        break;
                    }
                    k += 1;
                }
                out.extend_from_slice(repl);
                i += k;
            }
            Encoding::UsAscii | Encoding::EucJp | Encoding::Sjis(_) => {
                out.extend_from_slice(repl);
                i += 1;
            }
            _ => {
                out.extend_from_slice(&m.b[i..i + n]);
                i += n;
            }
        }
    }
    out
}

fn names(case: &mut Case) -> Verdict {
    let all = ENCS.iter().copied().chain((1..=16).filter(|n| *n != 12).map(Encoding::Iso8859)).chain((0..38).map(Encoding::NamedByte)).chain((0..5).map(Encoding::Other));
    let mut seen: Vec<(String, Encoding)> = vec![];
    for e in all {
        let n = e.name();
        if let Some((_, o)) = seen.iter().find(|s| s.0.eq_ignore_ascii_case(n)) {
            veq!(*o, e, "two encodings are called {n}");
        }
        seen.push((n.to_string(), e));
        let spelled: String = n.chars().map(|c| if case.rng.chance(1, 2) { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
        for s in [n, &spelled] {
            match Encoding::try_from_str(s) {
                Ok(x) => veq!(x, e, "encoding named {s}"),
                Err(x) => vbail!("encoding {s} is not known: {x:?}"),
            }
        }
        veq!(e.is_ascii_compatible(), ascii_compat(e), "{n} holds ASCII");
    }
    for s in ["", "UTF-9", "latin", "utf-8\u{3042}", "A-very-long-name-that-is-not-an-encoding-at-all"] {
        vcheck!(Encoding::try_from_str(s).is_err(), "{s} taken for an encoding");
    }
    case.count_n("encoding_names", seen.len() as u64);
    Ok(())
}

fn run(case: &mut Case) -> Verdict {
    heap::reset();
    let before = smallvec::live_buffers();
    {
        let mut w = World { store: Store::default(), v: vec![] };
        if case.rng.chance(1, 50) {
            names(case)?;
        }
        for _ in 0..3 {
            let e = enc(case);
            let b = content(case, e);
            let (s, m) = make(case, e, &b);
            case.op(|| format!("new {:?} {}", m.e, show(&m.b)));
            w.v.push((Value::string_from_inner(s), m));
        }
        let n = if case.thorough { 60 } else { 30 };
        for _ in 0..n {
            step(case, &mut w)?;
        }
        for k in 0..w.v.len() {
            let (v, m) = w.v[k].clone();
            facts(case, &format!("#{k} at the end"), v.as_rstring_inner(), &m)?;
            case.sig_bytes(&m.b);
        }
        case.nontrivial();
    }
    heap::reset();
    veq!(heap::len(), 0, "objects left");
    veq!(smallvec::live_buffers(), before, "string buffers left when every string is gone");
    Ok(())
}

fn main() {
    vh::main_loop("c30", run);
}
