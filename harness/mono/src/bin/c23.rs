//! C23: identifier interning.
#![allow(dead_code, unused_imports, clippy::all)]
#![feature(cfg_sanitize)]
use std::collections::HashMap;
use std::sync::{Arc, Barrier, Mutex};
use vh::{vbail, vcheck, veq, Case, Rng, Verdict, Violation};

#[path = "/repo/monoruby/src/id_table.rs"]
mod id_table;
use id_table::{IdentId, IdentName};

pub mod ast {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum CmpKind { Eq, Ne, Lt, Le, Gt, Ge, TEq }
}
pub mod bytecodegen {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum BinOpK { Add, Sub, Mul, Div, BitOr, BitAnd, BitXor, Rem, Exp, Shl, Shr }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum UnOpK { Neg, Pos, BitNot, Not }
}
pub mod value {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Encoding { Ascii8, Utf8, UsAscii, EucJp, Utf16Le, Sjis }
}
use value::Encoding;
const ENCS: [Encoding; 6] = [Encoding::Ascii8, Encoding::Utf8, Encoding::UsAscii, Encoding::EucJp, Encoding::Utf16Le, Encoding::Sjis];

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Name {
    S(String),
    B(Vec<u8>, Encoding),
}
impl Name {
    fn bytes(&self) -> &[u8] {
        match self {
            Name::S(s) => s.as_bytes(),
            Name::B(b, _) => b,
        }
    }
    fn intern(&self, how: usize) -> IdentId {
        match self {
            Name::S(s) if how % 2 == 0 => IdentId::get_id(s),
            Name::S(s) => IdentId::get_id_from_string(s.clone()),
            Name::B(b, e) => IdentId::get_id_from_bytes(b.clone(), *e),
        }
    }
}

/// Everything ever interned by this process.
#[derive(Default)]
struct Ledger {
    ids: HashMap<Name, u32>,
    names: HashMap<u32, Name>,
    list: Vec<Name>,
}
impl Ledger {
    fn record(&mut self, n: &Name, id: IdentId) -> Verdict {
        let raw = u32::from(id);
        match self.ids.get(n) {
            Some(old) => veq!(raw, *old, "identifier of {n:?} interned before"),
            None => {
                if let Some(o) = self.names.get(&raw) {
                    vbail!("{n:?} was given the identifier of {o:?}");
                }
                self.ids.insert(n.clone(), raw);
                self.names.insert(raw, n.clone());
                self.list.push(n.clone());
            }
        }
        Ok(())
    }
}

fn back(n: &Name, id: IdentId) -> Verdict {
    let back = id.get_ident_name_clone();
    veq!(back.as_bytes(), n.bytes(), "name read back for {n:?}");
    veq!(back.is_ascii(), n.bytes().is_ascii(), "is_ascii of {n:?}");
    match n {
        Name::S(s) => {
            vcheck!(back.is_utf8(), "{n:?} came back as raw bytes");
            veq!(back.as_str(), Some(s.as_str()), "text of {n:?}");
            veq!(&id.get_name(), s, "name of {n:?}");
            veq!(&format!("{id}"), s, "display of {n:?}");
            veq!(&format!("{id:?}"), s, "debug of {n:?}");
            veq!(&back.to_string_lossy(), s, "text of {n:?}");
            veq!(id.symbol_encoding(), None, "encoding recorded for {n:?}");
        }
        Name::B(b, e) => {
            vcheck!(!back.is_utf8() && back.as_str().is_none(), "{n:?} came back as text");
            veq!(id.get_name(), String::from_utf8_lossy(b).into_owned(), "name of {n:?}");
            veq!(id.symbol_encoding(), Some(*e), "encoding recorded for {n:?}");
        }
    }
    let raw = u32::from(id);
    veq!(usize::from(id), raw as usize, "numeric value");
    vcheck!(IdentId::from(raw) == id, "identifier from its number");
    Ok(())
}

fn name(r: &mut Rng, l: &Ledger, fresh: &mut u64) -> Name {
    match r.us(10) {
        0 | 1 if !l.list.is_empty() => r.pick(&l.list).clone(),
        2 => {
            // close relatives of a known name
            if l.list.is_empty() {
                return Name::S(String::new());
            }
            match r.pick(&l.list).clone() {
                Name::S(s) => match r.us(5) {
                    0 => Name::B(s.into_bytes(), *r.pick(&ENCS)),
                    1 => Name::S(s.to_uppercase()),
                    2 => Name::S(format!("{s}\0")),
                    3 => Name::S(format!(" {s}")),
                    _ => Name::S(s.chars().rev().collect()),
                },
                Name::B(b, _) => match r.us(3) {
                    0 => Name::B(b, *r.pick(&ENCS)),
                    1 => Name::S(String::from_utf8_lossy(&b).into_owned()),
                    _ => match String::from_utf8(b) {
                        Ok(s) => Name::S(s),
                        Err(e) => Name::B(e.into_bytes(), Encoding::Utf8),
                    },
                },
            }
        }
        3 => {
            *fresh += 1;
            Name::S(format!("n{}", *fresh))
        }
        4 | 5 => {
            let n = r.us(6);
            Name::B((0..n).map(|_| *r.pick(&[0u8, b'a', b'@', b'=', 0x80, 0xff, 0xc3, 0xa9])).collect(), *r.pick(&ENCS))
        }
        6 => Name::S(PREDEF[r.us(PREDEF.len())].1.to_string()),
        7 => {
            let n = r.us(5);
            Name::S((0..n).map(|_| *r.pick(&['a', 'b', '_', '@', '$', '=', '?', '!', 'é', '日', '\u{1f600}', '\0', '/', '-', '0'])).collect())
        }
        8 => Name::S(format!("{}{}", r.pick(&["@", "@@", "$", "", "$-", "/"]), r.pick(&["a", "b", "stdout", "VERBOSE", "0", "v", "name", ""]))),
        _ => {
            let n = r.us(60);
            Name::S((0..n).map(|_| (b'a' + r.us(26) as u8) as char).collect())
        }
    }
}

const PREDEF: &[(IdentId, &str)] = &[
    (IdentId::INITIALIZE, "initialize"), (IdentId::OBJECT, "Object"), (IdentId::NEW, "new"), (IdentId::NAME, "name"),
    (IdentId::_ADD, "+"), (IdentId::_SUB, "-"), (IdentId::_MUL, "*"), (IdentId::_DIV, "/"), (IdentId::_REM, "%"), (IdentId::_POW, "**"),
    (IdentId::_SHL, "<<"), (IdentId::_SHR, ">>"), (IdentId::_BOR, "|"), (IdentId::_BAND, "&"), (IdentId::_BXOR, "^"), (IdentId::_BNOT, "~"),
    (IdentId::_UMINUS, "-@"), (IdentId::_UPLUS, "+@"), (IdentId::_EQ, "=="), (IdentId::_NEQ, "!="), (IdentId::_GT, ">"), (IdentId::_GE, ">="),
    (IdentId::_LT, "<"), (IdentId::_LE, "<="), (IdentId::_CMP, "<=>"), (IdentId::_TEQ, "==="), (IdentId::_MATCH, "=~"), (IdentId::_INDEX, "[]"),
    (IdentId::_INDEX_ASSIGN, "[]="), (IdentId::_DOT3, "..."), (IdentId::TO_S, "to_s"), (IdentId::TO_PROC, "to_proc"),
    (IdentId::METHOD_MISSING, "method_missing"), (IdentId::EACH, "each"), (IdentId::MAP, "map"), (IdentId::FLOAT_SECOND, "float_second"),
    (IdentId::SECOND, "second"), (IdentId::FLOAT_MILLISECOND, "float_millisecond"), (IdentId::MILLISECOND, "millisecond"),
    (IdentId::FLOAT_MICROSECOND, "float_microsecond"), (IdentId::MICROSECOND, "microsecond"), (IdentId::NANOSECOND, "nanosecond"),
    (IdentId::ENCODING, "Encoding"), (IdentId::UTF_8, "UTF_8"), (IdentId::ASCII_8BIT, "ASCII_8BIT"), (IdentId::TO_ARY, "to_ary"),
    (IdentId::TO_A, "to_a"), (IdentId::ALLOCATE, "allocate"), (IdentId::METHOD_ADDED, "method_added"), (IdentId::HASH, "hash"),
    (IdentId::EQL_, "eql?"), (IdentId::TO_STR, "to_str"), (IdentId::TO_PATH, "to_path"), (IdentId::SINGLETON_METHOD_ADDED, "singleton_method_added"),
    (IdentId::METHOD_REMOVED, "method_removed"), (IdentId::METHOD_UNDEFINED, "method_undefined"), (IdentId::CONST_ADDED, "const_added"),
    (IdentId::INHERITED, "inherited"), (IdentId::APPEND_FEATURES, "append_features"), (IdentId::EXTEND_OBJECT, "extend_object"),
    (IdentId::EXTENDED, "extended"), (IdentId::INCLUDED, "included"), (IdentId::PREPENDED, "prepended"), (IdentId::_UNMATCH, "!~"),
    (IdentId::_NOT, "!"), (IdentId::INSPECT, "inspect"), (IdentId::SINGLETON_METHOD_REMOVED, "singleton_method_removed"),
    (IdentId::SINGLETON_METHOD_UNDEFINED, "singleton_method_undefined"), (IdentId::TO_INT, "to_int"), (IdentId::TO_F, "to_f"),
    (IdentId::INITIALIZE_COPY, "initialize_copy"), (IdentId::INITIALIZE_CLONE, "initialize_clone"), (IdentId::INITIALIZE_DUP, "initialize_dup"),
    (IdentId::RESPOND_TO_MISSING_, "respond_to_missing?"),
    (IdentId::GVAR_CHILD_STATUS, "$?"), (IdentId::GVAR_ARGF, "$<"), (IdentId::GVAR_FILENAME, "$FILENAME"), (IdentId::GVAR_IRS, "$/"),
    (IdentId::GVAR_IRS_ALIAS, "$-0"), (IdentId::GVAR_ORS, "$\\"), (IdentId::GVAR_OFS, "$,"), (IdentId::GVAR_FS, "$;"), (IdentId::GVAR_LINENO, "$."),
    (IdentId::GVAR_STDOUT, "$stdout"), (IdentId::GVAR_STDERR, "$stderr"), (IdentId::GVAR_VERBOSE, "$VERBOSE"), (IdentId::GVAR_VERBOSE_V, "$-v"),
    (IdentId::GVAR_VERBOSE_W, "$-w"), (IdentId::GVAR_PROGRAM_NAME0, "$0"), (IdentId::GVAR_PROGRAM_NAME, "$PROGRAM_NAME"),
];

fn predefined(l: &mut Ledger, case: &mut Case) -> Verdict {
    for (id, n) in PREDEF {
        veq!(&id.get_name(), n, "name of a predefined identifier");
        let how = case.rng.us(2);
        let nm = Name::S(n.to_string());
        vcheck!(nm.intern(how) == *id, "interning {n:?} does not give the predefined identifier");
        l.record(&nm, *id)?;
        back(&nm, *id)?;
        case.count("predefined_checked");
    }
    use ast::CmpKind::*;
    for (k, n) in [(Eq, "=="), (Ne, "!="), (Lt, "<"), (Le, "<="), (Gt, ">"), (Ge, ">="), (TEq, "===")] {
        veq!(IdentId::from(k).get_name(), n.to_string(), "operator name of {k:?}");
    }
    use bytecodegen::BinOpK as B;
    for (k, n) in [
        (B::Add, "+"), (B::Sub, "-"), (B::Mul, "*"), (B::Div, "/"), (B::BitOr, "|"), (B::BitAnd, "&"), (B::BitXor, "^"), (B::Rem, "%"), (B::Exp, "**"), (B::Shl, "<<"), (B::Shr, ">>"),
    ] {
        veq!(IdentId::from(k).get_name(), n.to_string(), "operator name of {k:?}");
    }
    use bytecodegen::UnOpK as U;
    for (k, n) in [(U::Neg, "-@"), (U::Pos, "+@"), (U::BitNot, "~"), (U::Not, "!")] {
        veq!(IdentId::from(k).get_name(), n.to_string(), "operator name of {k:?}");
    }
    Ok(())
}

fn special(n: &Name, id: IdentId) -> Verdict {
    let want = matches!(n, Name::S(s) if s.starts_with('$') && PREDEF.iter().any(|p| p.1 == s));
    veq!(id.is_special_gvar(), want, "special global variable: {n:?}");
    if want {
        veq!(id.special_gvar_name().as_bytes(), n.bytes(), "name of a special global variable");
    }
    Ok(())
}

fn sequential(l: &mut Ledger, case: &mut Case, fresh: &mut u64) -> Verdict {
    let steps = 20 + case.rng.us(60);
    for _ in 0..steps {
        let n = name(&mut case.rng, l, fresh);
        case.sig_bytes(n.bytes());
        match case.rng.us(8) {
            0 | 1 | 2 | 3 => {
                let how = case.rng.us(2);
                let known = l.ids.contains_key(&n);
                let id = n.intern(how);
                case.op(|| format!("intern {n:?} -> {}", u32::from(id)));
                l.record(&n, id)?;
                back(&n, id)?;
                special(&n, id)?;
                case.count(if known { "known_names" } else { "new_names" });
                if let Name::B(..) = n {
                    case.count("byte_names");
                }
            }
            4 => {
                let Name::S(s) = &n else { continue };
                let id = n.intern(0);
                l.record(&n, id)?;
                let (d, want) = if case.rng.chance(1, 2) {
                    (IdentId::add_ivar_prefix(id), format!("@{s}"))
                } else {
                    (IdentId::add_assign_postfix(id), format!("{s}="))
                };
                let want = Name::S(want);
                case.op(|| format!("derive {want:?}"));
                l.record(&want, d)?;
                back(&want, d)?;
                case.count("derived_names");
            }
            5 => {
                if l.list.len() < 2 {
                    continue;
                }
                let a = case.rng.pick(&l.list).clone();
                let b = if case.rng.chance(1, 4) { a.clone() } else { case.rng.pick(&l.list).clone() };
                let (x, y) = (a.intern(0), b.intern(1));
                veq!(x.compare(&y), a.bytes().cmp(b.bytes()), "order of {a:?} and {b:?}");
                veq!(x == y, a == b, "equality of {a:?} and {b:?}");
                case.count("compared");
            }
            _ => {
                if l.list.is_empty() {
                    continue;
                }
                let a = case.rng.pick(&l.list).clone();
                let id = IdentId::from(l.ids[&a]);
                back(&a, id)?;
                special(&a, id)?;
                case.count("read_back");
            }
        }
    }
    Ok(())
}

/// Threads intern overlapping names at the same time, and read back while others intern.
fn concurrent(l: &mut Ledger, case: &mut Case, fresh: &mut u64) -> Verdict {
    let threads = 2 + case.rng.us(5);
    let n = 10 + case.rng.us(60);
    let mut pool: Vec<Name> = (0..n).map(|_| name(&mut case.rng, l, fresh)).collect();
    for _ in 0..n / 2 {
        *fresh += 1;
        pool.push(if case.rng.chance(1, 2) { Name::S(format!("f{}", *fresh)) } else { Name::B(format!("f{}", *fresh).into_bytes(), *case.rng.pick(&ENCS)) });
    }
    for p in &pool {
        case.sig_bytes(p.bytes());
    }
    let pool = Arc::new(pool);
    let seed = case.rng.next();
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|k| {
            let (pool, bar) = (pool.clone(), bar.clone());
            std::thread::spawn(move || -> Result<Vec<(usize, u32)>, Violation> {
                let mut r = Rng::new(seed, k as u64);
                let mut order: Vec<usize> = (0..pool.len()).collect();
                if r.chance(1, 2) {
                    r.shuffle(&mut order);
                }
                let mut out = vec![];
                bar.wait();
                for i in order {
                    let id = pool[i].intern(r.us(2));
                    out.push((i, u32::from(id)));
                    if r.chance(1, 3) {
                        back(&pool[i], id)?;
                    }
                    if r.chance(1, 8) {
                        let (j, raw) = *r.pick(&out);
                        back(&pool[j], IdentId::from(raw))?;
                    }
                    if let (Name::S(s), true) = (&pool[i], r.chance(1, 8)) {
                        let d = IdentId::add_ivar_prefix(id);
                        veq!(d.get_name(), format!("@{s}"), "instance variable name");
                    }
                }
                Ok(out)
            })
        })
        .collect();
    let rs: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    for r in rs {
        for (i, raw) in r? {
            l.record(&pool[i], IdentId::from(raw))?;
            case.count("interned_concurrently");
        }
    }
    for p in pool.iter() {
        back(p, p.intern(0))?;
        l.record(p, p.intern(0))?;
    }
    case.count("races");
    Ok(())
}

/// The list of all identifiers names each exactly once.
fn listing(l: &mut Ledger, case: &mut Case) -> Verdict {
    let all = IdentId::all_symbols();
    let mut seen: HashMap<(Vec<u8>, Option<Encoding>), u32> = HashMap::new();
    let mut raws = std::collections::HashSet::new();
    for id in &all {
        let raw = u32::from(*id);
        vcheck!(raws.insert(raw), "identifier {raw} is listed twice");
        let n = id.get_ident_name_clone();
        let key = (n.as_bytes().to_vec(), id.symbol_encoding());
        if let Some(o) = seen.insert(key, raw) {
            vbail!("identifiers {o} and {raw} both denote {n:?}");
        }
    }
    for (n, raw) in &l.ids {
        vcheck!(raws.contains(raw), "{n:?} was interned but is not listed");
    }
    case.max("identifiers", all.len() as u64);
    case.count("listings");
    Ok(())
}

fn main() {
    let mut l = Ledger::default();
    let mut fresh = 0u64;
    vh::main_loop("c23", |case| {
        case.nontrivial();
        match case.rng.weighted(&[60, 30, 1, 2]) {
            0 => sequential(&mut l, case, &mut fresh),
            1 => concurrent(&mut l, case, &mut fresh),
            2 => listing(&mut l, case),
            _ => predefined(&mut l, case),
        }
    });
}
