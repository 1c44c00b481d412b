//! C51: ranges and arithmetic sequences, read as the terms they stand for.
//!
//! The native methods of both classes are compiled from the repository and run over
//! whole numbers on both sides of the immediate range, fractions and floats.  What they
//! answer is compared with the terms counted out in exact arithmetic.
#![allow(dead_code, unused_imports)]

#[path = "../seq_world.rs"]
pub mod world;
use world::*;

pub mod rvalue {
    use crate::world::*;
    pub const RVALUE_OFFSET_KIND: usize = 8;
    mod range_file {
        use super::*;
        include!("/repo/monoruby/src/value/rvalue/range.rs");
    }
    mod seq_file {
        use super::*;
        include!("/repo/monoruby/src/value/rvalue/arithmetic_sequence.rs");
    }
    pub use range_file::*;
    pub use seq_file::*;
}
pub mod builtins {
    use crate::inline_gen2;
    use crate::world::*;
    pub mod string {
        /// The next text: the monitor uses single letters only.
        pub fn str_next(s: &str) -> String {
            s.chars().map(|c| (c as u8 + 1) as char).collect()
        }
    }
    use crate::builtins;
    #[path = "/repo/monoruby/src/builtins/arithmetic_sequence.rs"]
    pub mod arithmetic_sequence;
    #[path = "/repo/monoruby/src/builtins/range.rs"]
    pub mod range;
    pub fn init(g: &mut Globals) {
        arithmetic_sequence::init(g);
        range::init(g);
    }
}

use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;
use vh::{Case, Verdict, vbail, vcheck};

struct World {
    vm: Executor,
    g: Globals,
}
fn call(w: &mut World, class: ClassId, name: &'static str, me: Value, args: &[Value], block: bool) -> Result<Value> {
    let Some(&(f, max)) = w.g.funcs.get(&(class.0, name)) else {
        eprintln!("method {name} is not there");
        std::process::exit(3);
    };
    let mut l: Vec<Option<Value>> = args.iter().map(|v| Some(*v)).collect();
    l.resize(l.len().max(max), None);
    f(&mut w.vm, &mut w.g, Lfp::new(me, l, block), BytecodePtr)
}

/// What is kept alive by `inner`.
fn kept(inner: &impl GC<RValue>) -> Vec<Value> {
    let mut alloc = Allocator { marked: vec![], of: std::marker::PhantomData };
    inner.mark(&mut alloc);
    alloc.marked
}

// Numbers of all kinds.
fn span(case: &mut Case, lo: i64, hi: i64) -> i64 {
    lo + case.rng.below((hi - lo) as u64) as i64
}
fn int(case: &mut Case) -> i128 {
    let near = span(case, -6, 7) as i128;
    match case.rng.below(9) {
        0..=4 => span(case, -30, 31) as i128,
        5 => (1 << 62) + near,
        6 => -(1 << 62) + near,
        7 => *case.rng.pick(&[1i128 << 63, -(1 << 63), 1 << 64, -(1 << 64), 1 << 66]) + near,
        _ => span(case, -1_000_000, 1_000_000) as i128,
    }
}
fn float(case: &mut Case) -> f64 {
    match case.rng.below(6) {
        0 | 1 => span(case, -20, 21) as f64 / 2.0,
        2 | 3 => span(case, -50, 51) as f64 / 10.0,
        4 => *case.rng.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
        _ => span(case, -1000, 1001) as f64 / 7.0,
    }
}
fn ratio(case: &mut Case) -> N {
    let (n, d) = reduce(span(case, -40, 41) as i128, span(case, 1, 9) as i128);
    N::Rat(n, d)
}
/// A start, an end that may lie behind it, and a step that fits.
fn ends(case: &mut Case, theme: u64) -> (N, N, N) {
    let terms = span(case, -3, 25) as i128;
    match theme {
        0..=3 => {
            let b = int(case);
            let s = match case.rng.below(8) {
                0 => int(case),
                1 => (1 << 62) + span(case, -3, 4) as i128,
                2 => -(1 << 62) + span(case, -3, 4) as i128,
                3 => (1 << 64) + span(case, -3, 4) as i128,
                _ => span(case, -7, 8) as i128,
            };
            let e = match case.rng.below(4) {
                0 => int(case),
                _ => b + s.saturating_mul(terms) + span(case, -2, 3) as i128,
            };
            (N::Int(b), N::Int(e), N::Int(s))
        }
        4 | 5 => {
            let pick = |case: &mut Case| if case.rng.chance(1, 2) { ratio(case) } else { N::Int(span(case, -20, 21) as i128) };
            (pick(case), pick(case), pick(case))
        }
        6 => {
            let b = span(case, -50, 51) as f64 / 10.0;
            let s = span(case, -9, 10) as f64 / *case.rng.pick(&[10.0, 64.0, 100.0, 1.0]);
            (N::Float(b), N::Float(b + s * terms as f64 + if case.rng.chance(1, 3) { s / 2.0 } else { 0.0 }), N::Float(s))
        }
        _ => {
            let pick = |case: &mut Case| if case.rng.chance(2, 3) { N::Float(float(case)) } else { N::Int(span(case, -20, 21) as i128) };
            (pick(case), pick(case), pick(case))
        }
    }
}
fn floor(n: i128, d: i128) -> i128 {
    n.div_euclid(d)
}
/// How many terms there are; for floats between which numbers, as rounding decides.
enum Many {
    Exactly(i128),
    Within(i128, i128),
    Endless,
    Unclear,
}
fn many(b: N, e: N, s: N, excl: bool) -> Many {
    if let (Some((bn, bd)), Some((en, ed)), Some((sn, sd))) = (b.exact(), e.exact(), s.exact()) {
        // (e - b) / s
        let (n, d) = ((en * bd - bn * ed) * sd, ed * bd * sn);
        let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
        if n < 0 {
            return Many::Exactly(0);
        }
        let k = floor(n, d);
        return Many::Exactly(if excl && k * d == n { k } else { k + 1 });
    }
    let (bf, ef, sf) = (b.f(), e.f(), s.f());
    if bf.is_infinite() {
        return Many::Unclear;
    }
    if sf.is_infinite() {
        let up = sf > 0.0;
        if bf == ef {
            return if excl { Many::Within(0, 1) } else { Many::Exactly(1) };
        }
        return Many::Exactly((up == (bf < ef)) as i128);
    }
    if ef.is_infinite() {
        return if (ef > 0.0) == (sf > 0.0) { Many::Endless } else { Many::Exactly(0) };
    }
    let n = (ef - bf) / sf;
    if n > 1e12 {
        return Many::Unclear;
    }
    let slack = ((bf.abs() + ef.abs() + (ef - bf).abs()) / sf.abs() * f64::EPSILON * 4.0).min(0.5);
    let count = |n: f64| if n < 0.0 { 0 } else if excl { n.ceil() as i128 } else { n.floor() as i128 + 1 };
    if n == 0.0 || bf == ef {
        return Many::Exactly(!excl as i128);
    }
    if n < 0.0 {
        return Many::Exactly(0);
    }
    Many::Within(count(n - slack).min(count(n)), count(n + slack).max(count(n)))
}
/// Whether this is term number `i`.
fn is_term(v: Value, b: N, e: N, s: N, i: i128) -> bool {
    let Some(got) = num_of(v) else { return false };
    let want = b.op("+", N::Int(i).op("*", s).unwrap()).unwrap();
    match (b, e, s) {
        (N::Int(_), N::Int(_), N::Int(_)) => got == want,
        _ if want.exact().is_some() && e.exact().is_some() => got.exact().is_some() && got.cmp(want) == Some(Ordering::Equal),
        // Rounding is not of interest, and the last term may be the end itself.
        _ => {
            let (g, x) = (got.f(), want.f());
            g == x || (g - x).abs() <= 1e-9 * (1.0 + x.abs()) || g.is_nan() && x.is_nan()
        }
    }
}
fn sequences(case: &mut Case, w: &mut World) -> Verdict {
    let theme = case.rng.below(9);
    let (b, e, mut s) = ends(case, theme);
    if case.rng.chance(1, 30) {
        s = *case.rng.pick(&[N::Int(0), N::Float(0.0)]);
    }
    if matches!(s, N::Rat(0, _)) {
        // Such a sequence cannot be made.
        s = N::Int(0);
    }
    let excl = case.rng.chance(1, 2);
    let zero = s.f() == 0.0;
    let bv = if case.rng.chance(1, 25) { Value::nil() } else { b.value() };
    let ev = if case.rng.chance(1, 12) { Value::nil() } else { e.value() };
    let odd = case.rng.chance(1, 40);
    let sv = if odd { Value::string_from_str("x") } else { s.value() };
    let class = ARITHMETIC_SEQUENCE_CLASS;
    let seq = match call(w, class, "__build", Value::nil(), &[bv, ev, sv, Value::bool(excl)], false) {
        Ok(v) => v,
        Err(err) => vbail!("building a sequence raised {err:?}"),
    };
    case.op(|| format!("{seq:?}"));
    for (name, want) in [("begin", bv), ("end", ev), ("step", sv)] {
        let got = call(w, class, name, seq, &[], false);
        vcheck!(matches!(got, Ok(v) if v == want), "{name} of {seq:?} is {got:?}");
    }
    let got = call(w, class, "exclude_end?", seq, &[], false);
    vcheck!(matches!(got, Ok(v) if v.as_bool() == excl), "exclude_end? of {seq:?} is {got:?}");
    let alive = kept(seq.as_arithmetic_sequence_inner());
    vcheck!([bv, ev, sv].iter().all(|v| alive.contains(v)), "of {seq:?} only {alive:?} are kept alive");
    let how = if bv.is_nil() || zero || odd {
        Many::Unclear
    } else if ev.is_nil() {
        Many::Endless
    } else {
        many(b, e, s, excl)
    };
    let (lo, hi) = match how {
        Many::Exactly(n) => (n, n),
        Many::Within(a, b) => (a, b),
        Many::Endless => (i128::MAX, i128::MAX),
        Many::Unclear => (0, i128::MAX),
    };
    let limit = i64::MAX as i128 / 2;
    let finite = hi < limit;

    // size
    let got = call(w, class, *case.rng.pick(&["size", "length"]), seq, &[], false);
    let count = match &got {
        _ if odd || zero => {
            vcheck!(matches!(&got, Err(x) if x.kind == Kind::Argument), "size of {seq:?} gave {got:?}");
            case.count("steps-refused");
            None
        }
        Ok(v) if bv.is_nil() || matches!(how, Many::Endless) => {
            vcheck!(v.try_float() == Some(f64::INFINITY), "size of {seq:?} is {v:?}");
            case.count("endless");
            None
        }
        Ok(v) if finite => {
            let n = v.int().unwrap_or(-1);
            vcheck!((lo..=hi).contains(&n), "size of {seq:?} is {v:?}, must be {}", if lo == hi { lo.to_string() } else { format!("{lo} to {hi}") });
            case.count(if lo == hi { "sizes-exact" } else { "sizes-rounded" });
            Some(n)
        }
        Ok(_) => {
            case.count("sizes-open");
            None
        }
        Err(x) => vbail!("size of {seq:?} raised {x:?}"),
    };

    // first
    let got = call(w, class, "first", seq, &[], false);
    match got {
        Ok(v) if matches!(how, Many::Exactly(0)) && !(excl && b.cmp(e) == Some(Ordering::Equal)) => {
            vcheck!(v.is_nil(), "first of {seq:?}, which has no terms, is {v:?}");
        }
        Ok(v) => vcheck!(matches!(how, Many::Exactly(0)) || lo == 0 || v == bv, "first of {seq:?} is {v:?}"),
        Err(x) => vcheck!(zero || odd || bv.is_nil(), "first of {seq:?} raised {x:?}"),
    }
    for name in ["first", "last"] {
        let n = match case.rng.below(8) {
            0 => 0,
            1 => span(case, -3, 0) as i128,
            2 if finite => *case.rng.pick(&[1i128 << 20, 1 << 40, (1 << 62) - 1]),
            3 => 1 << 62,
            _ => span(case, 1, 12) as i128,
        };
        let mut arg = Value::int_of(n);
        let mut n = n;
        match case.rng.below(12) {
            0 if n.abs() < 1 << 20 => arg = Value::float(n as f64 + if n > 0 { 0.5 } else { 0.0 }),
            1 if n.abs() < 1 << 62 => arg = Value::thing(Some(arg)),
            2 => {
                arg = *case.rng.pick(&[Value::other(), Value::string_from_str("1"), Value::nil(), Value::thing(None)]);
                n = -1;
            }
            _ => {}
        }
        if !finite && n > 100 && n != 1 << 62 {
            continue;
        }
        if finite && hi > 100 && n > 100 && n != 1 << 62 {
            continue;
        }
        let got = call(w, class, name, seq, &[arg], false);
        let what = || format!("{name}({arg:?}) of {seq:?}");
        let endless = matches!(how, Many::Endless);
        if n < 0 || n == 1 << 62 || n > 0 && (zero || odd || bv.is_nil()) || name == "last" && (endless || ev.is_nil()) {
            if n != 0 {
                // Of several reasons to refuse any may come first.
                vcheck!(got.is_err() || name == "last" && n < 0 && zero, "{} gave {got:?}", what());
            }
            if name == "last" && endless && n >= 0 && n != 1 << 62 && !zero && !odd {
                vcheck!(matches!(&got, Err(x) if x.kind == Kind::Range), "{} gave {got:?}", what());
            }
            case.count("refused");
            continue;
        }
        if zero || odd || bv.is_nil() {
            continue;
        }
        let l = match &got {
            Ok(v) if v.list().is_some() => v.list().unwrap(),
            _ if matches!(how, Many::Unclear) => continue,
            _ => vbail!("{} gave {got:?}", what()),
        };
        if matches!(how, Many::Unclear) {
            continue;
        }
        let (a, z) = (lo.min(n), hi.min(n));
        let k = l.len() as i128;
        vcheck!((a..=z).contains(&k), "{} has {k} terms: {l:?}", what());
        let from = match (name, count) {
            ("first", _) => 0,
            (_, Some(c)) => c - k,
            _ => continue,
        };
        for (i, v) in l.iter().enumerate() {
            vcheck!(is_term(*v, b, e, s, from + i as i128), "{}: {l:?} has {v:?} as term {}", what(), from + i as i128);
        }
        case.count(if lo == hi { "terms-exact" } else { "terms-rounded" });
        case.count_n("terms", k as u64);
    }
    let got = call(w, class, "last", seq, &[], false);
    match got {
        Err(x) => vcheck!(zero || odd || bv.is_nil() || matches!(how, Many::Endless | Many::Unclear) , "last of {seq:?} raised {x:?}"),
        Ok(v) => {
            vcheck!(!zero && !ev.is_nil() && !bv.is_nil() && !matches!(how, Many::Endless), "last of {seq:?} answered {v:?}");
            match count {
                Some(0) => vcheck!(v.is_nil(), "last of the empty {seq:?} is {v:?}"),
                Some(c) => vcheck!(is_term(v, b, e, s, c - 1), "last of {seq:?}, which has {c} terms, is {v:?}"),
                None => {}
            }
        }
    }
    case.nontrivial();
    case.sig_bytes(format!("{seq:?}").as_bytes());
    Ok(())
}
/// A sequence as an index.
fn indices(case: &mut Case, w: &mut World) -> Verdict {
    let len = case.rng.us(12) as i64;
    let ary = Value::array_from_vec((0..len).map(|i| Value::integer(1000 + i)).collect());
    let at = |case: &mut Case| match case.rng.below(10) {
        0 | 1 => None,
        2 => Some(*case.rng.pick(&[(1i64 << 62) - 1, -(1 << 62), (1 << 62) - 2, 1 << 40, -(1 << 40)])),
        _ => Some(span(case, -14, 15)),
    };
    let (b, e) = (at(case), at(case));
    let s = match case.rng.below(8) {
        0 => *case.rng.pick(&[(1i64 << 62) - 1, -(1 << 62), 1 << 40, -(1 << 40)]),
        1 => 0,
        2 => 1,
        3 => -1,
        _ => span(case, -5, 6),
    };
    let excl = case.rng.chance(1, 2);
    let v = |x: Option<i64>| x.map_or(Value::nil(), Value::integer);
    let seq = Value::arithmetic_sequence(v(b), v(e), Value::integer(s), excl);
    let what = format!("an array of {len} at {seq:?}");
    case.op(|| what.clone());
    case.sig_bytes(what.as_bytes());
    case.nontrivial();
    let got = call(w, ARITHMETIC_SEQUENCE_CLASS, "[]", seq, &[ary], false);
    if s == 0 {
        return Ok(());
    }
    // Which places are meant, if all of them lie within.
    let place = |x: i64| if x < 0 { x + len } else { x };
    let (from, to) = (b.map(place), e.map(place));
    let inside = |x: i64| (0..len).contains(&x);
    let step = s as i128;
    let start = from.unwrap_or(if s > 0 { 0 } else { len - 1 });
    let stop = to.unwrap_or(if s > 0 { len - 1 } else { 0 });
    let open = e.is_none() && excl && s < 0;
    // An end that counts from the back is made one larger first.
    let wraps = excl && s < 0 && e == Some(-1);
    let sure = inside(start) && inside(stop) && !open && !wraps;
    if s.abs() == 1 && !open && !wraps {
        // Without gaps it is a plain section, read forwards or backwards.
        let ex = (excl && e.is_some()) as i64;
        let (low, high) = if s > 0 { (start, stop.saturating_sub(ex)) } else { (stop.saturating_add(ex), start) };
        let want: Option<Vec<i64>> = (0..=len).contains(&low).then(|| {
            let l = low..=high.min(len - 1);
            if s > 0 { l.collect() } else { l.rev().collect() }
        });
        let l = got.as_ref().ok().and_then(|v| v.list()).map(|l| l.iter().map(|v| v.try_fixnum().unwrap_or(-1) - 1000).collect::<Vec<_>>());
        vcheck!(got.is_ok() && l == want, "{what} gave {got:?}, must be {want:?}");
        case.count("sections");
    }
    let l = match &got {
        Ok(v) if v.is_nil() => {
            vcheck!(!sure && s.abs() == 1, "{what} is nil");
            case.count("outside");
            return Ok(());
        }
        Ok(v) => v.list().expect("an array").iter().map(|v| v.try_fixnum().unwrap_or(-1) - 1000).collect::<Vec<_>>(),
        Err(x) => {
            vcheck!(!sure, "{what} raised {x:?}");
            vcheck!(x.kind == Kind::Range && s.abs() > 1, "{what} raised {x:?}");
            case.count("outside");
            return Ok(());
        }
    };
    vcheck!(l.iter().all(|i| inside(*i)), "{what} has the elements {l:?}");
    vcheck!(l.windows(2).all(|p| p[1] as i128 - p[0] as i128 == step), "{what} has the elements {l:?}");
    if sure {
        let ex = excl && e.is_some();
        let mut want = vec![];
        let mut i = start as i128;
        while (if s > 0 { i <= stop as i128 } else { i >= stop as i128 }) && !(ex && i == stop as i128) {
            want.push(i as i64);
            i += step;
        }
        vcheck!(l == want, "{what} has the elements {l:?}, must have {want:?}");
        case.count("indices-exact");
    }
    Ok(())
}
/// Ranges of integers.
fn ranges(case: &mut Case, w: &mut World) -> Verdict {
    let class = RANGE_CLASS;
    let mut b = int(case);
    let mut e = match case.rng.below(5) {
        0 => int(case),
        _ => b + span(case, -3, 14) as i128,
    };
    if case.rng.chance(1, 40) {
        // From one limit of the immediate integers to the other.
        (b, e) = (-(1 << 62) + span(case, 0, 2) as i128, (1 << 62) - 1 - span(case, 0, 2) as i128);
    }
    let excl = case.rng.chance(1, 2);
    let small = |i: i128| (-(1i128 << 62)..1 << 62).contains(&i);
    let native = small(b) && small(e);
    let r = Value::range(Value::int_of(b), Value::int_of(e), excl);
    let n = (e - b + if excl { 0 } else { 1 }).max(0);
    let short = n <= 40;
    let all: Vec<i128> = if short { (0..n).map(|i| b + i).collect() } else { vec![] };
    let name = *case.rng.pick(&["first", "last", "count", "min", "max", "minmax", "map", "collect", "flat_map", "all?", "entries", "each", "__builtin_min", "__builtin_max"]);
    let must_block = ["map", "collect", "flat_map", "each"].contains(&name);
    let never = ["first", "last", "entries"].contains(&name);
    let with = must_block || !never && case.rng.chance(1, 2);
    if (with || ["entries"].contains(&name)) && !(short && native) {
        return Ok(());
    }
    let k = span(case, -2, 15) as i128;
    let arg = if ["first", "last"].contains(&name) && case.rng.chance(3, 4) { Some(Value::int_of(k)) } else { None };
    if arg.is_some() && (!native || name == "last" && !short) {
        return Ok(());
    }
    // A block that orders or chooses in its own way, and may raise.
    let (salt, modulo) = (case.rng.next(), 2 + case.rng.below(4) as i128);
    let raise_at = if case.rng.chance(1, 6) { 1 + case.rng.us(12) } else { usize::MAX };
    let key = move |i: i128| (i.wrapping_mul(salt as i64 as i128) >> 7).rem_euclid(modulo);
    let half = case.rng.chance(1, 3);
    let answer = move |l: &[i128]| match l {
        [a, b] => {
            let c = key(*a).cmp(&key(*b)) as i64;
            if half { N::Float(c as f64 * 0.5) } else { N::Int(c as i128 * (1 + (salt % 3) as i128)) }
        }
        [a] => N::Int(key(*a)),
        _ => N::Int(0),
    };
    let chooses = ["all?", "count"].contains(&name);
    let flat = name == "flat_map";
    let trace: Rc<RefCell<Vec<Vec<i128>>>> = Rc::default();
    let out = trace.clone();
    w.vm.block = with.then(|| {
        Box::new(move |a: &[Value]| {
            let l: Vec<i128> = a.iter().map(|v| v.int().unwrap_or(i128::MIN)).collect();
            out.borrow_mut().push(l.clone());
            if out.borrow().len() == raise_at {
                return Err(MonorubyErr::new(Kind::Scripted, "raised"));
            }
            let v = answer(&l);
            Ok(match v {
                N::Int(i) if chooses => Value::bool(i != 0),
                N::Int(i) if flat && i % 2 == 0 => Value::array_from_vec((0..i).map(|j| Value::int_of(l[0] + j)).collect()),
                v => v.value(),
            })
        }) as Block
    });
    let what = format!("{name}{} of {r:?}{}", arg.map_or(String::new(), |a| format!("({a:?})")), if with { " with a block" } else { "" });
    case.op(|| what.clone());
    case.sig_bytes(format!("{what} {salt} {modulo}").as_bytes());
    case.nontrivial();
    let args: Vec<Value> = arg.into_iter().collect();
    let got = call(w, class, name, r, &args, with);
    w.vm.block = None;
    vcheck!(w.vm.temps.is_empty(), "{what} left temporaries behind");
    let shown = trace.borrow().clone();
    if shown.len() >= raise_at {
        vcheck!(shown.len() == raise_at && matches!(&got, Err(x) if x.kind == Kind::Scripted), "{what}: the block raised at call {raise_at}, {} were made, and it gave {got:?}", shown.len());
        case.count("raised");
        return Ok(());
    }
    let ints = |l: &[i128]| l.iter().map(|i| Some(*i)).collect::<Vec<_>>();
    let list = |v: &Value| v.list().map(|l| l.iter().map(|v| v.int()).collect::<Vec<_>>());
    let better = |want: Ordering| {
        let mut it = all.iter().copied();
        let mut best = it.next()?;
        for i in it {
            let c = match answer(&[i, best]) {
                N::Int(c) => c.cmp(&0),
                N::Float(f) => f.partial_cmp(&0.0).unwrap(),
                _ => unreachable!(),
            };
            if c == want {
                best = i;
            }
        }
        Some(best)
    };
    let bounds = if n == 0 { (None, None) } else if with { (better(Ordering::Less), better(Ordering::Greater)) } else { (Some(b), Some(if excl { e - 1 } else { e })) };
    let opt = |v: &Value, want: Option<i128>| if want.is_none() { v.is_nil() } else { v.int() == want };
    let fits = match (&got, name) {
        (Err(x), "first" | "last") if k < 0 && arg.is_some() => x.kind == Kind::Argument,
        (Err(x), _) if !native => x.kind == Kind::Runtime && name == "count",
        (Err(_), _) => false,
        (Ok(v), "first") => match arg {
            None => v.int() == Some(b),
            Some(_) if short => list(v) == Some(ints(&all[..(k.max(0) as usize).min(all.len())])),
            Some(_) => list(v) == Some((0..k).map(|i| Some(b + i)).collect()),
        },
        (Ok(v), "last") => match arg {
            None => v.int() == Some(e),
            Some(_) => list(v) == Some(ints(&all[all.len() - (k.max(0) as usize).min(all.len())..])),
        },
        (Ok(v), "count") if with => v.int() == Some(all.iter().filter(|i| key(**i) != 0).count() as i128),
        (Ok(v), "count") => v.int() == Some(n),
        (Ok(v), "min" | "__builtin_min") => opt(v, bounds.0),
        (Ok(v), "max" | "__builtin_max") => opt(v, bounds.1),
        (Ok(v), "minmax") => v.list().is_some_and(|l| l.len() == 2 && opt(&l[0], bounds.0) && opt(&l[1], bounds.1)),
        (Ok(v), "all?") => v.as_bool() == (!with || all.iter().all(|i| key(*i) != 0)),
        (Ok(v), "map" | "collect") => list(v) == Some(all.iter().map(|i| Some(key(*i))).collect()),
        (Ok(v), "flat_map") => {
            let mut l = vec![];
            for i in &all {
                let c = key(*i);
                if c % 2 == 0 { l.extend((0..c).map(|j| Some(i + j))) } else { l.push(Some(c)) }
            }
            list(v) == Some(l)
        }
        (Ok(v), "entries") => list(v) == Some(ints(&all)),
        (Ok(v), _) => *v == r,
    };
    vcheck!(fits, "{what} gave {got:?}");
    if with && ["map", "collect", "flat_map", "each", "count", "all?"].contains(&name) {
        let stop = if name == "all?" { all.iter().position(|i| key(*i) == 0).map_or(all.len(), |p| p + 1) } else { all.len() };
        let want: Vec<Vec<i128>> = all[..stop].iter().map(|i| vec![*i]).collect();
        vcheck!(shown == want, "{what}: the block was called with {shown:?}, must be called with {want:?}");
        case.count("walks");
    }
    case.count(if with { "ranges-with-block" } else { "ranges" });
    Ok(())
}
/// Ranges of letters.
fn letters(case: &mut Case, w: &mut World) -> Verdict {
    let letter = |case: &mut Case| span(case, b'a' as i64, b'm' as i64) as u8;
    let (a, z) = (letter(case), letter(case));
    let excl = case.rng.chance(1, 2);
    let text = |c: u8| Value::string_from_str(&(c as char).to_string());
    let r = Value::range(text(a), text(z), excl);
    let all: Vec<u8> = if excl { (a..z).collect() } else { (a..=z).collect() };
    let of = |v: &Value| v.is_str().map(|s| s.bytes().next().unwrap());
    let name = *case.rng.pick(&["entries", "to_a", "minmax"]);
    let salt = case.rng.next();
    let key = move |c: u8| (c as u64).wrapping_mul(salt | 1) >> 61;
    let raise_at = if case.rng.chance(1, 6) { 1 + case.rng.us(12) } else { usize::MAX };
    let calls = Rc::new(RefCell::new(0));
    let seen = calls.clone();
    let with = name == "minmax";
    w.vm.block = with.then(|| {
        Box::new(move |l: &[Value]| {
            *seen.borrow_mut() += 1;
            if *seen.borrow() == raise_at {
                return Err(MonorubyErr::new(Kind::Scripted, "raised"));
            }
            Ok(Value::integer(key(of(&l[0]).unwrap()).cmp(&key(of(&l[1]).unwrap())) as i64))
        }) as Block
    });
    case.op(|| format!("{name} of {r:?}"));
    case.sig_bytes(format!("{name} {r:?} {salt} {raise_at}").as_bytes());
    case.nontrivial();
    let got = call(w, RANGE_CLASS, name, r, &[], with);
    w.vm.block = None;
    vcheck!(w.vm.temps.is_empty(), "{name} of {r:?} left temporaries behind");
    if *calls.borrow() >= raise_at {
        vcheck!(matches!(&got, Err(x) if x.kind == Kind::Scripted), "{name} of {r:?}: the block raised, and it gave {got:?}");
        case.count("raised");
        return Ok(());
    }
    let got_list = got.as_ref().ok().and_then(|v| v.list()).map(|l| l.iter().map(of).collect::<Vec<_>>());
    let want: Vec<Option<u8>> = if with {
        // Of equals the first.
        vec![all.iter().copied().min_by_key(|c| key(*c)), all.iter().rev().copied().max_by_key(|c| key(*c))]
    } else {
        all.iter().map(|c| Some(*c)).collect()
    };
    vcheck!(got_list.as_ref() == Some(&want), "{name} of {r:?} gave {got:?}, must be {want:?}");
    case.count("letters");
    Ok(())
}
/// What lies within.
fn within(case: &mut Case, w: &mut World) -> Verdict {
    let theme = *case.rng.pick(&[0, 1, 7, 8]);
    let (mut b, mut e, _) = ends(case, theme);
    if case.rng.chance(1, 4) {
        // One end beyond the immediate integers.
        let wide = N::Int((1i128 << 62) + span(case, 0, 1000) as i128);
        if case.rng.chance(1, 2) { e = wide } else { b = wide.op("*", N::Int(-1)).unwrap() }
    }
    let near = |case: &mut Case, n: N| match n {
        N::Int(i) => N::Int(i + span(case, -2, 3) as i128),
        N::Float(f) => *case.rng.pick(&[n, N::Float(f + 0.5), N::Float(f - 0.5)]),
        n => n,
    };
    let x = match case.rng.below(5) {
        0 | 1 => near(case, b),
        2 | 3 => near(case, e),
        _ if case.rng.chance(1, 2) => N::Float(float(case)),
        _ => N::Int(int(case)),
    };
    let bv = if case.rng.chance(1, 8) { None } else { Some(b) };
    let ev = if case.rng.chance(1, 8) { None } else { Some(e) };
    let excl = case.rng.chance(1, 2);
    let name = *case.rng.pick(&["include?", "member?", "==="]);
    let (r, v, want);
    match case.rng.below(8) {
        0 => {
            let letter = |case: &mut Case| span(case, b'a' as i64, b'h' as i64) as u8 as char;
            let (a, z, m) = (letter(case), letter(case), letter(case));
            let text = |c: char| Value::string_from_str(&c.to_string());
            r = Value::range(text(a), text(z), excl);
            v = text(m);
            want = a <= m && if excl { m < z } else { m <= z };
        }
        1 if bv.is_some() || ev.is_some() => {
            r = Value::range(bv.map_or(Value::nil(), |n| n.value()), ev.map_or(Value::nil(), |n| n.value()), excl);
            v = *case.rng.pick(&[Value::string_from_str("1"), Value::other(), Value::nil()]);
            want = false;
        }
        _ => {
            // Where floats are compared, they must be able to tell the numbers apart.
            let wide = |n: N| matches!(n, N::Int(i) if i.abs() > 1 << 50);
            let whole = |n: N| matches!(n, N::Int(_));
            let all = [Some(x), bv, ev];
            let far = |n: N| matches!(n, N::Float(f) if f.abs() < (1i64 << 50) as f64 || f.is_infinite());
            let one = all.iter().flatten().filter(|n| wide(**n)).count() < 2 && all.iter().flatten().all(|n| whole(*n) || far(*n));
            if !one && !all.iter().all(|n| n.is_some_and(whole)) {
                return Ok(());
            }
            r = Value::range(bv.map_or(Value::nil(), |n| n.value()), ev.map_or(Value::nil(), |n| n.value()), excl);
            v = x.value();
            want = bv.is_none_or(|b| matches!(b.cmp(x), Some(Ordering::Less | Ordering::Equal)))
                && ev.is_none_or(|e| match x.cmp(e) {
                    Some(Ordering::Less) => true,
                    Some(Ordering::Equal) => !excl,
                    _ => false,
                });
        }
    }
    case.op(|| format!("{name} of {r:?} and {v:?}"));
    case.sig_bytes(format!("{name} {r:?} {v:?}").as_bytes());
    case.nontrivial();
    let got = call(w, RANGE_CLASS, name, r, &[v], false);
    vcheck!(matches!(got, Ok(x) if x.as_bool() == want), "{name} of {r:?} and {v:?} gave {got:?}");
    case.count(if want { "within" } else { "beyond" });
    Ok(())
}
/// Ends of all kinds: bounds, making ranges, equality.
fn bounds(case: &mut Case, w: &mut World) -> Verdict {
    let class = RANGE_CLASS;
    let theme = case.rng.below(9);
    let (b, e, _) = ends(case, theme);
    let bv = if case.rng.chance(1, 5) { None } else { Some(b) };
    let ev = if case.rng.chance(1, 5) { None } else { Some(e) };
    let excl = case.rng.chance(1, 2);
    let val = |x: Option<N>| x.map_or(Value::nil(), |n| n.value());
    let (vb, ve) = (val(bv), val(ev));
    // Made by hand, perhaps of ends that do not compare.
    let odd = case.rng.chance(1, 8);
    let last = if odd { *case.rng.pick(&[Value::string_from_str("x"), Value::other(), Value::float(f64::NAN)]) } else { ve };
    let sub = case.rng.chance(1, 3);
    let f = crate::builtins::range::range_alloc_func;
    let made = f(if sub { SUB_CLASS } else { RANGE_CLASS }, &mut w.g);
    let flag = case.rng.below(3);
    let mut args = vec![vb, last];
    if flag > 0 || excl {
        args.push(if excl { Value::bool(true) } else { *case.rng.pick(&[Value::bool(false), Value::nil()]) });
    }
    let got = call(w, class, "initialize", made, &args, false);
    case.op(|| format!("Range.new({args:?})"));
    case.sig_bytes(format!("{args:?} {sub}").as_bytes());
    case.nontrivial();
    if odd && bv.is_some() {
        vcheck!(matches!(&got, Err(x) if x.kind == Kind::Argument), "a range from {vb:?} to {last:?} was made: {got:?}");
        vcheck!(!made.as_range().is_initialized(), "a refused range was filled in");
        case.count("ends-refused");
        return Ok(());
    }
    vcheck!(got.is_ok(), "a range of {args:?} was refused: {got:?}");
    vcheck!(made.is_frozen() != sub, "a new range is {}frozen", if sub { "" } else { "not " });
    for (name, want) in [("begin", vb), ("end", last)] {
        let got = call(w, class, name, made, &[], false);
        vcheck!(matches!(got, Ok(v) if v == want), "{name} of {made:?} is {got:?}");
    }
    let got = call(w, class, "exclude_end?", made, &[], false);
    vcheck!(matches!(got, Ok(v) if v.as_bool() == excl), "exclude_end? of {made:?} is {got:?}");
    let again = call(w, class, "initialize", made, &[Value::integer(1), Value::integer(2)], false);
    let kind = if sub { Kind::Name } else { Kind::Frozen };
    vcheck!(matches!(&again, Err(x) if x.kind == kind), "{made:?} was filled in twice: {again:?}");
    vcheck!(made.as_range().start() == vb && made.as_range().end() == last, "{made:?} was changed by a refused call");
    for v in [vb, last] {
        let immediate = v.is_nil() || matches!(num_of(v), Some(N::Int(i)) if (-(1i128 << 62)..1 << 62).contains(&i)) || matches!(num_of(v), Some(N::Float(_)));
        vcheck!(immediate || told(made, v), "the collector was not told that {made:?} was given {v:?}");
    }
    let alive = kept(made.as_range());
    vcheck!(alive.contains(&vb) && alive.contains(&last), "of {made:?} only {alive:?} are kept alive");
    // Equality of ranges.
    let twin = Value::range(vb, last, if case.rng.chance(2, 3) { excl } else { !excl });
    let same = made.as_range().eql(twin.as_range(), &mut w.vm, &mut w.g).unwrap_or(false);
    if last.try_float().is_none_or(|f| !f.is_nan()) {
        vcheck!(same == (twin.as_range().exclude_end() == excl), "{made:?} eql? {twin:?} is {same}");
    }
    let digest = |r: &Value, w: &mut World| {
        let mut h = std::hash::DefaultHasher::new();
        r.as_range().ruby_hash(&mut h, &mut w.vm, &mut w.g).unwrap();
        std::hash::Hasher::finish(&h)
    };
    let (x, y) = (digest(&made, w), digest(&twin, w));
    vcheck!((x == y) == (twin.as_range().exclude_end() == excl), "digests of {made:?} and {twin:?}: {x} and {y}");
    if odd {
        return Ok(());
    }
    // Smallest and largest.
    let r = made;
    let order = match (bv, ev) {
        (Some(b), Some(e)) => b.cmp(e),
        _ => Some(Ordering::Less),
    };
    let empty = order == Some(Ordering::Greater) || order == Some(Ordering::Equal) && excl;
    let min = call(w, class, "min", r, &[], false);
    match (&min, bv) {
        (Err(x), None) => vcheck!(x.kind == Kind::Range, "min of {r:?} raised {x:?}"),
        (Ok(v), Some(_)) => vcheck!(if empty { v.is_nil() } else { *v == vb }, "min of {r:?} is {v:?}"),
        _ => vbail!("min of {r:?} gave {min:?}"),
    }
    let max = call(w, class, "max", r, &[], false);
    let whole = matches!(ev, Some(N::Int(_)));
    match (&max, ev) {
        (Err(x), None) => vcheck!(x.kind == Kind::Range, "max of {r:?} raised {x:?}"),
        (Ok(v), Some(_)) if empty => vcheck!(v.is_nil(), "max of the empty {r:?} is {v:?}"),
        (Ok(v), Some(e)) if !excl => vcheck!(num_of(*v).is_some_and(|x| x.cmp(e) == Some(Ordering::Equal)), "max of {r:?} is {v:?}"),
        (Ok(v), Some(N::Int(e))) => vcheck!(matches!(bv, Some(N::Float(_) | N::Rat(..))) || v.int() == Some(e - 1), "max of {r:?} is {v:?}"),
        (Err(x), Some(_)) if excl && (!whole || !matches!(bv, Some(N::Int(_)) | None)) => vcheck!(x.kind == Kind::Type, "max of {r:?} raised {x:?}"),
        _ => vbail!("max of {r:?} gave {max:?}"),
    }
    let both = call(w, class, "minmax", r, &[], false);
    match (&both, &min, &max) {
        (Ok(v), Ok(a), Ok(z)) => {
            let l = v.list().unwrap_or(&[]);
            let same = |x: &Value, y: &Value| x.is_nil() && y.is_nil() || num_of(*x).is_some() && num_of(*x) == num_of(*y) || x == y;
            vcheck!(l.len() == 2 && same(&l[0], a) && same(&l[1], z), "minmax of {r:?} is {v:?}, min and max are {a:?} and {z:?}");
        }
        (Err(_), a, z) => vcheck!(a.is_err() || z.is_err(), "minmax of {r:?} gave {both:?}"),
        _ => vbail!("minmax of {r:?} gave {both:?}, min {min:?}, max {max:?}"),
    }
    if bv.is_none() || ev.is_none() {
        let n = call(w, class, "count", r, &[], false);
        vcheck!(matches!(&n, Ok(v) if v.try_float() == Some(f64::INFINITY)), "count of {r:?} gave {n:?}");
        let got = call(w, class, if bv.is_none() { "first" } else { "last" }, r, &[], false);
        vcheck!(matches!(&got, Err(x) if x.kind == Kind::Range), "the missing end of {r:?}: {got:?}");
    }
    case.count("bounds");
    Ok(())
}
fn main() {
    let mut g = Globals::default();
    builtins::init(&mut g);
    let mut w = World { vm: Executor::default(), g };
    vh::main_loop("c51", move |case| {
        reset_heap();
        w.vm = Executor::default();
        match case.rng.below(10) {
            9 => letters(case, &mut w),
            8 => within(case, &mut w),
            0..=3 => sequences(case, &mut w),
            4 => indices(case, &mut w),
            5 | 6 => ranges(case, &mut w),
            _ => bounds(case, &mut w),
        }
    });
}
