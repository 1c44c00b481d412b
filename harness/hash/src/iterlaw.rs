//! Iterator laws: a random program of consuming steps against the expected sequence.
use vh::{vbail, veq, Case, Verdict};

/// Double-ended, exact-size iterator over a known sequence.
/// Returns the (front, back) remainder bounds `[lo, hi)` that were not yielded.
pub fn laws_de<I, F>(case: &mut Case, what: &'static str, mut it: I, want: &[u64], f: F, fin: bool) -> Result<(usize, usize), vh::Violation>
where
    I: DoubleEndedIterator + ExactSizeIterator,
    F: Fn(I::Item) -> u64,
{
    case.count(what);
    let (mut lo, mut hi) = (0, want.len());
    macro_rules! counts {
        ($at:expr) => {
            veq!(it.len(), hi - lo, "{what}: remaining count {}", $at);
            veq!(it.size_hint(), (hi - lo, Some(hi - lo)), "{what}: size hint {}", $at);
        };
    }
    counts!("at start");
    let steps = case.rng.us(2 * want.len() + 4);
    for _ in 0..steps {
        match case.rng.below(6) {
            0 | 1 => {
                let w = if lo < hi { lo += 1; Some(want[lo - 1]) } else { None };
                veq!(it.next().map(&f), w, "{what}: next after {lo} from the front, {} from the back", want.len() - hi);
            }
            2 | 3 => {
                let w = if lo < hi { hi -= 1; Some(want[hi]) } else { None };
                veq!(it.next_back().map(&f), w, "{what}: next_back with [{lo},{hi}) left");
            }
            4 => {
                let n = case.rng.us(4);
                let w = if lo + n < hi {
                    lo += n + 1;
                    Some(want[lo - 1])
                } else {
                    lo = hi;
                    None
                };
                veq!(it.nth(n).map(&f), w, "{what}: nth({n})");
            }
            _ => {
                let n = case.rng.us(4);
                let w = if hi - lo > n {
                    hi -= n + 1;
                    Some(want[hi])
                } else {
                    hi = lo;
                    None
                };
                veq!(it.nth_back(n).map(&f), w, "{what}: nth_back({n})");
            }
        }
        counts!("after a step");
    }
    if !fin {
        return Ok((lo, hi));
    }
    let rest = &want[lo..hi];
    match case.rng.below(9) {
        0 => {
            let got: Vec<u64> = it.map(f).collect();
            veq!(&got[..], rest, "{what}: collect");
        }
        1 => {
            let got = it.fold(vec![], |mut a, x| {
                a.push(f(x));
                a
            });
            veq!(&got[..], rest, "{what}: fold");
        }
        2 => {
            let got = it.rfold(vec![], |mut a, x| {
                a.push(f(x));
                a
            });
            let mut r = rest.to_vec();
            r.reverse();
            veq!(got, r, "{what}: rfold");
        }
        3 => {
            veq!(it.count(), rest.len(), "{what}: count");
        }
        4 => {
            veq!(it.last().map(f), rest.last().copied(), "{what}: last");
        }
        5 => {
            let got: Vec<u64> = it.rev().map(f).collect();
            let mut r = rest.to_vec();
            r.reverse();
            veq!(got, r, "{what}: rev");
        }
        6 => {
            // exhaustion, then nothing from either end
            let mut n = 0;
            while let Some(x) = it.next() {
                if n >= rest.len() {
                    vbail!("{what}: yields more than its {} remaining items", rest.len());
                }
                veq!(f(x), rest[n], "{what}: item {n}");
                n += 1;
            }
            veq!(n, rest.len(), "{what}: items before exhaustion");
            for _ in 0..3 {
                if it.next().is_some() || it.next_back().is_some() || it.len() != 0 {
                    vbail!("{what}: not exhausted after returning None");
                }
            }
        }
        7 => {
            let stop = case.rng.us(rest.len() + 2);
            let mut seen = vec![];
            let r = it.try_for_each(|x| {
                seen.push(f(x));
                if seen.len() > stop { Err(()) } else { Ok(()) }
            });
            let n = rest.len().min(stop + 1);
            veq!(&seen[..], &rest[..n], "{what}: try_for_each");
            veq!(r.is_err(), rest.len() > stop, "{what}: early exit");
            veq!(it.len(), rest.len() - n, "{what}: count after early exit");
        }
        _ => drop(it),
    }
    Ok((lo, hi))
}

/// Same, for iterators that can be cloned: the clone continues independently.
pub fn laws_clone<I, F>(case: &mut Case, what: &'static str, mut it: I, want: &[u64], f: F) -> Verdict
where
    I: DoubleEndedIterator + ExactSizeIterator + Clone,
    F: Fn(I::Item) -> u64 + Copy,
{
    let (mut lo, mut hi) = (0, want.len());
    let a = case.rng.us(want.len() + 2);
    for i in 0..a {
        if i % 3 == 2 {
            if it.next_back().is_some() {
                hi -= 1
            }
        } else if it.next().is_some() {
            lo += 1
        }
    }
    let c = it.clone();
    laws_de(case, what, it, &want[lo.min(hi)..hi], f, true)?;
    laws_de(case, what, c, &want[lo.min(hi)..hi], f, true)?;
    case.count("iterator_clones");
    Ok(())
}

/// Forward-only iterator over an unordered container: `order` is the order an
/// earlier complete traversal of the same, unchanged container gave (or None).
/// Returns what was yielded.
pub fn laws_fw<I, F>(case: &mut Case, what: &'static str, mut it: I, want: &[u64], exact: bool, f: F) -> Result<Vec<u64>, vh::Violation>
where
    I: Iterator,
    F: Fn(I::Item) -> u64,
{
    case.count(what);
    let total = want.len();
    let mut got: Vec<u64> = vec![];
    let steps = if case.rng.chance(1, 2) { case.rng.us(total + 3) } else { 0 };
    macro_rules! counts {
        () => {
            let left = total.saturating_sub(got.len());
            let (l, h) = it.size_hint();
            if exact {
                veq!((l, h), (left, Some(left)), "{what}: remaining count after {} items", got.len());
            } else if l > left || h.is_some_and(|h| h < left) {
                vbail!("{what}: size hint ({l},{h:?}) excludes the true remainder {left}");
            }
        };
    }
    counts!();
    let mut ended = false;
    for _ in 0..steps {
        match it.next() {
            Some(x) => got.push(f(x)),
            None => {
                ended = true;
                if got.len() < total {
                    vbail!("{what}: ended after {} of {total} items", got.len());
                }
            }
        }
        if got.len() > total {
            vbail!("{what}: yielded more than {total} items");
        }
        counts!();
    }
    let mut complete = ended || got.len() == total;
    match case.rng.below(5) {
        0 => {
            got = it.fold(got, |mut a, x| {
                a.push(f(x));
                a
            });
            complete = true;
        }
        1 => {
            veq!(it.count(), total - got.len(), "{what}: count");
        }
        2 => {
            for x in it.by_ref() {
                got.push(f(x));
                if got.len() > total {
                    vbail!("{what}: yielded more than {total} items");
                }
            }
            complete = true;
            for _ in 0..3 {
                if it.next().is_some() {
                    vbail!("{what}: yields after exhaustion");
                }
            }
        }
        3 => {
            got.extend(it.map(f));
            complete = true;
        }
        _ => drop(it), // abandoned
    }
    let mut a = got.clone();
    a.sort_unstable();
    let mut w = want.to_vec();
    w.sort_unstable();
    if complete {
        veq!(a, w, "{what}: items of a complete traversal");
    } else {
        // a sub-multiset
        let mut j = 0;
        for x in &a {
            while j < w.len() && w[j] < *x {
                j += 1
            }
            if j >= w.len() || w[j] != *x {
                vbail!("{what}: yielded {x:#x} which is not an element, or yielded it twice");
            }
            j += 1;
        }
    }
    Ok(got)
}
