//! C24: file name patterns against the published algorithm.
#![allow(dead_code, unused_imports, clippy::all)]
use vh::{vbail, vcheck, veq, Case, Rng, Verdict, Violation};

#[path = "/repo/monoruby/src/builtins/fnmatch.rs"]
mod fnmatch;

const NOESCAPE: u32 = 1;
const PATHNAME: u32 = 2;
const DOTMATCH: u32 = 4;
const CASEFOLD: u32 = 8;
const EXTGLOB: u32 = 16;

/// The reference: a transcription of the C algorithm over NUL-terminated
/// character arrays. `unsure` is set where the rules leave the answer open.
mod reference {
    use super::*;
    pub struct R {
        pub unsure: bool,
        pub flags: u32,
    }
    fn upper(c: char) -> char {
        c.to_ascii_uppercase()
    }
    impl R {
        fn escape(&self) -> bool {
            self.flags & NOESCAPE == 0
        }
        fn unescape(&self, p: &[char], i: usize) -> usize {
            if self.escape() && p[i] == '\\' && p[i + 1] != '\0' { i + 1 } else { i }
        }
        fn is_end(&self, p: &[char], i: usize) -> bool {
            p[i] == '\0' || (self.flags & PATHNAME != 0 && p[i] == '/')
        }
        /// `i` is just after the `[`; the index after the `]` on a match.
        fn bracket(&mut self, p: &[char], mut i: usize, c: char) -> Option<usize> {
            let nocase = self.flags & CASEFOLD != 0;
            let mut ok = false;
            let mut not = false;
            if p[i] == '!' || p[i] == '^' {
                not = true;
                i += 1;
            }
            let mut open = false;
            while p[i] != ']' {
                let mut t1 = i;
                if self.escape() && p[t1] == '\\' {
                    t1 += 1;
                }
                if p[t1] == '\0' {
                    return None;
                }
                let c1 = p[t1];
                i = t1 + 1;
                if p[i] == '-' && p[i + 1] != ']' {
                    let mut t2 = i + 1;
                    if self.escape() && p[t2] == '\\' {
                        t2 += 1;
                    }
                    if p[t2] == '\0' {
                        return None;
                    }
                    let c2 = p[t2];
                    i = t2 + 1;
                    // a reversed range, or folding over a range that is not one run of
                    // letters of one case or free of letters, is not specified
                    let plain = |c: char| !c.is_alphabetic();
                    let one_case = (c1.is_ascii_lowercase() && c2.is_ascii_lowercase()) || (c1.is_ascii_uppercase() && c2.is_ascii_uppercase()) || (plain(c1) && plain(c2) && !(c1..=c2).any(|x| x.is_alphabetic()));
                    if c1 > c2 || (nocase && !one_case) {
                        open = true;
                    }
                    if ok {
                        continue;
                    }
                    if c1 == c || c2 == c {
                        ok = true;
                        continue;
                    }
                    let (c, c1, c2) = if nocase { (upper(c), upper(c1), upper(c2)) } else { (c, c1, c2) };
                    if c1 <= c && c <= c2 {
                        ok = true;
                    }
                } else if c1 == c || (nocase && upper(c1) == upper(c)) {
                    ok = true;
                }
            }
            if open {
                self.unsure = true;
            }
            if ok == not { None } else { Some(i + 1) }
        }
        fn helper(&mut self, p: &[char], pi: &mut usize, s: &[char], si: &mut usize) -> bool {
            let period = self.flags & DOTMATCH == 0;
            let nocase = self.flags & CASEFOLD != 0;
            let (mut i, mut j) = (*pi, *si);
            let mut tmp: Option<(usize, usize)> = None;
            macro_rules! ret {
                ($v:expr) => {{
                    let v = $v;
                    *pi = i;
                    *si = j;
                    return v;
                }};
            }
            if period && s[j] == '.' && p[self.unescape(p, i)] != '.' {
                ret!(false);
            }
            loop {
                let mut failed = false;
                match p[i] {
                    '*' => {
                        while p[i] == '*' {
                            i += 1;
                        }
                        let u = self.unescape(p, i);
                        if self.is_end(p, u) {
                            i = u;
                            ret!(true);
                        }
                        if self.is_end(s, j) {
                            ret!(false);
                        }
                        tmp = Some((i, j));
                        continue;
                    }
                    '?' => {
                        if self.is_end(s, j) {
                            ret!(false);
                        }
                        i += 1;
                        j += 1;
                        continue;
                    }
                    '[' => {
                        if self.is_end(s, j) {
                            ret!(false);
                        }
                        match self.bracket(p, i + 1, s[j]) {
                            Some(t) => {
                                i = t;
                                j += 1;
                                continue;
                            }
                            None => failed = true,
                        }
                    }
                    _ => {}
                }
                if !failed {
                    i = self.unescape(p, i);
                    if self.is_end(s, j) {
                        ret!(self.is_end(p, i));
                    }
                    if !self.is_end(p, i) && (p[i] == s[j] || (nocase && upper(p[i]) == upper(s[j]))) {
                        i += 1;
                        j += 1;
                        continue;
                    }
                }
                match &mut tmp {
                    Some((tp, ts)) => {
                        i = *tp;
                        *ts += 1;
                        j = *ts;
                    }
                    None => ret!(false),
                }
            }
        }
        pub fn plain(&mut self, pattern: &str, string: &str) -> bool {
            let mut p: Vec<char> = pattern.chars().collect();
            p.extend(['\0'; 4]);
            let mut s: Vec<char> = string.chars().collect();
            s.extend(['\0'; 4]);
            let period = self.flags & DOTMATCH == 0;
            let (mut i, mut j) = (0, 0);
            if self.flags & PATHNAME == 0 {
                return self.helper(&p, &mut i, &s, &mut j);
            }
            let mut tmp: Option<(usize, usize)> = None;
            loop {
                if p[i] == '*' && p[i + 1] == '*' && p[i + 2] == '/' {
                    while p[i] == '*' && p[i + 1] == '*' && p[i + 2] == '/' {
                        i += 3;
                    }
                    tmp = Some((i, j));
                }
                if self.helper(&p, &mut i, &s, &mut j) {
                    while s[j] != '\0' && s[j] != '/' {
                        j += 1;
                    }
                    if p[i] != '\0' && s[j] != '\0' {
                        i += 1;
                        j += 1;
                        continue;
                    }
                    if p[i] == '\0' && s[j] == '\0' {
                        return true;
                    }
                }
                if let Some((tp, ts)) = &mut tmp
                    && !(period && s[*ts] == '.')
                {
                    while s[*ts] != '\0' && s[*ts] != '/' {
                        *ts += 1;
                    }
                    if s[*ts] != '\0' {
                        *ts += 1;
                        i = *tp;
                        j = *ts;
                        continue;
                    }
                }
                return false;
            }
        }
        /// Brace alternatives in order; `unsure` on a group that is not closed.
        pub fn braces(&mut self, pattern: &str, out: &mut Vec<String>) {
            let mut p: Vec<char> = pattern.chars().collect();
            let n = p.len();
            p.extend(['\0'; 4]);
            let (mut l, mut r) = (None, None);
            let mut nest = 0i32;
            let mut i = 0;
            while p[i] != '\0' {
                if p[i] == '{' {
                    nest += 1;
                    if nest == 1 {
                        l = Some(i);
                    }
                }
                if p[i] == '}' && l.is_some() {
                    nest -= 1;
                    if nest == 0 {
                        r = Some(i);
                        break;
                    }
                }
                if p[i] == '\\' && self.escape() {
                    i += 1;
                    if p[i] == '\0' {
                        break;
                    }
                }
                i += 1;
            }
            match (l, r) {
                (Some(l), Some(r)) => {
                    let mut i = l;
                    while i < r {
                        i += 1;
                        let t = i;
                        let mut nest = 0i32;
                        while i < r && !(p[i] == ',' && nest == 0) {
                            if p[i] == '{' {
                                nest += 1;
                            }
                            if p[i] == '}' {
                                nest -= 1;
                            }
                            if p[i] == '\\' && self.escape() {
                                i += 1;
                                if i == r {
                                    break;
                                }
                            }
                            i += 1;
                        }
                        let e: String = p[..l].iter().chain(&p[t..i.min(r)]).chain(&p[r + 1..n]).collect();
                        self.braces(&e, out);
                    }
                }
                (None, None) => out.push(pattern.to_string()),
                _ => {
                    self.unsure = true;
                    out.push(pattern.to_string());
                }
            }
        }
    }
    /// None where the rules leave it open.
    pub fn verdict(pattern: &str, string: &str, flags: u32) -> Option<bool> {
        let mut r = R { unsure: false, flags };
        let v = if flags & EXTGLOB != 0 {
            let mut alts = vec![];
            r.braces(pattern, &mut alts);
            let mut any = false;
            for a in alts {
                any |= r.plain(&a, string);
            }
            any
        } else {
            r.plain(pattern, string)
        };
        if r.unsure { None } else { Some(v) }
    }
}

/// Answers of the original implementation, to hold the reference to.
#[rustfmt::skip]
const TRUTH: &[(&str, &str, u32, bool)] = &[
    ("cat", "cat", 0, true), ("cat", "category", 0, false), ("c?t", "cat", 0, true), ("c??t", "cat", 0, false), ("c*", "cats", 0, true),
    ("*", ".profile", 0, false), ("*", ".profile", 4, true), ("*", "dave/.profile", 0, true), ("*/*", "dave/.profile", 0, true),
    ("*/*", "dave/.profile", 2, false), ("*/*", "dave/.profile", 6, true), ("*", "dave/.profile", 2, false), ("**/*", "a/b/c", 2, true),
    ("**/*", "a", 2, true), ("**/*", ".a", 2, false), ("**/*", "a/.b/c", 2, false), ("**/*", "a/.b/c", 6, true), ("**/foo", "a/b/c/foo", 2, true),
    ("**/foo", "foo", 2, true), ("**", "a/b", 2, false), ("**", "a", 2, true), ("?", "/", 0, true), ("?", "/", 2, false), ("*", "/", 0, true),
    ("*", "/", 2, false), ("[/]", "/", 0, true), ("[/]", "/", 2, false), ("[a-z]", "c", 0, true), ("[a-z]", "C", 0, false), ("[a-z]", "C", 8, true),
    ("CAt", "cat", 8, true), ("[^a-z]", "1", 0, true), ("[!a-z]", "1", 0, true), ("[]]", "]", 0, false), ("[]a]", "a", 0, false), ("\\?", "?", 0, true),
    ("\\?", "a", 0, false), ("\\*", "*", 0, true), ("\\a", "a", 0, true), ("\\a", "\\a", 0, false), ("\\a", "\\a", 1, true), ("\\*", "\\ab", 1, true),
    ("\\*", "*", 1, false), ("[\\?]", "?", 0, true), ("./*", "./foo", 2, true), ("*", "./foo", 2, false), ("{a,b}", "a", 16, true),
    ("{a,b}", "c", 16, false), ("{a,b}", "a", 0, false), ("{a,b}", "{a,b}", 0, true), ("a{b,c{d,e}}", "acd", 16, true), ("*.[ch]", "main.c", 0, true),
    ("a?b", "a/b", 0, true), ("a?b", "a/b", 2, false), ("*a*", ".ab", 0, false), ("?a", ".a", 0, false), ("[.]a", ".a", 0, false), ("[.]a", ".a", 4, true),
    ("**/", "a/", 2, true), ("a**b", "aXb", 0, true), ("a**b", "a/b", 0, true), ("a**b", "a/b", 2, false), ("**", ".a", 2, false), ("**", ".a/b", 2, false),
    ("abc[de", "abcd", 0, false), ("abc[de", "abc[de", 0, false), ("[[]a-z", "[a-z", 0, true), ("こ*は.txt", "こんにちは.txt", 0, true), ("?ん*", "こんにちは", 0, true),
    ("**.rb", "lib/song.rb", 0, true), ("**/*.rb", "lib/song.rb", 2, true), ("*.rb", ".rb", 0, false), ("{ba,fo}o", "foo", 16, true),
    ("**/foo", "/a/b/c/foo", 2, true), ("**/foo", "c:/a/b/c/foo", 2, true), ("**/foo", "a/.b/c/foo", 2, false), ("**/foo", "a/.b/c/foo", 6, true),
    ("**/.b/foo", "a/.b/foo", 2, true), ("*/b", "a/.b", 2, false), ("[!a-b]", "c", 0, true), ("**foo", "a/.b/c/foo", 0, true),
];

fn token(r: &mut Rng, depth: usize, out: &mut String) {
    match r.weighted(&[10, 6, 4, 5, 6, 4, 3, 3, 2, 1]) {
        0 => out.push(*r.pick(&['a', 'b', 'A', 'B', 'c', 'Z'])),
        1 => out.push('*'),
        2 => out.push('?'),
        3 => out.push('.'),
        4 => out.push('/'),
        5 => {
            out.push('[');
            if r.chance(1, 3) {
                out.push(*r.pick(&['!', '^']));
            }
            for _ in 0..r.us(3) {
                if r.chance(1, 5) {
                    out.push('\\');
                }
                let c = *r.pick(&['a', 'b', 'c', 'A', 'Z', '.', '-', '/', ']', '!', '*', '\\', 'é']);
                out.push(c);
                if r.chance(1, 3) {
                    out.push('-');
                    out.push(*r.pick(&['b', 'c', 'z', 'Z', ']', '/', '9', '日']));
                }
            }
            if r.chance(9, 10) {
                out.push(']');
            }
        }
        6 => out.push_str("**/"),
        7 => {
            out.push('\\');
            if r.chance(9, 10) {
                out.push(*r.pick(&['*', '?', '[', 'a', '.', '/', '\\', '{', ',', '}', ']']));
            }
        }
        8 if depth < 3 => {
            out.push('{');
            for k in 0..1 + r.us(3) {
                if k > 0 {
                    out.push(',');
                }
                for _ in 0..r.us(3) {
                    token(r, depth + 1, out);
                }
            }
            if r.chance(14, 15) {
                out.push('}');
            }
        }
        _ => out.push(*r.pick(&['é', '日', '{', '}', ',', ']', '-', '!'])),
    }
}

/// A string near the pattern: its own literals with wildcards filled in.
fn instance(r: &mut Rng, pat: &str) -> String {
    let mut out = String::new();
    let mut it = pat.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '*' => {
                for _ in 0..r.us(3) {
                    out.push(*r.pick(&['a', 'b', '.', '/', 'A']));
                }
            }
            '?' => out.push(*r.pick(&['a', 'b', '.', '/', '日'])),
            '[' => {
                let mut set = vec![];
                for d in it.by_ref() {
                    if d == ']' {
                        break;
                    }
                    set.push(d);
                }
                set.extend(['a', 'z', ']']);
                out.push(*r.pick(&set));
            }
            '\\' if r.chance(3, 4) => {
                if let Some(d) = it.next() {
                    out.push(d);
                }
            }
            '{' => {
                let mut alts = vec![String::new()];
                for d in it.by_ref() {
                    match d {
                        '}' => break,
                        ',' => alts.push(String::new()),
                        _ => alts.last_mut().unwrap().push(d),
                    }
                }
                let a = r.pick(&alts).clone();
                out.push_str(&a);
            }
            c => out.push(c),
        }
    }
    match r.us(8) {
        0 => out = out.to_uppercase(),
        1 => out = out.to_lowercase(),
        2 => {
            out.pop();
        }
        3 => out.insert(0, '.'),
        4 => out.push(*r.pick(&['a', '/', '.'])),
        _ => {}
    }
    out
}

fn strings(r: &mut Rng, pats: &str) -> Vec<String> {
    let alpha = ['a', 'b', '.', '/', 'A'];
    let mut v: Vec<String> = vec![String::new()];
    for a in alpha {
        v.push(a.to_string());
        for b in alpha {
            v.push(format!("{a}{b}"));
        }
    }
    for _ in 0..20 {
        let n = 3 + r.us(6);
        v.push((0..n).map(|_| *r.pick(&['a', 'b', '.', '/', 'A', '\\', '-', ']', '[', 'é', '日', '*', '{', '}', ','])).collect());
    }
    for _ in 0..20 {
        v.push(instance(r, pats));
    }
    v
}

fn ascii_only_letters(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii() || !c.is_alphabetic() || c == '日')
}

fn judge(case: &mut Case, pat: &str, s: &str, flags: u32) -> Verdict {
    // folding of letters beyond ASCII is left to the platform
    if flags & CASEFOLD != 0 && !(ascii_only_letters(pat) && ascii_only_letters(s)) {
        return Ok(());
    }
    let Some(want) = reference::verdict(pat, s, flags) else {
        case.count("left_open");
        return Ok(());
    };
    let got = fnmatch::fnmatch(pat, s, flags);
    if got != want {
        vbail!("pattern {pat:?} on {s:?} with flags {flags:#x} answered {got}, the rules say {want}");
    }
    case.count(if want { "matched" } else { "unmatched" });
    if want {
        if flags & PATHNAME != 0 && pat.contains("**/") {
            case.count("recursive_matches");
        }
        if pat.contains('[') {
            case.count("bracket_matches");
        }
        if flags & EXTGLOB != 0 && pat.contains('{') {
            case.count("brace_matches");
        }
        if s.starts_with('.') && flags & DOTMATCH == 0 {
            case.count("period_matches");
        }
        if flags & NOESCAPE == 0 && pat.contains('\\') {
            case.count("escape_matches");
        }
    } else if s.starts_with('.') && flags & DOTMATCH == 0 && reference::verdict(pat, s, flags | DOTMATCH) == Some(true) {
        case.count("period_refusals");
    }
    Ok(())
}

fn main() {
    for (p, s, f, want) in TRUTH {
        assert_eq!(reference::verdict(p, s, *f), Some(*want), "reference on {p:?} {s:?} {f}");
    }
    vh::main_loop("c24", |case| {
        let mut pat = String::new();
        match case.rng.us(4) {
            0 => {
                // anything over the metacharacters
                let n = case.rng.us(7);
                for _ in 0..n {
                    pat.push(*case.rng.pick(&['a', 'b', 'A', '.', '/', '*', '?', '[', ']', '-', '!', '\\', '{', '}', ',']));
                }
            }
            _ => {
                let n = 1 + case.rng.us(7);
                for _ in 0..n {
                    token(&mut case.rng, 0, &mut pat);
                }
            }
        }
        if pat.matches('{').count() > 4 {
            return Ok(());
        }
        case.sig_bytes(pat.as_bytes());
        case.nontrivial();
        case.op(|| format!("pattern {pat:?}"));
        let mut ss = strings(&mut case.rng, &pat);
        // the pattern itself, and a file system path
        ss.push(pat.clone());
        for s in &ss {
            if s.contains('\0') {
                continue;
            }
            for flags in 0..32u32 {
                judge(case, &pat, s, flags)?;
            }
            vh::step();
        }
        case.count("patterns");
        // alternatives come out in source order
        for noescape in [false, true] {
            let mut r = reference::R { unsure: false, flags: if noescape { NOESCAPE } else { 0 } };
            let mut want = vec![];
            r.braces(&pat, &mut want);
            if r.unsure {
                continue;
            }
            veq!(fnmatch::expand_braces(&pat, noescape), want, "alternatives of {pat:?} (noescape={noescape})");
            case.count("expansions");
            if want.len() > 1 {
                case.count("real_expansions");
            }
        }
        // one segment: like the whole pattern without separators
        if !pat.contains('/') {
            for s in ss.iter().filter(|s| !s.contains('/')) {
                for flags in 0..16u32 {
                    if flags & CASEFOLD != 0 && !(ascii_only_letters(&pat) && ascii_only_letters(s)) {
                        continue;
                    }
                    if let Some(want) = reference::verdict(&pat, s, flags & !PATHNAME) {
                        veq!(fnmatch::match_segment(&pat, s, flags), want, "segment {pat:?} on {s:?} with flags {flags:#x}");
                        case.count("segments");
                    }
                }
            }
        }
        Ok(())
    });
}
