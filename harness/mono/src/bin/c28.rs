//! C28: source positions against a scan of the text.
#![allow(dead_code, clippy::all)]
use vh::{vbail, vcheck, veq, Case, Verdict, Violation};

/// The terminal as the monitor wants it to be.
extern crate self as console;
pub use term::*;
pub mod term {
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    pub static WIDTH: AtomicUsize = AtomicUsize::new(80);
    pub struct Term;
    impl Term {
        pub fn stdout() -> Self {
            Term
        }
        pub fn stderr() -> Self {
            Term
        }
        pub fn size(&self) -> (u16, u16) {
            (24, WIDTH.load(Relaxed) as u16)
        }
        pub fn size_checked(&self) -> Option<(u16, u16)> {
            Some(self.size())
        }
        pub fn is_term(&self) -> bool {
            true
        }
    }
    pub fn char_width(c: char) -> usize {
        match c as u32 {
            9 => 1,
            0..=0x1f | 0x7f => 0,
            0x300..=0x36f | 0x200b..=0x200d => 0,
            0x1100..=0x115f | 0x2e80..=0xa4cf | 0xac00..=0xd7a3 | 0xf900..=0xfaff | 0xfe30..=0xfe6f | 0xff00..=0xff60 | 0x1f300..=0x1faff => 2,
            _ => 1,
        }
    }
    pub fn measure_text_width(s: &str) -> usize {
        s.chars().map(char_width).sum()
    }
}

pub mod ast {
    #[path = "/repo/monoruby/src/ast/source_info.rs"]
    pub mod source_info;
}
use ast::source_info::*;

fn text(case: &mut Case) -> String {
    let r = &mut case.rng;
    let lines = match r.us(8) {
        0 => r.us(2),
        1 => 10 + r.us(40),
        _ => 1 + r.us(6),
    };
    let style = r.us(6);
    let mut s = String::new();
    for i in 0..lines {
        let n = match r.us(10) {
            0..=1 => 0,
            2 => 40 + r.us(200),
            _ => r.us(20),
        };
        for _ in 0..n {
            let c = match style {
                0 => 'a',
                1 => *r.pick(&['日', '本', 'é', 'x', ' ', '😀', 'e', '\u{301}']),
                2 => *r.pick(&['\t', 'a', ' ', '=']),
                3 => *r.pick(&['a', '\r', 'é', '\u{2028}', '\u{85}', '\u{b}', '\u{c}', '語']),
                _ => (b' ' + r.below(95) as u8) as char,
            };
            s.push(c);
        }
        if i + 1 < lines || r.chance(1, 2) {
            if style == 3 && r.chance(1, 2) {
                s.push('\r');
            }
            s.push('\n');
        }
    }
    s
}

/// Everything judged below comes from this one walk over the text.
struct Scan {
    code: String,
    /// start and end (the newline) of each line
    lines: Vec<(usize, usize)>,
}
impl Scan {
    fn new(given: &str) -> Self {
        let mut code = given.to_string();
        if code.chars().last() != Some('\n') {
            code.push('\n');
        }
        let mut lines = vec![];
        let mut top = 0;
        for (i, c) in code.char_indices() {
            if c == '\n' {
                lines.push((top, i));
                top = i + 1;
            }
        }
        Scan { code, lines }
    }
    /// Line holding a byte; the last one past the end.
    fn line(&self, pos: usize) -> usize {
        for (i, (t, e)) in self.lines.iter().enumerate() {
            if *t <= pos && pos <= *e {
                return i + 1;
            }
        }
        self.lines.len()
    }
}
fn width(s: &str) -> usize {
    s.chars().map(|c| if c == '\t' { 8 } else { console::char_width(c) }).sum()
}

fn location(case: &mut Case, info: &SourceInfo, scan: &Scan, a: usize, b: usize, off: i64) -> Verdict {
    let code = &scan.code;
    let got = vh::catch(|| info.get_location(&Loc(a, b))).map_err(|e| Violation(format!("showing {a}..={b} of {code:?} panicked: {}", e.0)))?;
    // the character holding the last byte belongs to the span
    let mut p = b + 1;
    while p < code.len() && !code.is_char_boundary(p) {
        p += 1;
    }
    let mut want: Vec<(usize, usize)> = scan.lines.iter().copied().filter(|(t, e)| *t < p && *e >= a).collect();
    let eof = p > code.len();
    if eof {
        want.push((code.len(), code.len()));
        case.count("end_of_file");
    }
    let ctx = format!("{a}..={b} of {code:?} shown as {got:?}");
    let Some(rest) = got.strip_suffix('\n') else { vbail!("no final newline: {ctx}") };
    let mut out = rest.split('\n');
    let head = out.next().unwrap();
    let Some((file, no)) = head.rsplit_once(':') else { vbail!("no heading: {ctx}") };
    veq!(file, "dir/file.rb", "file named");
    let no: i64 = no.parse().map_err(|_| Violation(format!("heading without a line: {ctx}")))?;
    let no = no - off;
    if a >= code.len() {
        // both answers name a line no byte is on
        vcheck!(no == scan.lines.len() as i64 || no == scan.lines.len() as i64 + 1, "line {no}: {ctx}");
    } else {
        veq!(no, scan.line(a) as i64, "line named; {ctx}");
    }
    for (i, (t, e)) in want.iter().copied().enumerate() {
        let (Some(shown), Some(mark)) = (out.next(), out.next()) else { vbail!("only {i} of {} lines shown: {ctx}", want.len()) };
        let line = &code[t..e];
        vcheck!(line.ends_with(shown), "line {i} shows {shown:?} instead of {line:?}: {ctx}");
        let from = e - shown.len();
        let (s, z) = (a.max(t), p.min(e));
        vcheck!(from <= s, "line {i} leaves out the start of the span: {ctx}");
        if s - t < console::WIDTH.load(std::sync::atomic::Ordering::Relaxed) {
            veq!(from, t, "line {i} is cut although the span starts on screen; {ctx}");
        } else {
            vcheck!(s - from < console::WIDTH.load(std::sync::atomic::Ordering::Relaxed), "line {i} starts the span off the screen: {ctx}");
            case.count("cut_lines");
        }
        let lead = mark.len() - mark.trim_start_matches(' ').len();
        let carets = mark.len() - lead;
        vcheck!(mark[lead..].bytes().all(|c| c == b'^'), "line {i}: underline {mark:?}: {ctx}");
        if s < z {
            veq!(carets, width(&code[s..z]), "line {i}: length of the underline; {ctx}");
            if carets > 0 {
                veq!(lead, width(&code[from..s]), "line {i}: column of the underline; {ctx}");
            }
            case.count("underlined");
        } else {
            // a line end or the end of the file: nothing or one mark
            vcheck!(carets <= 1, "line {i}: {carets} marks for a line end: {ctx}");
            vcheck!(t < code.len() || carets == 1, "nothing marks the end of the file: {ctx}");
            veq!(lead, width(&code[from..s]), "line {i}: column of the mark; {ctx}");
            case.count("line_ends");
        }
    }
    if let Some(x) = out.next() {
        vbail!("more than {} lines shown ({x:?}): {ctx}", want.len());
    }
    case.count("locations");
    case.count_n("lines_shown", want.len() as u64);
    if want.len() > 1 {
        case.count("multi_line");
    }
    if !code[a.min(code.len())..p.min(code.len())].is_ascii() {
        case.count("multi_byte");
    }
    Ok(())
}

fn main() {
    vh::main_loop("c28", |case| {
        let given = text(case);
        case.sig_bytes(given.as_bytes());
        case.op(|| format!("text {given:?}"));
        let off = match case.rng.us(4) {
            0 => case.rng.below(100) as i64 - 5,
            _ => 0,
        };
        let w = [7, 20, 79, 80, 200][case.rng.us(5)];
        console::WIDTH.store(w, std::sync::atomic::Ordering::Relaxed);
        let info = if off == 0 && case.rng.chance(1, 2) { SourceInfo::new("dir/file.rb", given.as_str()) } else { SourceInfo::new_eval("dir/file.rb", given.as_str(), off) };
        let info = match case.rng.us(4) {
            0 => info.with_source_encoding(Some("euc-jp".into())),
            1 => info.with_frozen_string_literal(Some(true)).with_absolute_path(Some("/x".into())),
            2 => info.clone(),
            _ => info,
        };
        let scan = Scan::new(&given);
        veq!(info.code.as_str(), scan.code.as_str(), "text kept");
        veq!(info.file_name().into_owned(), "dir/file.rb", "file name");
        veq!(info.short_file_name().into_owned(), "file.rb", "short file name");
        // every byte, and past the end
        let n = scan.code.len();
        for pos in (0..n + 3).chain([n + 1000, usize::MAX / 2]) {
            let end = pos.saturating_add(case.rng.us(9));
            let got = info.get_line(&Loc(pos, end));
            veq!(got, scan.line(pos) as i64 + off, "line of byte {pos} in {given:?} (offset {off})");
            case.count("positions");
        }
        // spans
        let starts: Vec<usize> = (0..=n).filter(|i| scan.code.is_char_boundary(*i)).collect();
        let mut spans: Vec<(usize, usize)> = vec![(n, n), (0, 0), (0, n - 1), (0, n)];
        for _ in 0..20 {
            let a = *case.rng.pick(&starts);
            let b = match case.rng.us(5) {
                0 => a,
                1 => n - case.rng.us(3).min(n - a),
                2 => a + case.rng.us(n - a + 1),
                _ => (a + case.rng.us(12)).min(n),
            };
            spans.push((a, b.max(a)));
        }
        // around line ends
        for (t, e) in scan.lines.iter().take(8) {
            spans.push((*t, *e));
            spans.push((*e, *e));
            spans.push((*e, (*e + 1).min(n)));
            spans.push((*t, *t));
        }
        for (a, b) in spans {
            location(case, &info, &scan, a, b, off)?;
        }
        // joining spans
        for _ in 0..4 {
            let x = Loc(case.rng.us(50), case.rng.us(50));
            let y = Loc(case.rng.us(50), case.rng.us(50));
            let m = x.merge(y);
            vcheck!(m.0 == x.0.min(y.0) && m.1 == x.1.max(y.1), "joining {x:?} and {y:?} gave {m:?}");
            vcheck!(y.merge(x) == m, "joining depends on the order");
            case.count("merges");
        }
        // equality does not look past the text
        let twin = SourceInfo::new("dir/file.rb", scan.code.as_str());
        if off == 0 && info.source_encoding.is_none() && info.absolute_path.is_none() {
            vcheck!(twin == info, "the same text is not equal to itself");
        }
        case.count("texts");
        if scan.lines.len() > 1 {
            case.nontrivial();
        }
        if given.is_empty() {
            case.count("empty_texts");
        }
        if !given.ends_with('\n') {
            case.count("no_final_newline");
        }
        Ok(())
    });
}
