//! Contract replay: the contracts of the runtime, read as executable oracles, against the compiled code of /repo.
//! Bounded: every text over a small alphabet up to a stated length, then random ones. Prints one JSON object.
use oak_runtime::file_map_stream::FileMapStream;
use oak_runtime::*;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use syntex_pos::{BytePos, FileMap};

const ALPHABET: [char; 6] = ['a', '\n', '\r', 'é', '€', '😀'];

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n
    }
}

#[derive(Default)]
struct Report {
    evaluations: u64,
    nontrivial: u64,
    samples: Vec<String>,
    failures: Vec<String>,
}
impl Report {
    fn check(&mut self, case: impl Fn() -> String, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        self.evaluations += 1;
        if nontrivial {
            self.nontrivial += 1;
            if self.samples.len() < 3 && self.nontrivial % 97 == 5 {
                self.samples.push(case());
            }
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => format!(
                "panicked: {}",
                p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            ),
        };
        if self.failures.len() < 5 {
            self.failures.push(format!("{} -- {}", case(), msg));
        }
    }
}

macro_rules! expect {
    ($got:expr, $want:expr, $what:expr) => {{
        let (g, w) = ($got, $want);
        if g != w {
            return Err(format!("{}: got {:?}, the contract says {:?}", $what, g, w));
        }
    }};
}

fn texts(max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for c in ALPHABET {
                let mut s = all[i].clone();
                s.push(c);
                all.push(s);
            }
        }
        from = to;
    }
    all
}
fn random_text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n)
        .map(|_| match r.below(12) {
            0 => '\n',
            1 => '\r',
            2 => '\u{0}',
            3 => ['\u{7f}', '\u{80}', '\u{85}'][r.below(3)],
            4 => ['\u{7ff}', '\u{800}'][r.below(2)],
            5 => ['\u{d7ff}', '\u{e000}', '\u{ffff}'][r.below(3)],
            6 => ['\u{10000}', '\u{10001}', '\u{10ffff}'][r.below(3)],
            7 => ['\u{2028}', '\u{feff}', '\t', ' ', '\u{b}', '\u{c}'][r.below(6)],
            _ => ALPHABET[r.below(6)],
        })
        .collect()
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// The operations the runtime's streams share.
trait CharStream: Clone + Ord + Iterator<Item = char> + HasNext + Location + CodeSnippet + ConsumePrefix<&'static str> {}
impl<T: Clone + Ord + Iterator<Item = char> + HasNext + Location + CodeSnippet + ConsumePrefix<&'static str>> CharStream for T {}

fn file_map(text: &str, start: u32) -> Rc<FileMap> {
    Rc::new(FileMap {
        name: "replay".to_string(),
        abs_path: None,
        src: Some(Rc::new(text.to_string())),
        start_pos: BytePos(start),
        end_pos: BytePos(start + text.len() as u32),
        lines: std::cell::RefCell::new(vec![]),
        multibyte_chars: std::cell::RefCell::new(vec![]),
    })
}
/// the stream after `k` characters
fn at<S: CharStream>(s: &S, k: usize) -> S {
    let mut s = s.clone();
    for _ in 0..k {
        s.next();
    }
    s
}

fn c01<S: CharStream>(s0: &S, text: &str, other: &str) -> Result<(), String> {
    let chars: Vec<char> = text.chars().collect();
    let mut s = s0.clone();
    for (i, c) in chars.iter().enumerate() {
        expect!(s.has_next(), true, format!("has_next after {} characters", i));
        expect!(s.next(), Some(*c), format!("character {}", i));
    }
    expect!(s.has_next(), false, "has_next at the end");
    expect!(s.next(), None, "next at the end");
    expect!(s.next(), None, "next at the end, again");
    if s != at(s0, chars.len()) {
        return Err("reading at the end moved the stream".into());
    }
    // prefixes: of the rest, of another text
    for k in 0..=chars.len() {
        let rest: String = chars[k..].iter().collect();
        let mut cands: Vec<String> = vec![other.to_string()];
        for n in 0..=(chars.len() - k).min(3) {
            let p: String = chars[k..k + n].iter().collect();
            let mut q = p.clone();
            cands.push(p);
            q.push('é');
            cands.push(q);
        }
        cands.push(rest.clone() + "a");
        for p in cands {
            let mut t = at(s0, k);
            let want = rest.starts_with(&p);
            expect!(t.consume_prefix(leak(&p)), want, format!("consume_prefix({:?}) after {} characters", p, k));
            let moved = if want { k + p.chars().count() } else { k };
            if t != at(s0, moved) {
                return Err(format!("consume_prefix({:?}) after {} characters left the stream elsewhere than after {}", p, k, moved));
            }
            expect!(t.next(), chars.get(moved).cloned(), format!("character after consume_prefix({:?}) after {}", p, k));
        }
    }
    Ok(())
}
fn c02<S: CharStream>(s0: &S, n: usize) -> Result<(), String> {
    for i in 0..=n {
        for j in 0..=n {
            let (a, b) = (at(s0, i), at(s0, j));
            expect!(a == b, i == j, format!("== of positions {} and {}", i, j));
            expect!(a != b, i != j, format!("!= of positions {} and {}", i, j));
            expect!(Ord::cmp(&a, &b), i.cmp(&j), format!("cmp of positions {} and {}", i, j));
            expect!(PartialOrd::partial_cmp(&a, &b), i.partial_cmp(&j), format!("partial_cmp of positions {} and {}", i, j));
            expect!((a < b, a <= b, a > b, a >= b), (i < j, i <= j, i > j, i >= j), format!("comparison of positions {} and {}", i, j));
        }
    }
    Ok(())
}
fn line_col(before: &str) -> (usize, usize) {
    let line = 1 + before.chars().filter(|c| *c == '\n').count();
    let col = 1 + before.len() - before.rfind('\n').map(|i| i + 1).unwrap_or(0);
    (line, col)
}
fn c03<S: CharStream>(s0: &S, text: &str) -> Result<(), String> {
    for (k, (off, _)) in text.char_indices().chain(Some((text.len(), ' '))).enumerate() {
        let (l, c) = line_col(&text[..off]);
        expect!(at(s0, k).location(), format!("{}:{}", l, c), format!("location after {} characters", k));
    }
    Ok(())
}
fn snippet(rest: &str, n: usize) -> String {
    if rest.is_empty() {
        return "<end-of-file>".into();
    }
    let mut out = String::new();
    for c in rest.chars() {
        if out.len() + c.len_utf8() > n {
            break;
        }
        out.push(c);
    }
    out
}
fn c04<S: CharStream>(s0: &S, text: &str) -> Result<(), String> {
    for (k, (off, _)) in text.char_indices().chain(Some((text.len(), ' '))).enumerate() {
        for n in (0..13).chain(Some(usize::MAX)) {
            expect!(at(s0, k).code_snippet(n), snippet(&text[off..], n), format!("code_snippet({}) after {} characters", n, k));
        }
    }
    Ok(())
}
fn c09(text: &str) -> Result<(), String> {
    let s0 = text.stream();
    let offs: Vec<usize> = text.char_indices().map(|x| x.0).chain(Some(text.len())).collect();
    let start = 1000u32;
    let fm = file_map(text, start);
    let f0 = (&fm).stream();
    for (i, a) in offs.iter().enumerate() {
        for (j, b) in offs.iter().enumerate() {
            if i > j {
                continue;
            }
            let sp = (at(&s0, i)..at(&s0, j)).stream_span();
            expect!((sp.lo.0, sp.hi.0), (*a as u32, *b as u32), format!("span of characters {}..{} of a string", i, j));
            let sp = (at(&f0, i)..at(&f0, j)).stream_span();
            expect!((sp.lo.0, sp.hi.0), (start + *a as u32, start + *b as u32), format!("span of characters {}..{} of a file map at {}", i, j, start));
        }
    }
    let mut want = vec![];
    for i in 0..text.len() {
        if i == 0 || text.as_bytes()[i - 1] == b'\n' {
            want.push(start + i as u32);
        }
    }
    let lines: Vec<u32> = fm.lines.borrow().iter().map(|b| b.0).collect();
    expect!(lines.clone(), want, "line starts registered in the file map");
    for (k, off) in offs.iter().enumerate() {
        let (l, c) = line_col(&text[..*off]);
        if l <= lines.len() {
            expect!(lines[l - 1] as usize + c - 1, start as usize + off, format!("position looked up from line {}:{} (after {} characters)", l, c, k));
        }
    }
    // a second stream over the same file map registers nothing more
    let _again = (&fm).stream();
    expect!(fm.count_lines(), lines.len(), "lines after a second stream on the same file map");
    Ok(())
}

/// long texts: what is only wrong far into a text. `ks` are the numbers of characters at which one looks.
fn long_texts() -> Vec<String> {
    let mixed: String = "ab\ncdé\r\n".chars().cycle().take(66000).collect();
    let lines: String = std::iter::repeat('\n').take(66000).chain(std::iter::repeat('x').take(66000)).collect();
    vec![mixed, lines]
}
fn long_case<S: CharStream>(which: &str, s0: &S, text: &str) -> Result<(), String> {
    let offs: Vec<usize> = text.char_indices().map(|x| x.0).chain(Some(text.len())).collect();
    let near = |b: usize| offs.iter().position(|&o| o >= b).unwrap_or(offs.len() - 1);
    let n = offs.len() - 1;
    let mut ks: Vec<usize> = vec![0, 1, 7, n / 3, n / 2, n - 1, n];
    for b in [255usize, 256, 257, 511, 4096, 32767, 32768, 65535, 65536, 65537, 65600, 66001] {
        ks.push(near(b));
    }
    ks.sort();
    ks.dedup();
    let mut at: Vec<S> = vec![];
    let (mut s, mut k) = (s0.clone(), 0);
    for &x in &ks {
        while k < x {
            s.next();
            k += 1;
        }
        at.push(s.clone());
    }
    for (a, &i) in at.iter().zip(&ks) {
        match which {
            "C01" => {
                expect!(a.has_next(), i < n, format!("has_next after {} characters", i));
                let rest = &text[offs[i]..];
                expect!(a.clone().next(), rest.chars().next(), format!("character {}", i));
                let p = leak(&text[offs[i]..offs[(i + 9).min(n)]]);
                let mut t = a.clone();
                expect!(t.consume_prefix(p), true, format!("consume_prefix({:?}) after {} characters", p, i));
                expect!(t.next(), text[offs[(i + 9).min(n)]..].chars().next(), format!("character after consume_prefix({:?}) after {}", p, i));
                expect!(a.clone().consume_prefix(leak(&(p.to_string() + "?"))), false, format!("consume_prefix of {:?} and `?` after {} characters", p, i));
            }
            "C02" => {
                for (b, &j) in at.iter().zip(&ks) {
                    expect!((a == b, a != b), (i == j, i != j), format!("== and != of positions {} and {}", i, j));
                    expect!(Ord::cmp(a, b), i.cmp(&j), format!("cmp of positions {} and {}", i, j));
                    expect!(PartialOrd::partial_cmp(a, b), i.partial_cmp(&j), format!("partial_cmp of positions {} and {}", i, j));
                    expect!((a < b, a <= b, a > b, a >= b), (i < j, i <= j, i > j, i >= j), format!("comparison of positions {} and {}", i, j));
                }
            }
            "C03" => {
                let (l, c) = line_col(&text[..offs[i]]);
                expect!(a.location(), format!("{}:{}", l, c), format!("location after {} characters", i));
            }
            "C04" => {
                for h in [0, 1, 2, 10, 256, 65535, 65536, 65540] {
                    expect!(a.code_snippet(h), snippet(&text[offs[i]..], h), format!("code_snippet({}) after {} characters", h, i));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn long_spans(text: &str) -> Result<(), String> {
    let offs: Vec<usize> = text.char_indices().map(|x| x.0).chain(Some(text.len())).collect();
    let start = 70000u32;
    let fm = file_map(text, start);
    let (s0, f0) = (text.stream(), (&fm).stream());
    for &k in &[0usize, 300, 65000, 65536, offs.len() - 1] {
        let k = k.min(offs.len() - 1);
        let sp = (s0.clone()..at(&s0, k)).stream_span();
        expect!((sp.lo.0, sp.hi.0), (0, offs[k] as u32), format!("span of the first {} characters of a string", k));
        let sp = (f0.clone()..at(&f0, k)).stream_span();
        expect!((sp.lo.0, sp.hi.0), (start, start + offs[k] as u32), format!("span of the first {} characters of a file map at {}", k, start));
    }
    let want: Vec<u32> = (0..text.len()).filter(|&i| i == 0 || text.as_bytes()[i - 1] == b'\n').map(|i| start + i as u32).collect();
    let lines: Vec<u32> = fm.lines.borrow().iter().map(|b| b.0).collect();
    if lines != want {
        return Err(format!("line starts registered in the file map: {} of them, {} in the text", lines.len(), want.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- parse states
#[derive(Clone, Debug)]
enum Op {
    Next,
    Prefix(&'static str),
    Error(&'static str),
    Success(u32),
    Failure,
    Mark,
    Restore,
    Extract,
    Discard,
}
type St<'a> = ParseState<StrStream<'a>, u32>;
#[derive(Clone, Debug, PartialEq)]
struct Model {
    pos: usize,
    far: usize,
    expected: Vec<&'static str>,
    failed: bool,
    data: Option<u32>,
}
fn compare<T: std::fmt::Debug + PartialEq>(s: &ParseState<StrStream, T>, data: Option<T>, m: &Model, s0: &StrStream, which: &str, step: &str) -> Result<(), String> {
    let p = |k: usize| at(s0, k);
    let set = |v: &[&'static str]| v.iter().cloned().collect::<BTreeSet<&'static str>>();
    if s.farthest_read != p(m.far) || set(&s.expected) != set(&m.expected) {
        if which != "C06" || s.farthest_read != p(m.far) {
            return Err(format!("{}: error information is {:?} at {}, the contract says {:?} at {}", step, s.expected, s.farthest_read.location(), m.expected, p(m.far).location()));
        }
        return Err(format!("{}: expected items are {:?}, the contract says {:?}", step, s.expected, m.expected));
    }
    if which != "C05" {
        if s.current != p(m.pos) {
            return Err(format!("{}: current position is {}, the contract says {}", step, s.current.location(), p(m.pos).location()));
        }
        expect!(s.failed, m.failed, format!("{}: failed", step));
        expect!(s.is_failed(), m.failed, format!("{}: is_failed()", step));
        expect!(s.is_successful(), !m.failed, format!("{}: is_successful()", step));
        if s.data != data {
            return Err(format!("{}: data is {:?}, the contract says {:?}", step, s.data, data));
        }
    }
    Ok(())
}
const ITEMS: [&str; 48] = ["x", "y", "z", "é", "", "aa", "ab", "ac", "ad", "ae", "af", "ag", "ah", "ai", "aj", "ak", "al", "am", "an", "ao", "ap", "aq", "ar", "as",
    "ba", "bb", "bc", "bd", "be", "bf", "bg", "bh", "bi", "bj", "bk", "bl", "bm", "bn", "bo", "bp", "bq", "br", "bs", "<character>", "[\"a-z\"]", "é€", "if", "\n"];
fn states(text: &str, ops: &[Op], which: &str) -> Result<(), String> {
    let s0 = text.stream();
    let chars: Vec<char> = text.chars().collect();
    let mut s: St = text.into_state();
    let mut m = Model { pos: 0, far: 0, expected: vec![], failed: false, data: None };
    let mut marks: Vec<(StrStream, usize)> = vec![];
    compare(&s, m.data, &m, &s0, which, "new")?;
    for (i, op) in ops.iter().enumerate() {
        let step = format!("step {} ({:?})", i, op);
        match op {
            Op::Next => {
                let c = s.next();
                expect!(c, chars.get(m.pos).cloned(), step);
                if c.is_some() {
                    m.pos += 1;
                }
            }
            Op::Prefix(p) => {
                let want = chars[m.pos..].iter().collect::<String>().starts_with(p);
                expect!(s.consume_prefix(*p), want, step);
                if want {
                    m.pos += p.chars().count();
                }
            }
            Op::Error(e) => {
                s.error(e);
                m.failed = true;
                if m.pos > m.far {
                    m.far = m.pos;
                    m.expected = vec![e];
                } else if m.pos == m.far {
                    m.expected.push(e);
                }
            }
            Op::Success(d) => {
                s = s.success(*d);
                m.failed = false;
                m.data = Some(*d);
            }
            Op::Failure => {
                s = s.failure();
                m.failed = true;
                m.data = None;
            }
            Op::Mark => {
                if m.failed {
                    continue;
                }
                let k = s.mark();
                if k != at(&s0, m.pos) {
                    return Err(format!("{}: the mark is at {}", step, k.location()));
                }
                marks.push((k, m.pos));
            }
            Op::Restore => {
                if m.data.is_some() || marks.is_empty() {
                    continue;
                }
                let (k, p) = marks[i % marks.len()].clone();
                let t = if m.failed && i % 2 == 0 { s.restore_from_failure(k) } else { s.restore(k) };
                m.pos = p;
                m.failed = false;
                compare(&t, None, &m, &s0, which, &step)?;
                s = ParseState { farthest_read: t.farthest_read, expected: t.expected, failed: t.failed, current: t.current, data: None };
            }
            Op::Extract => {
                if m.failed || m.data.is_none() {
                    continue;
                }
                let (t, d) = s.extract_data();
                expect!(Some(d), m.data, step);
                m.data = None;
                compare(&t, None, &m, &s0, which, &step)?;
                s = ParseState { farthest_read: t.farthest_read, expected: t.expected, failed: t.failed, current: t.current, data: None };
            }
            Op::Discard => {
                let mut t: ParseState<_, ()> = ParseState { farthest_read: s.farthest_read, expected: s.expected, failed: s.failed, current: s.current, data: m.data.map(|_| ()) };
                t.discard_data();
                m.data = None;
                compare(&t, None, &m, &s0, which, &step)?;
                s = ParseState { farthest_read: t.farthest_read, expected: t.expected, failed: t.failed, current: t.current, data: None };
            }
        }
        compare(&s, m.data, &m, &s0, which, &step)?;
    }
    if which == "C07" || which == "C08" {
        if m.data.is_none() && !m.failed {
            return Ok(());
        }
        let at_end = m.pos == chars.len();
        let far_off: usize = chars[..m.far].iter().map(|c| c.len_utf8()).sum();
        let items: BTreeSet<&str> = m.expected.iter().cloned().collect();
        let (l, c) = line_col(&text[..far_off]);
        let shown = format!("{:?}", clone_state(&s).into_result());
        let r = s.into_result();
        let exp = match (&r, m.data, at_end) {
            (ParseResult::Success(d), Some(w), true) if *d == w => None,
            (ParseResult::Partial(d, e), Some(w), false) if *d == w => Some(e),
            (ParseResult::Failure(e), None, _) => Some(e),
            _ => return Err(format!("into_result gives {:?} for data {:?}, {} the end of the input", r, m.data, if at_end { "at" } else { "before" })),
        };
        let head = match (m.data, at_end) {
            (Some(d), true) => format!("Full match, got data `{}`.", d),
            (Some(d), false) => format!("Partial match, got data `{}`. It stopped because:\n\t", d),
            (None, _) => "Error:\n\t".to_string(),
        };
        // every expected item once, in any order
        let listed = |x: &str| -> Vec<String> {
            let mut v: Vec<String> = x.split(" or ").map(|y| y.to_string()).collect();
            v.sort();
            v
        };
        let mut want: Vec<String> = items.iter().map(|x| format!("`{}`", x)).collect();
        want.sort();
        if want.is_empty() {
            want.push(String::new());
        }
        let mut ok = true;
        let mut model = head.clone();
        match exp {
            None => ok = shown == head,
            Some(e) => {
                if listed(&e.expected_items()) != want {
                    return Err(format!("expected items {}, the contract says {} in some order", e.expected_items(), want.join(" or ")));
                }
                let pre = format!("{}{}:{}: unexpected `{}`, expecting ", head, l, c, snippet(&text[far_off..], 10));
                model = format!("{}{}.", pre, want.join(" or "));
                ok = shown.starts_with(&pre) && shown.ends_with('.') && shown.len() > pre.len() && listed(&shown[pre.len()..shown.len() - 1]) == want;
            }
        }
        if which == "C08" && !ok {
            return Err(format!("the report is {:?}, the contract says {:?} (items in some order)", shown, model));
        }
        if which == "C07" {
            if let Some(e) = exp {
                let t = format!("{:?}", e);
                if !t.starts_with(&format!("{}:{}:", l, c)) {
                    return Err(format!("the result reports {:?}, the farthest failure is at {}:{}", t, l, c));
                }
            }
        }
    }
    Ok(())
}
fn clone_state<'a>(s: &St<'a>) -> St<'a> {
    ParseState { farthest_read: s.farthest_read.clone(), expected: s.expected.clone(), failed: s.failed, current: s.current.clone(), data: s.data }
}
fn random_ops(r: &mut Rng, n: usize, items: usize) -> Vec<Op> {
    (0..n)
        .map(|_| match r.below(if items > 3 { 40 } else { 14 }) {
            0 | 1 | 2 => Op::Next,
            3 => Op::Prefix(["a", "é", "", "a\n"][r.below(4)]),
            4 | 5 | 6 | 14..=39 => Op::Error(ITEMS[r.below(items)]),
            7 => Op::Success(r.below(3) as u32),
            8 => Op::Failure,
            9 => Op::Mark,
            10 | 11 => Op::Restore,
            12 => Op::Extract,
            _ => Op::Discard,
        })
        .collect()
}
fn all_ops(len: usize, pick: &[Op]) -> Vec<Vec<Op>> {
    let mut all: Vec<Vec<Op>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..len {
        let to = all.len();
        for i in from..to {
            for o in pick {
                let mut v = all[i].clone();
                v.push(o.clone());
                all.push(v);
            }
        }
        from = to;
    }
    all
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let which = std::env::args().nth(1).expect("property");
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    std::panic::set_hook(Box::new(|_| {}));
    let mut rep = Report::default();
    let rule;
    match which.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C09" => {
            let len = if thorough { 6 } else { 4 };
            let n = if thorough { 20000 } else { 1500 };
            rule = format!("every text over {:?} up to {} characters, then {} random texts up to 40 characters, and two texts beyond 65536 bytes at some positions; every position of each; non-trivial: the text has a newline or a multi-byte character", ALPHABET, len, n);
            for (i, text) in long_texts().iter().enumerate() {
                let case = || format!("long text {} ({:?} and so on, {} bytes)", i, &text[..9], text.len());
                let fm = file_map(text, 17);
                if which == "C09" {
                    rep.check(case, true, || long_spans(text));
                } else {
                    rep.check(case, true, || long_case(&which, &text.as_str().stream(), text));
                    rep.check(case, true, || long_case::<FileMapStream>(&which, &(&fm).stream(), text).map_err(|m| "file map: ".to_string() + &m));
                }
            }
            let mut all = texts(len);
            for _ in 0..n {
                all.push(random_text(&mut rng, 40));
            }
            for text in &all {
                let other = random_text(&mut rng, 3);
                let nt = text.contains('\n') || !text.is_ascii();
                let case = || format!("text {:?}", text);
                let chars = text.chars().count();
                let fm = file_map(text, 17);
                match which.as_str() {
                    "C01" => {
                        rep.check(case, nt, || c01(&text.as_str().stream(), text, &other));
                        rep.check(case, nt, || c01::<FileMapStream>(&(&fm).stream(), text, &other).map_err(|m| "file map: ".to_string() + &m));
                        rep.check(case, nt, || c01(&text.stream(), text, &other).map_err(|m| "&String: ".to_string() + &m));
                    }
                    "C02" => {
                        rep.check(case, nt, || c02(&text.as_str().stream(), chars));
                        rep.check(case, nt, || c02::<FileMapStream>(&(&fm).stream(), chars).map_err(|m| "file map: ".to_string() + &m));
                    }
                    "C03" => {
                        rep.check(case, nt, || c03(&text.as_str().stream(), text));
                        rep.check(case, nt, || c03::<FileMapStream>(&(&fm).stream(), text).map_err(|m| "file map: ".to_string() + &m));
                        rep.check(case, nt, || {
                            let s0 = text.as_str().stream();
                            for (k, (off, _)) in text.char_indices().chain(Some((text.len(), ' '))).enumerate() {
                                expect!(at(&s0, k).line_column(), line_col(&text[..off]), format!("line_column after {} characters", k));
                            }
                            Ok(())
                        });
                    }
                    "C04" => {
                        rep.check(case, nt, || c04(&text.as_str().stream(), text));
                        rep.check(case, nt, || c04::<FileMapStream>(&(&fm).stream(), text).map_err(|m| "file map: ".to_string() + &m));
                    }
                    _ => rep.check(case, nt, || c09(text)),
                }
            }
        }
        "C05" | "C06" | "C07" | "C08" => {
            let len = if thorough { 6 } else { 5 };
            let n = if thorough { 300000 } else { 20000 };
            rule = format!("every sequence up to {} of 7 state operations on \"aé\\nb\", then {} random sequences up to 14 (one in eight: up to 120, mostly failures of 48 items) of all operations on random texts; non-trivial: some attempt fails", len, n);
            let pick = [Op::Next, Op::Error("x"), Op::Error("y"), Op::Success(1), Op::Failure, Op::Mark, Op::Restore];
            for ops in all_ops(len, &pick) {
                let nt = ops.iter().any(|o| matches!(o, Op::Error(_)));
                rep.check(|| format!("text \"aé\\nb\", operations {:?}", ops), nt, || states("aé\nb", &ops, &which));
            }
            for _ in 0..n {
                let text = random_text(&mut rng, 16);
                let wide = rng.below(8) == 0;
                let k = 1 + rng.below(if wide { 120 } else { 14 });
                let ops = random_ops(&mut rng, k, if wide { ITEMS.len() } else { 3 });
                let nt = ops.iter().any(|o| matches!(o, Op::Error(_)));
                rep.check(|| format!("text {:?}, operations {:?}", text, ops), nt, || states(&text, &ops, &which));
            }
        }
        _ => panic!("unknown property"),
    }
    println!(
        "{{\"evaluations\":{},\"nontrivial\":{},\"rule\":{},\"samples\":[{}],\"failures\":[{}]}}",
        rep.evaluations,
        rep.nontrivial,
        json(&rule),
        rep.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
        rep.failures.iter().map(|s| json(s)).collect::<Vec<_>>().join(",")
    );
}
