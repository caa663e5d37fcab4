//! Independent regex semantics (end-position sets over the parsed regex), sampling and generation.
use crate::util::Rng;
use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind};
use std::collections::{BTreeSet, HashMap};

pub fn parse(re: &str) -> Option<Hir> {
    regex_syntax::Parser::new().parse(re).ok()
}

/// A construct the generator does not support?
pub fn unsupported(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Empty | HirKind::Literal(_) | HirKind::Class(_) => false,
        HirKind::Anchor(_) | HirKind::WordBoundary(_) => true,
        HirKind::Repetition(r) => matches!(r.kind, RepetitionKind::Range(_)) || unsupported(&r.hir),
        HirKind::Group(g) => unsupported(&g.hir),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().any(unsupported),
    }
}

pub fn ranges(c: &Class) -> Vec<(u32, u32)> {
    match c {
        Class::Unicode(c) => c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
        Class::Bytes(c) => c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
    }
}

/// All positions at which a match starting at `i` can end.
pub fn ends(h: &Hir, s: &[char], i: usize) -> BTreeSet<usize> {
    let mut memo = HashMap::new();
    ends_m(h, s, i, &mut memo)
}

fn ends_m(h: &Hir, s: &[char], i: usize, memo: &mut HashMap<(*const Hir, usize), BTreeSet<usize>>) -> BTreeSet<usize> {
    let key = (h as *const Hir, i);
    if let Some(r) = memo.get(&key) {
        return r.clone();
    }
    let r: BTreeSet<usize> = match h.kind() {
        HirKind::Empty => [i].into(),
        HirKind::Literal(l) => {
            let want = match l {
                Literal::Unicode(c) => *c as u32,
                Literal::Byte(b) => *b as u32,
            };
            if i < s.len() && s[i] as u32 == want {
                [i + 1].into()
            } else {
                BTreeSet::new()
            }
        }
        HirKind::Class(c) => {
            if i < s.len() && ranges(c).iter().any(|(a, b)| *a <= s[i] as u32 && s[i] as u32 <= *b) {
                [i + 1].into()
            } else {
                BTreeSet::new()
            }
        }
        HirKind::Anchor(_) | HirKind::WordBoundary(_) => BTreeSet::new(),
        HirKind::Group(g) => ends_m(&g.hir, s, i, memo),
        HirKind::Concat(v) => {
            let mut cur: BTreeSet<usize> = [i].into();
            for e in v {
                let mut nx = BTreeSet::new();
                for p in cur {
                    nx.extend(ends_m(e, s, p, memo));
                }
                cur = nx;
            }
            cur
        }
        HirKind::Alternation(v) => {
            let mut o = BTreeSet::new();
            for e in v {
                o.extend(ends_m(e, s, i, memo));
            }
            o
        }
        HirKind::Repetition(rep) => {
            let (min, many) = match rep.kind {
                RepetitionKind::ZeroOrOne => (0, false),
                RepetitionKind::ZeroOrMore => (0, true),
                RepetitionKind::OneOrMore => (1, true),
                RepetitionKind::Range(_) => return BTreeSet::new(),
            };
            let mut o = BTreeSet::new();
            if min == 0 {
                o.insert(i);
            }
            let mut seen = BTreeSet::new();
            let mut w = vec![i];
            while let Some(p) = w.pop() {
                for e in ends_m(&rep.hir, s, p, memo) {
                    o.insert(e);
                    if many && seen.insert(e) {
                        w.push(e);
                    }
                }
            }
            o
        }
    };
    memo.insert(key, r.clone());
    r
}

pub fn full_match(h: &Hir, s: &[char]) -> bool {
    ends(h, s, 0).contains(&s.len())
}

/// A random string of the language (None if this attempt ran into an empty class).
pub fn sample(h: &Hir, rng: &mut Rng, ascii: bool, out: &mut String, fuel: &mut usize) -> Option<()> {
    match h.kind() {
        HirKind::Empty | HirKind::Anchor(_) | HirKind::WordBoundary(_) => {}
        HirKind::Literal(l) => out.push(match l {
            Literal::Unicode(c) => *c,
            Literal::Byte(b) => *b as char,
        }),
        HirKind::Class(c) => {
            let mut rs = ranges(c);
            if ascii {
                let f: Vec<_> = rs
                    .iter()
                    .filter(|(a, b)| *a < 0x7f && *b >= 0x20)
                    .map(|(a, b)| ((*a).max(0x20), (*b).min(0x7e)))
                    .collect();
                if !f.is_empty() {
                    rs = f;
                }
            }
            if rs.is_empty() {
                return None;
            }
            let (a, b) = *rng.pick(&rs);
            let v = match rng.below(4) {
                0 => a,
                1 => b,
                _ => a + rng.below((b - a + 1) as usize) as u32,
            };
            out.push(char::from_u32(v).or_else(|| char::from_u32(a))?);
        }
        HirKind::Group(g) => sample(&g.hir, rng, ascii, out, fuel)?,
        HirKind::Concat(v) => {
            for e in v {
                sample(e, rng, ascii, out, fuel)?;
            }
        }
        HirKind::Alternation(v) => sample(rng.pick(v), rng, ascii, out, fuel)?,
        HirKind::Repetition(rep) => {
            let (lo, hi) = match rep.kind {
                RepetitionKind::ZeroOrOne => (0, 1),
                RepetitionKind::ZeroOrMore => (0, 3),
                RepetitionKind::OneOrMore => (1, 4),
                RepetitionKind::Range(_) => (1, 1),
            };
            let n = if *fuel == 0 { lo } else { rng.range(lo, hi) };
            for _ in 0..n {
                *fuel = fuel.saturating_sub(1);
                sample(&rep.hir, rng, ascii, out, fuel)?;
            }
        }
    }
    Some(())
}

pub fn sample_str(h: &Hir, rng: &mut Rng, ascii: bool) -> Option<String> {
    let mut o = String::new();
    let mut fuel = *rng.pick(&[12, 12, 12, 12, 12, 40]);
    sample(h, rng, ascii, &mut o, &mut fuel)?;
    Some(o)
}

/// As `sample_str`, with about `n` characters if the regex allows it.
pub fn long_str(h: &Hir, rng: &mut Rng, n: usize) -> Option<String> {
    let mut best = String::new();
    for _ in 0..6 {
        let mut o = String::new();
        let mut fuel = n;
        sample(h, rng, false, &mut o, &mut fuel)?;
        if o.len() > best.len() {
            best = o;
        }
    }
    Some(best)
}

/// Characters at and around every boundary of every class and literal.
pub fn boundary_chars(h: &Hir, out: &mut BTreeSet<char>) {
    fn add(v: u32, out: &mut BTreeSet<char>) {
        for d in [-1i64, 0, 1] {
            let x = v as i64 + d;
            if x >= 0 {
                if let Some(c) = char::from_u32(x as u32) {
                    out.insert(c);
                }
            }
        }
    }
    match h.kind() {
        HirKind::Literal(Literal::Unicode(c)) => add(*c as u32, out),
        HirKind::Literal(Literal::Byte(c)) => add(*c as u32, out),
        HirKind::Class(c) => {
            for (a, b) in ranges(c).into_iter().take(40) {
                add(a, out);
                add(b, out);
            }
        }
        HirKind::Group(g) => boundary_chars(&g.hir, out),
        HirKind::Repetition(r) => boundary_chars(&r.hir, out),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().for_each(|e| boundary_chars(e, out)),
        _ => {}
    }
}

#[derive(Clone, Copy)]
pub struct RxOpts {
    /// no backslashes or quotes (so that it can be written in a grammar source)
    pub plain: bool,
    pub unicode: bool,
    /// allow empty branches
    pub empties: bool,
}

pub fn gen(rng: &mut Rng, depth: usize, o: RxOpts) -> String {
    if rng.chance(1, 40) {
        return large(rng, depth.min(2), o);
    }
    gen_alt(rng, depth, o)
}

/// Regexes that are large in one direction.
pub fn large(rng: &mut Rng, depth: usize, o: RxOpts) -> String {
    let letters = |rng: &mut Rng, n: usize, k: usize| -> String { (0..n).map(|_| (b'a' + rng.below(k) as u8) as char).collect() };
    match rng.below(9) {
        0 => {
            // many words with common beginnings: automaton states stand for many positions
            let n = rng.range(20, 110);
            let k = rng.range(1, 3);
            if rng.chance(1, 2) {
                // one state for all of them after the first character, not accepting by itself
                return (0..n)
                    .map(|i| format!("a[{}-z]{}", (b'b' + (i % 20) as u8) as char, letters(rng, 1, 3)))
                    .collect::<Vec<_>>()
                    .join("|");
            }
            let mut v: Vec<String> = (0..n)
                .map(|_| {
                    let m = rng.range(1, 4);
                    letters(rng, m, k)
                })
                .collect();
            if rng.chance(1, 2) {
                let last = v[0].chars().take(1).collect::<String>();
                v.push(last);
            }
            v.join("|")
        }
        1 => {
            // a long word
            let n = rng.range(15, 120);
            let k = rng.range(1, 26);
            letters(rng, n, k)
        }
        2 => {
            // a class of many ranges
            let n = rng.range(8, 60);
            let mut s = String::from(if rng.chance(1, 3) { "[^" } else { "[" });
            for i in 0..n {
                if o.unicode {
                    let a = 0x100 + 40 * i as u32 + rng.below(10) as u32;
                    s.push(char::from_u32(a).unwrap());
                    s.push('-');
                    s.push(char::from_u32(a + rng.below(25) as u32).unwrap());
                } else {
                    s.push(*rng.pick(&"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+*.".chars().collect::<Vec<_>>()));
                }
            }
            s + "]" + *rng.pick(&["", "+", "*"])
        }
        3 => {
            // groups in groups
            let n = rng.range(5, 30);
            let mut s = letters(rng, 1, 3);
            for _ in 0..n {
                let l = letters(rng, 1, 3);
                s = match rng.below(7) {
                    0 => format!("({}{})", l, s),
                    1 => format!("({}|{})", s, l),
                    2 => format!("({})*", s),
                    3 => format!("({})?{}", s, l),
                    4 => format!("({})+", s),
                    5 => format!("{}({})", l, s),
                    _ => format!("({})", s),
                };
            }
            s
        }
        4 => {
            // the k-th last character decides: exponentially many subsets
            let k = rng.range(2, 6);
            format!("(a|b)*a{}", "(a|b)".repeat(k))
        }
        5 => {
            // many optional parts
            let n = rng.range(4, 16);
            (0..n).map(|_| format!("{}{}", letters(rng, 1, 3), rng.pick(&["?", "*", "?", ""]))).collect()
        }
        6 => {
            // the same character again and again
            let n = rng.range(3, 80);
            format!("{}{}", "a".repeat(n), rng.pick(&["", "+", "*", "b"]))
        }
        7 => {
            // overlapping classes side by side
            let n = rng.range(3, 14);
            let v: Vec<String> = (0..n)
                .map(|_| {
                    let a = rng.below(20);
                    let b = a + rng.below(26 - a);
                    format!("[{}-{}]{}", (b'a' + a as u8) as char, (b'a' + b as u8) as char, rng.pick(&["", "", "+", "*", "?"]))
                })
                .collect();
            v.join(*rng.pick(&["", "|"]))
        }
        _ => {
            let n = rng.range(4, 12);
            (0..n).map(|_| format!("({})", gen_alt(rng, depth, o))).collect::<Vec<_>>().join(*rng.pick(&["", "|"]))
        }
    }
}

fn gen_alt(rng: &mut Rng, depth: usize, o: RxOpts) -> String {
    let n = if depth > 0 && rng.chance(1, 3) { rng.range(2, 3) } else { 1 };
    let mut parts = vec![];
    for _ in 0..n {
        if n > 1 && o.empties && rng.chance(1, 6) {
            parts.push(String::new());
        } else {
            parts.push(gen_cat(rng, depth, o));
        }
    }
    parts.join("|")
}

fn gen_cat(rng: &mut Rng, depth: usize, o: RxOpts) -> String {
    let n = *rng.pick(&[1, 1, 1, 2, 2, 3]);
    (0..n).map(|_| gen_rep(rng, depth, o)).collect()
}

fn gen_rep(rng: &mut Rng, depth: usize, o: RxOpts) -> String {
    let a = gen_atom(rng, depth, o);
    if rng.chance(2, 5) {
        let q = *rng.pick(&["*", "+", "?", "*", "+", "?", "*?", "+?", "??"]);
        format!("{}{}", a, q)
    } else {
        a
    }
}

fn gen_atom(rng: &mut Rng, depth: usize, o: RxOpts) -> String {
    if depth > 0 && rng.chance(1, 3) {
        let inner = gen_alt(rng, depth - 1, o);
        return match rng.below(6) {
            0 => format!("(?:{})", inner),
            1 if !o.plain => format!("(?P<g{}>{})", rng.below(100000), inner),
            2 if !o.plain => format!("(?i:{})", inner),
            _ => format!("({})", inner),
        };
    }
    if rng.chance(1, 3) {
        return gen_class(rng, o);
    }
    let plain = ["a", "b", "c", "d", "x", "0", "1", "9", "-", "=", "<", "ab", "z", "_"];
    let esc = ["\\.", "\\+", "\\*", "\\\\", "\\n", "\\t", "\\x41", "\\(", "\\|", "\\[", "\\u{e9}", "\\x{10FFFF}", "\\x00"];
    let uni = ["é", "ü", "λ", "中", "𝄞", "\u{a0}", "ß", "\u{10FFFF}", "\u{D7FF}", "\u{E000}"];
    match rng.below(10) {
        0 if !o.plain => rng.pick(&esc).to_string(),
        1 if o.unicode => rng.pick(&uni).to_string(),
        2 if rng.chance(1, 3) => ".".into(),
        3 if !o.plain && o.unicode && rng.chance(1, 6) => rng.pick(&["\\d", "\\s", "\\p{Greek}", "(?-u:\\d)", "(?-u:[a-z])"]).to_string(),
        4 if !o.plain => rng.pick(&["(?-u:\\d)", "(?-u:\\w)", "(?-u:\\s)"]).to_string(),
        _ => rng.pick(&plain).to_string(),
    }
}

fn gen_class(rng: &mut Rng, o: RxOpts) -> String {
    let items = ["a-c", "b-d", "a", "x-z", "0-9", "1-5", "5", "m", "A-F", "_", "a-z", "0-4", "3-7", "+", "*", ".", "(", " "];
    let uni = ["à-ü", "é", "α-ω", "\u{D7FF}", "\u{E000}-\u{F000}", "𝄀-𝅘", "\u{10000}-\u{10FFFF}"];
    let mut s = String::from("[");
    if rng.chance(1, 5) {
        s.push('^');
    }
    let n = rng.range(1, 3);
    for _ in 0..n {
        if o.unicode && rng.chance(1, 6) {
            s.push_str(*rng.pick(&uni));
        } else if !o.plain && rng.chance(1, 12) {
            s.push_str(*rng.pick(&["[:alpha:]", "\\-", "\\]", "\\n", "\\\\"]));
        } else {
            s.push_str(*rng.pick(&items));
        }
    }
    s.push(']');
    s
}
