//! Input texts and token sets for the lexing checks.
use crate::gen;
use crate::rx;
use crate::util::Rng;
use regex_syntax::hir::Hir;
use std::collections::BTreeSet;

/// Text built from matches of the kinds, damaged matches, blanks and strangers.
/// `ascii`: printable ASCII, space and newline only (what the type-level runtime supports).
pub fn text(rng: &mut Rng, kinds: &[Hir], pieces: usize, ascii: bool, clean: bool) -> String {
    let mut o = String::new();
    let strangers = ["~", "@", "é", "𝄞", "\u{0}", "\t", "\r", "Q", "9", "!", "\u{10FFFF}", "\\", "\"", "'", "\u{a0}", "\u{2028}", "$"];
    let strangers_ascii = ["~", "@", "Q", "9", "!", "\\", "\"", "'", "$", "`", "{", "}"];
    let blanks = [" ", "\n", "  ", " \n ", "\n\n"];
    for _ in 0..pieces {
        let roll = if clean { rng.below(12) } else { rng.below(20) };
        match roll {
            0..=8 => {
                if kinds.is_empty() {
                    continue;
                }
                let h = rng.pick(kinds);
                if let Some(s) = rx::sample_str(h, rng, ascii) {
                    o.push_str(&s);
                }
                if clean && rng.chance(2, 3) {
                    o.push(' ');
                }
            }
            9..=11 => o.push_str(*rng.pick(&blanks)),
            12..=15 => {
                // a match with its end cut off: the lexer has to come back
                if kinds.is_empty() {
                    continue;
                }
                let h = rng.pick(kinds);
                if let Some(s) = rx::sample_str(h, rng, ascii) {
                    let n = s.chars().count();
                    let k = rng.below(n + 1);
                    o.extend(s.chars().take(k));
                }
            }
            16..=17 => {
                let mut cs = BTreeSet::new();
                if let Some(h) = kinds.get(rng.below(kinds.len().max(1))) {
                    rx::boundary_chars(h, &mut cs);
                }
                let v: Vec<char> = cs.into_iter().filter(|c| !ascii || (' '..='~').contains(c)).collect();
                if !v.is_empty() {
                    o.push(*rng.pick(&v));
                }
            }
            _ => o.push_str(if ascii { *rng.pick(&strangers_ascii) } else { *rng.pick(&strangers) }),
        }
    }
    if ascii {
        o.retain(|c| (' '..='~').contains(&c) || c == '\n');
    }
    o
}

/// Families of token sets in which several kinds compete for the same text.
pub const RIVALS: &[&[&str]] = &[
    &["if", "[a-z]+", "i", "iff", "if|else"],
    &["[a-z]+", "if", "[a-z]", "[a-c]+", "abc"],
    &["=", "==", "===", "=+", "=>", "=>>"],
    &["a", "ab", "abc", "abcde", "bcd", "cde", "e", "d"],
    &["[0-9]+", "[0-9]+[.][0-9]+", "[.]", "[1-9][0-9]*", "0"],
    &["a*", "a", "aa", "b", "(ab)*"],
    &["a*b", "a", "b", "aab"],
    &["(a|b)*abb", "a", "b", "ab"],
    &["\"[^\"]*\"", "\"", "[a-z]+"],
    &["/[*]([^*]|[*][^/])*[*]/", "/", "[*]", "[a-z]"],
    &[" a", "a", "  b", "b", " "],
    &["a b", "a", "b", "b c"],
    &["\n", "a", "[ \n]+b", "b"],
    &["[a-z]+", "[a-z]+[0-9]", "[a-z0-9]+x", "[0-9]"],
    &["é", "éé", "[à-ü]+", "e", "[a-zé]+!"],
    &["𝄞", "𝄞𝄞x", "中", "[一-龥]+", "x"],
    &["x", "x", "y"],
    &["[ab]", "[bc]", "[cd]", "[a-d][a-d][a-d]"],
    &["a+", "a+b", "a+c", "(a+b)+d"],
    &["", "a", "b*", "c?"],
    &[".", "a", "[^a]", "ab"],
    &["[^a]", "a", "..", "\n"],
];

/// Regex texts of a token set; some repeated on purpose when `dups`.
pub fn token_set(rng: &mut Rng, plain: bool, unicode: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let more = rng.chance(1, 3);
    match rng.below(if more { 6 } else { 4 }) {
        4 => {
            // a great many kinds
            let n = if rng.chance(1, 20) { rng.range(257, 300) } else { rng.range(15, 70) };
            for i in 0..n {
                v.push(match rng.below(8) {
                    0 => rng.pick(gen::RES).to_string(),
                    1 => regex::escape(*rng.pick(gen::LITS)),
                    2 => format!("k{}[a-z]*", i % 7),
                    _ => format!("k{}", i),
                });
            }
        }
        5 => {
            for _ in 0..rng.range(1, 3) {
                v.push(rx::large(rng, 1, rx::RxOpts { plain, unicode, empties: false }));
            }
            v.push(rng.pick(gen::RES).to_string());
            for _ in 0..rng.range(1, 3) {
                v.push(rng.pick(&["a", "a.", "[a-c]", "ab", "[a-c][a-c]", "b", ".", "[a-z]+"]).to_string());
            }
            if rng.chance(1, 2) {
                rng.shuffle(&mut v);
            }
        }
        0 | 1 => {
            v = rng.pick(RIVALS).iter().map(|s| s.to_string()).collect();
            rng.shuffle(&mut v);
            let k = rng.range(1, v.len());
            v.truncate(k);
        }
        2 => {
            for _ in 0..rng.range(1, 6) {
                v.push(match rng.below(3) {
                    0 => regex::escape(*rng.pick(gen::LITS)),
                    1 => rng.pick(gen::RES).to_string(),
                    _ => rx::gen(rng, 2, rx::RxOpts { plain, unicode, empties: true }),
                });
            }
        }
        _ => {
            // many kinds
            for _ in 0..rng.range(6, 14) {
                v.push(if rng.chance(3, 4) { regex::escape(*rng.pick(gen::LITS)) } else { rng.pick(gen::RES).to_string() });
            }
        }
    }
    if !unicode {
        v.retain(|s| s.is_ascii());
    }
    v.retain(|r| rx::parse(r).map_or(false, |h| !rx::unsupported(&h)));
    if v.is_empty() {
        v.push("a".into());
    }
    v
}
