//! Reference lexer: longest non-empty match at every position, ties to the first listed kind,
//! one space or newline skipped only where nothing matches, stop otherwise.
use crate::rx;
use regex_syntax::hir::Hir;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Tok {
    /// index in the kind list
    pub kind: usize,
    pub start: usize,
    pub end: usize,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct Lexed {
    pub toks: Vec<Tok>,
    pub consumed: usize,
    pub total: usize,
    pub skipped: usize,
    /// positions where several kinds tied for the longest match
    pub ties: usize,
    /// positions where the automaton had to come back from a longer candidate
    pub multi_len: usize,
}

impl Lexed {
    pub fn complete(&self) -> bool {
        self.consumed == self.total
    }
}

pub fn lex(kinds: &[Hir], input: &str) -> Lexed {
    let cs: Vec<char> = input.chars().collect();
    let mut o = Lexed { total: cs.len(), ..Default::default() };
    let mut i = 0;
    while i < cs.len() {
        let mut best: Option<(usize, usize)> = None;
        let mut lens = std::collections::BTreeSet::new();
        let mut tie = false;
        for (k, h) in kinds.iter().enumerate() {
            if let Some(&e) = rx::ends(h, &cs, i).iter().next_back() {
                if e > i {
                    lens.insert(e);
                    match best {
                        Some((_, b)) if b > e => {}
                        Some((_, b)) if b == e => tie = true,
                        _ => {
                            tie = false;
                            best = Some((k, e))
                        }
                    }
                }
            }
        }
        if let Some((k, e)) = best {
            if tie {
                o.ties += 1;
            }
            if lens.len() > 1 {
                o.multi_len += 1;
            }
            o.toks.push(Tok {
                kind: k,
                start: i,
                end: e,
                text: cs[i..e].iter().collect(),
            });
            i = e;
        } else if cs[i] == ' ' || cs[i] == '\n' {
            o.skipped += 1;
            i += 1;
        } else {
            break;
        }
    }
    o.consumed = i;
    o
}

/// Every kind whose longest match at `start` ends at `end`.
pub fn tied(kinds: &[Hir], cs: &[char], start: usize, end: usize) -> Vec<usize> {
    kinds
        .iter()
        .enumerate()
        .filter(|(_, h)| rx::ends(h, cs, start).iter().next_back() == Some(&end))
        .map(|(k, _)| k)
        .collect()
}
