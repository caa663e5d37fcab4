//! Inputs and the expected verdict for the recogniser.
use crate::model::*;
use crate::util::Rng;
use crate::{glue, lexref, lr, rx};
use regex_syntax::hir::Hir;

pub struct Oracle {
    pub cfg: Cfg,
    pub la: lr::Lalr,
    pub kinds: Vec<Sym>,
    pub hirs: Vec<Hir>,
    pub merged: bool,
    /// the grammar is LALR(1); otherwise only short inputs are decided, by Earley's algorithm
    pub lalr1: bool,
}

/// None when the grammar is outside the preconditions (or larger than the bound).
pub fn oracle(g: &Gram, max_states: usize) -> Option<Oracle> {
    oracle_any(g, max_states).filter(|o| o.lalr1)
}

/// Also for grammars with conflicts.
pub fn oracle_any(g: &Gram, max_states: usize) -> Option<Oracle> {
    let cfg = Cfg::of(g)?;
    if cfg.undefined_reachable() || !cfg.all_defined() || !glue::distinct_texts(g) || !glue::regexes_ok(g) {
        return None;
    }
    let l1 = lr::canonical(&cfg, max_states)?;
    let la = lr::lalr(&cfg, &l1);
    let kinds = glue::kinds(g);
    let hirs = kinds.iter().filter_map(glue::hir_of).collect();
    let merged = l1.states.len() > la.states.len();
    let lalr1 = la.conflicts == 0;
    Some(Oracle { cfg, la, kinds, hirs, merged, lalr1 })
}

impl Oracle {
    pub fn hir(&self, t: u32) -> &Hir {
        let s = &self.cfg.terminals[t as usize];
        &self.hirs[self.kinds.iter().position(|k| k == s).unwrap()]
    }

    /// The tokens of a text in the oracle's numbers; None if it does not tokenise entirely.
    pub fn tokens(&self, input: &str) -> Option<Vec<(u32, String)>> {
        let l = lexref::lex(&self.hirs, input);
        if !l.complete() {
            return None;
        }
        Some(l.toks.into_iter().map(|t| (self.cfg.term(&self.kinds[t.kind]).unwrap(), t.text)).collect())
    }

    pub fn accepts(&self, input: &str) -> bool {
        match self.tokens(input) {
            None => false,
            Some(t) => {
                let w: Vec<u32> = t.iter().map(|x| x.0).collect();
                if !self.lalr1 {
                    return lr::earley(&self.cfg, &w);
                }
                let by_tables = lr::run_tables(&self.la, &self.cfg, &w).is_ok();
                if w.len() <= 80 {
                    assert!(lr::earley(&self.cfg, &w) == by_tables, "the two reference recognisers disagree on {:?}", input);
                }
                by_tables
            }
        }
    }

    /// Write out a token sequence as text.
    pub fn render(&self, rng: &mut Rng, toks: &[u32], ascii: bool) -> String {
        let tight = rng.chance(1, 5);
        let mut s = String::new();
        for t in toks {
            if let Some(x) = rx::sample_str(self.hir(*t), rng, ascii) {
                s.push_str(&x);
            }
            if !tight || rng.chance(1, 3) {
                s.push_str(*rng.pick(&[" ", " ", " ", "\n", "  "]));
            }
        }
        if rng.chance(1, 3) {
            s = s.trim_end_matches(|c| c == ' ' || c == '\n').to_string();
        }
        s
    }

    pub fn mutate(&self, rng: &mut Rng, w: &mut Vec<u32>) {
        let nt = self.cfg.terminals.len() - 1;
        if nt == 0 {
            return;
        }
        for _ in 0..rng.range(1, 2) {
            let t = 1 + rng.below(nt) as u32;
            let k = rng.below(w.len() + 1);
            match rng.below(6) {
                0 => w.insert(k, t),
                1 if k < w.len() => w[k] = t,
                2 if k < w.len() => {
                    w.remove(k);
                }
                3 if k + 1 < w.len() => w.swap(k, k + 1),
                4 => w.truncate(k),
                _ => {
                    let c = w.clone();
                    w.extend(c);
                }
            }
        }
    }
}
