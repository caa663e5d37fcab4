//! L02: splitting ranges gives an exact disjoint partition; automata are deterministic.
use harness::{inputs, rx, util::*};
use std::collections::BTreeSet;
use typelalr::lex::dfa::{remove_overlap, DFA};
use typelalr::lex::lex::{Lex, TokenDef};
use typelalr::lex::nfa::{Match, StateIdx, NFA};

/// What the splitting must give back: checked interval by interval between all end points.
fn check(ranges: &BTreeSet<(u32, u32)>, out: &[(u32, u32)]) -> Result<(), String> {
    let mut cuts = BTreeSet::new();
    for (a, b) in ranges.iter().chain(out) {
        cuts.insert(*a);
        cuts.insert(*b);
    }
    for r in out {
        if r.0 >= r.1 {
            return Err(format!("empty part {:?}", r));
        }
        for i in ranges.iter().filter(|i| i.0 < i.1) {
            for cut in [i.0, i.1] {
                if r.0 < cut && cut < r.1 {
                    return Err(format!("part {:?} straddles the boundary {} of {:?}", r, cut, i));
                }
            }
        }
    }
    let cuts: Vec<u32> = cuts.into_iter().collect();
    for w in cuts.windows(2) {
        let covers = |r: &&(u32, u32)| r.0 <= w[0] && w[1] <= r.1;
        let inn = ranges.iter().filter(covers).count();
        let n = out.iter().filter(covers).count();
        if n > 1 {
            return Err(format!("{}..{} lies in {} parts", w[0], w[1], n));
        }
        if (inn > 0) != (n == 1) {
            return Err(format!("{}..{} lies in {} inputs and {} parts", w[0], w[1], inn, n));
        }
    }
    Ok(())
}

fn case(c: &mut Case) -> Verdict {
    if c.idx % 3 != 0 {
        let space = *c.rng.pick(&[4u32, 6, 8, 12, 30, 200, 0x110000]);
        let n = if c.rng.chance(1, 1000) { c.rng.range(100, 400) } else if c.rng.chance(1, 20) { c.rng.range(13, 60) } else { c.rng.range(0, 12) };
        let mut set: BTreeSet<(u32, u32)> = BTreeSet::new();
        for _ in 0..n {
            let a = c.rng.below(space as usize) as u32;
            let b = match c.rng.below(10) {
                0 => a,                                   // empty
                1 => a + 1,                               // one character
                2 => space,                               // to the end
                3 if a > 0 => c.rng.below(a as usize) as u32, // reversed, hence empty
                _ => a + c.rng.below((space - a) as usize + 1) as u32,
            };
            set.insert((a, b));
            if c.rng.chance(1, 4) {
                // adjacent, or sharing an end
                let e = match c.rng.below(3) {
                    0 => (b, b + 1 + c.rng.below(3) as u32),
                    1 => (a, b + c.rng.below(3) as u32),
                    _ => (a.saturating_sub(1), b),
                };
                set.insert(e);
            }
        }
        c.input(format!("{:?}", set));
        // every input is put in by itself: none may get lost to another one
        let mut arg: BTreeSet<Match> = BTreeSet::new();
        let mut order: Vec<(u32, u32)> = set.iter().copied().collect();
        c.rng.shuffle(&mut order);
        for (a, b) in &order {
            arg.insert(Match::from(*a..*b));
        }
        if arg.len() != set.len() {
            return Err(format!("of the {} ranges {:?} only {} are kept apart", set.len(), order, arg.len()));
        }
        let out = guard(|| remove_overlap(&arg)).map_err(|p| format!("splitting failed: {} {}", p.msg, p.loc))?;
        let out: Vec<(u32, u32)> = out.iter().map(|m| (m.range.start, m.range.end)).collect();
        let v: Vec<_> = set.iter().filter(|r| r.0 < r.1).copied().collect();
        let overlapping = v.iter().enumerate().any(|(i, a)| v[..i].iter().any(|b| a.0 < b.1 && b.0 < a.1));
        c.eval(overlapping, &set);
        c.count("range_sets", 1);
        c.peak("max_parts", out.len() as u64);
        c.count("parts", out.len() as u64);
        c.sample(|| format!("{:?} -> {:?}", set, out));
        return check(&set, &out).map_err(|e| format!("{:?} split into {:?}: {}", set, out, e));
    }
    // determinism of the automata, of single regexes and of whole lexers
    let toks = inputs::token_set(&mut c.rng, false, true);
    c.input(format!("{:?}", toks));
    let hirs: Vec<_> = toks.iter().map(|r| rx::parse(r).unwrap()).collect();
    for (r, h) in toks.iter().zip(&hirs) {
        let nfa = NFA::from_regex(h);
        // the alphabet split for this very regex
        let arg: BTreeSet<Match> = nfa.labels().into_iter().cloned().collect();
        let set: BTreeSet<(u32, u32)> = nfa.labels().into_iter().map(|m| (m.range.start, m.range.end)).collect();
        let out: Vec<(u32, u32)> = remove_overlap(&arg).iter().map(|m| (m.range.start, m.range.end)).collect();
        check(&set, &out).map_err(|e| format!("labels of {:?}: {:?} split into {:?}: {}", r, set, out, e))?;
        // and against what the regex itself says
        let mut own = BTreeSet::new();
        char_ranges(h, &mut own);
        check(&own, &out).map_err(|e| format!("ranges of {:?}: {:?} split into {:?}: {}", r, own, out, e))?;
        let dfa = DFA::from_nfa(nfa);
        c.eval(dfa.edges.len() > 1, &("single", r));
        disjoint(c, &dfa, r)?;
    }
    let union = rx::parse(&toks.iter().map(|t| format!("({})", t)).collect::<Vec<_>>().join("|")).unwrap();
    let dfa = DFA::from_nfa(NFA::from_regex(&union));
    c.eval(dfa.edges.len() > 1, &("union", &toks));
    disjoint(c, &dfa, &format!("{:?}", toks))?;
    // whole lexers must build over the same alphabet
    let defs = toks.iter().enumerate().map(|(i, t)| (TokenDef { name: format!("k{}", i), with_val: true, token_idx: None }, rx::parse(t).unwrap())).collect();
    let _ = Lex::from_tokens(defs);
    c.count("lexers", 1);
    Ok(())
}

/// The character ranges written in a regex, ends excluded.
fn char_ranges(h: &regex_syntax::hir::Hir, o: &mut BTreeSet<(u32, u32)>) {
    use regex_syntax::hir::{HirKind::*, Literal};
    match h.kind() {
        Literal(Literal::Unicode(c)) => {
            o.insert((*c as u32, *c as u32 + 1));
        }
        Literal(Literal::Byte(c)) => {
            o.insert((*c as u32, *c as u32 + 1));
        }
        Class(c) => o.extend(rx::ranges(c).into_iter().map(|(a, b)| (a, b + 1))),
        Group(g) => char_ranges(&g.hir, o),
        Repetition(r) => char_ranges(&r.hir, o),
        Concat(v) | Alternation(v) => v.iter().for_each(|e| char_ranges(e, o)),
        _ => {}
    }
}

fn disjoint(c: &mut Case, dfa: &DFA, what: &str) -> Verdict {
    c.count("automata", 1);
    for s in 0..dfa.states.len() {
        let edges: Vec<(u32, u32)> = match dfa.edge_iter(StateIdx(s)) {
            Some(it) => it.map(|e| (e.label.range.start, e.label.range.end)).collect(),
            None => vec![],
        };
        c.count("automaton_states", 1);
        for (i, a) in edges.iter().enumerate() {
            for b in &edges[..i] {
                if a.0.max(b.0) < a.1.min(b.1) {
                    return Err(format!("automaton of {}: state {} has two transitions on one character: {:?} and {:?}", what, s, a, b));
                }
            }
        }
    }
    Ok(())
}

fn main() {
    run(60000, 1200000, case)
}
