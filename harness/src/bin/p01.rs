//! P01: FIRST sets are exact.
use bumpalo::Bump;
use harness::{gen, glue, lr, model::*, util::*};
use std::collections::BTreeSet;
use typelalr::lalr::first::first;
use typelalr::parser::{Grammar, Symbol};

fn case(c: &mut Case) -> Verdict {
    let o = gen::GOpts { hard_lits: true, max_nt: 9, max_alts: 4, huge: 4000, ..Default::default() };
    let (label, mut g) = gen::grammar(&mut c.rng, o);
    if c.rng.chance(1, 4) {
        // more recursion of every shape
        for _ in 0..c.rng.range(1, 4) {
            let a = c.rng.below(g.prods.len());
            let b = c.rng.below(g.prods.len());
            let n = g.prods[b].name.clone();
            let mut syms = vec![(None, Sym::Nt(n))];
            if c.rng.chance(1, 2) {
                syms.push((None, Sym::Lit("q".into())));
            }
            g.prods[a].bodies.push(Body { syms, map: "1".into() });
        }
    }
    let src = g.print();
    c.input(&src);
    let cfg = Cfg::of(&g).unwrap();
    if !cfg.all_defined() {
        return Ok(());
    }
    c.count(if label.starts_with("template") { "templates" } else { "random_or_mutated" }, 1);
    let sets = lr::first_sets(&cfg);
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let syms: Vec<&Symbol> = gr.tokens().collect();
    let left_rec = cfg.rules.iter().any(|(l, r)| r.first() == Some(&S::N(*l)));
    c.count("left_recursive_grammars", left_rec as u64);
    let mut seqs: Vec<Vec<&Symbol>> = syms.iter().map(|s| vec![*s]).collect();
    for _ in 0..8 {
        let n = if c.rng.chance(1, 50) { c.rng.range(20, 300) } else { c.rng.range(2, 5) };
        seqs.push((0..n).map(|_| *c.rng.pick(&syms)).collect());
    }
    for p in gr.iter_productions() {
        for d in 0..p.input_tokens.len() {
            seqs.push(p.input_tokens[d..].iter().collect());
        }
    }
    for seq in seqs {
        let names: Vec<Option<Sym>> = seq.iter().map(|s| glue::symbol(s)).collect();
        let want: BTreeSet<Option<Sym>> = match (&names[0], seq[0]) {
            (Some(Sym::Nt(n)), _) => match cfg.nt(n) {
                Some(i) => sets[i as usize].iter().map(|t| Some(cfg.terminals[*t as usize].clone())).collect(),
                None => return Err(format!("the model has an unknown production {}", n)),
            },
            (s, _) => [s.clone()].into(), // a terminal, or the end marker
        };
        let got = guard(|| first(&gr, seq.iter().copied())).map_err(|p| format!("FIRST of {:?} failed: {} {}", names, p.msg, p.loc))?;
        if got.iter().any(|s| matches!(s, Symbol::Epsilon)) {
            return Err(format!("FIRST of {:?} claims the sequence derives nothing", names));
        }
        let got: BTreeSet<Option<Sym>> = got
            .into_iter()
            .map(|s| glue::symbol(s))
            .collect();
        c.count("sequences", 1);
        c.eval(want.len() > 1, &(&src, format!("{:?}", names)));
        if got != want {
            return Err(format!("FIRST of {:?} (None: end marker) is {:?}, computed {:?}", names, want, got));
        }
        if want.len() > 1 {
            c.sample(|| format!("FIRST{:?} = {:?} in {}", names, got, src));
        }
    }
    Ok(())
}

fn main() {
    run(15000, 300000, case)
}
