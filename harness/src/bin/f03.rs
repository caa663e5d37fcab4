//! F03: the grammar model numbers rules and symbols one-to-one; lookups are inverse and complete.
use bumpalo::Bump;
use harness::{gen, glue, model::*, util::*};
use std::cmp::Ordering;
use std::collections::BTreeSet;
use typelalr::lalr::item::{ProductionIdx, TokenIdx};
use typelalr::parser::{ast::Ident, Grammar, Symbol};

fn rank(s: &Sym) -> u8 {
    match s {
        Sym::Lit(_) => 0,
        Sym::Nt(_) => 1,
        Sym::Re(_) => 2,
    }
}

fn case(c: &mut Case) -> Verdict {
    let o = gen::GOpts { hard_lits: true, max_nt: 8, max_terms: 10, huge: 1500, ..Default::default() };
    let mut g = if c.rng.chance(1, 2) { gen::random(&mut c.rng, o) } else { gen::grammar(&mut c.rng, o).1 };
    if c.rng.chance(1, 4) {
        // a literal, a regex and a production may share one text
        let w = c.rng.pick(gen::NAMES).to_string();
        let p = c.rng.below(g.prods.len());
        g.prods[p].bodies.push(Body {
            syms: vec![(None, Sym::Lit(w.clone())), (Some("q".into()), Sym::Re(w.clone())), (None, Sym::Nt(w))],
            map: "0".into(),
        });
    }
    if c.rng.chance(1, 6) {
        // productions written in several pieces
        let p = c.rng.below(g.prods.len());
        let mut d = g.prods[p].clone();
        d.start = false;
        d.bodies.truncate(1);
        g.prods.push(d);
    }
    if c.rng.chance(1, 4) {
        // symbols whose texts are near each other, or nothing in common
        for _ in 0..c.rng.range(1, 12) {
            let a = gen::word(&mut c.rng, true);
            let near = [a.clone(), format!("{}{}", a, a), a.to_uppercase(), format!("{} ", a), a.chars().skip(1).collect()];
            let k = c.rng.range(1, 6);
            let syms = (0..k)
                .map(|_| {
                    let t = c.rng.pick(&near).clone();
                    let n = gen::ident(&mut c.rng);
                    (None, match c.rng.below(3) {
                        0 => Sym::Lit(t),
                        1 => Sym::Nt(n),
                        _ => Sym::Re(t.replace('"', "").replace('\\', "")),
                    })
                })
                .collect();
            let p = c.rng.below(g.prods.len());
            g.prods[p].bodies.push(Body { syms, map: "n".into() });
        }
    }
    let src = g.print();
    c.input(&src);
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let gr = guard(|| Grammar::grammar_from_ast_productions(&bump, &ast)).map_err(|p| format!("model refused: {} {}", p.msg, p.loc))?;
    let start = g.prods.iter().find(|p| p.start).unwrap().name.clone();

    // rules in source order behind the added one
    let mut want: Vec<(String, Vec<Sym>, Option<String>, Option<String>)> =
        vec![(format!("{}'", start), vec![Sym::Nt(start)], None, None)];
    for p in &g.prods {
        for b in &p.bodies {
            want.push((p.name.clone(), b.syms.iter().map(|s| s.1.clone()).collect(), Some(b.map.clone()), Some(p.ts.clone())));
        }
    }
    let got: Vec<_> = gr.iter_productions().collect();
    c.eval(want.len() > 2, &src);
    c.peak("max_rules", want.len() as u64);
    c.count("rules", want.len() as u64);
    if got.len() != want.len() {
        return Err(format!("{} rules, expected {}", got.len(), want.len()));
    }
    for (i, (w, p)) in want.iter().zip(&got).enumerate() {
        let syms: Vec<Option<Sym>> = p.input_tokens.iter().map(glue::symbol).collect();
        let wsyms: Vec<Option<Sym>> = w.1.iter().cloned().map(Some).collect();
        // the added rule's name only has to be one no production can have
        let name_ok = if i == 0 { g.prods.iter().all(|q| q.name != p.name.0) } else { p.name.0 == w.0 };
        if !name_ok || syms != wsyms {
            return Err(format!("rule {} is {} -> {:?}, expected {:?}", i, p.name.0, syms, w));
        }
        if i > 0 && (p.mapping_fn.map(String::from) != w.2 || p.ts_type.map(String::from) != w.3) {
            return Err(format!("rule {} carries {:?} {:?}, expected {:?}", i, p.mapping_fn, p.ts_type, w));
        }
        let by_idx = gr.get_production(ProductionIdx(i as u32)).ok_or("rule number without rule")?;
        if by_idx.name != p.name || by_idx.input_tokens != p.input_tokens {
            return Err(format!("looking up rule {} gives another rule", i));
        }
    }
    if gr.get_production(ProductionIdx(want.len() as u32)).is_some() {
        return Err("a rule beyond the last".into());
    }

    // by name
    let names: BTreeSet<&str> = got.iter().map(|p| p.name.0).collect();
    for n in &names {
        let exp: Vec<u32> = got.iter().enumerate().filter(|(_, p)| p.name.0 == *n).map(|(i, _)| i as u32).collect();
        let idx: Vec<u32> = gr.get_production_indices_by_name(Ident(n)).map(|v| v.iter().map(|i| i.0).collect()).unwrap_or_default();
        if idx != exp {
            return Err(format!("rules named {}: {:?}, expected {:?}", n, idx, exp));
        }
        let it: Vec<u32> = gr
            .production_iter(Ident(n))
            .map(|(i, p)| if p.name.0 == *n { i.0 } else { u32::MAX })
            .collect();
        if it != exp {
            return Err(format!("iterating rules named {}: {:?}, expected {:?}", n, it, exp));
        }
    }
    if gr.get_production_indices_by_name(Ident("no such production")).is_some() {
        return Err("rules for a name that does not exist".into());
    }

    // symbols
    let used: BTreeSet<Sym> = want.iter().flat_map(|w| w.1.iter().cloned()).collect();
    let toks: Vec<&Symbol> = gr.tokens().collect();
    c.peak("max_symbols", toks.len() as u64);
    c.count("symbols", toks.len() as u64);
    if !matches!(toks.first(), Some(Symbol::Eof)) || toks[1..].iter().any(|t| matches!(t, Symbol::Eof | Symbol::Epsilon)) {
        return Err(format!("number 0 is not reserved for the end of input: {:?}", toks));
    }
    let mut seen = BTreeSet::new();
    for t in &toks[1..] {
        let s = glue::symbol(t).unwrap();
        if !used.contains(&s) || !seen.insert(s.clone()) {
            return Err(format!("symbol {:?} numbered twice or not used", s));
        }
    }
    if seen.len() != used.len() {
        return Err(format!("symbols without number: {:?}", used.difference(&seen).collect::<Vec<_>>()));
    }
    for (i, t) in toks.iter().enumerate() {
        if gr.get_token_idx(t) != Some(TokenIdx(i as u32)) || gr.get_token(TokenIdx(i as u32)) != Some(*t) {
            return Err(format!("number {} and symbol {:?} are not inverse: {:?} {:?}", i, t, gr.get_token_idx(t), gr.get_token(TokenIdx(i as u32))));
        }
    }
    if gr.get_token(TokenIdx(toks.len() as u32)).is_some() || gr.get_token_idx(&Symbol::StrLit("no such literal")).is_some() {
        return Err("lookup of an unknown symbol succeeded".into());
    }
    // the same text in another kind is another symbol
    for s in &used {
        let t = glue::text(s);
        for (k, sym) in [(Sym::Lit(t.into()), Symbol::StrLit(t)), (Sym::Nt(t.into()), Symbol::NonTerminal(Ident(t))), (Sym::Re(t.into()), Symbol::Regex(t))] {
            if gr.get_token_idx(&sym).is_some() != used.contains(&k) {
                return Err(format!("lookup of {:?} = {:?}", k, gr.get_token_idx(&sym)));
            }
        }
    }
    let nts: Vec<(u32, String)> = gr.non_terminals().map(|(i, n)| (i.0, n.0.to_string())).collect();
    let exp: Vec<(u32, String)> = toks
        .iter()
        .enumerate()
        .filter_map(|(i, t)| match t {
            Symbol::NonTerminal(n) => Some((i as u32, n.0.to_string())),
            _ => None,
        })
        .collect();
    if nts != exp {
        return Err(format!("nonterminals {:?}, expected {:?}", nts, exp));
    }
    for t in &toks {
        if t.is_terminal() == matches!(t, Symbol::NonTerminal(_)) {
            return Err(format!("{:?} classified wrongly", t));
        }
    }

    // the order
    for a in &toks[1..] {
        for b in &toks[1..] {
            let (x, y) = (glue::symbol(a).unwrap(), glue::symbol(b).unwrap());
            let exp = rank(&x).cmp(&rank(&y)).then(glue::text(&x).cmp(glue::text(&y)));
            if a.cmp(b) != exp || a.partial_cmp(b) != Some(exp) || (a == b) != (exp == Ordering::Equal) {
                return Err(format!("order of {:?} and {:?}: {:?}, expected {:?}", x, y, a.cmp(b), exp));
            }
            c.count("ordered_pairs", 1);
        }
    }
    // the two symbols without text included: a strict total order consistent with equality
    let eps = Symbol::Epsilon;
    let mut all: Vec<&Symbol> = toks.clone();
    all.push(&eps);
    for a in [all[0], &eps] {
        for b in &all {
            let (x, y) = (a.cmp(b), b.cmp(&a));
            if x != y.reverse() || (x == Ordering::Equal) != (a == *b) || a.partial_cmp(b) != Some(x) {
                return Err(format!("{:?} and {:?} compare as {:?} and {:?}, equal: {}", a, b, x, y, a == *b));
            }
        }
    }
    for _ in 0..60 {
        let (x, y, z) = (*c.rng.pick(&all), *c.rng.pick(&all), *c.rng.pick(&all));
        if x < y && y < z && !(x < z) {
            return Err(format!("{:?} < {:?} < {:?}, but not {:?} < {:?}", x, y, z, x, z));
        }
        c.count("ordered_triples", 1);
    }
    let mut sorted = all.clone();
    sorted.sort();
    if sorted.windows(2).any(|w| w[0] >= w[1]) {
        return Err(format!("sorting the symbols does not order them: {:?}", sorted));
    }
    c.sample(|| src.clone());
    Ok(())
}

fn main() {
    run(6000, 80000, case)
}
