//! L05: converting tokens keeps them, numbers them by kind and closes them with one end marker.
use bumpalo::Bump;
use harness::{gen, glue, inputs, lexref, model::*, rx, util::*};
use std::collections::BTreeMap;
use typelalr::lex::lex::{Lex, Token};
use typelalr::parser::Grammar;

fn case(c: &mut Case) -> Verdict {
    let (_, mut g) = gen::grammar(&mut c.rng, gen::GOpts { hard_lits: true, max_terms: 12, max_nt: 7, huge: 700, ..Default::default() });
    if c.rng.chance(1, 6) {
        // texts that look like something else
        for t in ["EOF", "<epsilon>", "S'", "0", "S"] {
            if c.rng.chance(1, 2) {
                let p = c.rng.below(g.prods.len());
                c.count("odd_texts", 1);
                g.prods[p].bodies.push(Body { syms: vec![(None, Sym::Lit(t.into()))], map: "1".into() });
            }
        }
    }
    let src = g.print();
    c.input(&src);
    let kinds = glue::kinds(&g);
    let texts: std::collections::BTreeSet<_> = kinds.iter().map(glue::text).collect();
    let hirs: Vec<_> = kinds.iter().filter_map(glue::hir_of).collect();
    if texts.len() != kinds.len() || hirs.len() != kinds.len() || hirs.iter().any(rx::unsupported) {
        c.count("skipped_texts_not_distinct", 1);
        return Ok(());
    }
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let lex = Lex::from_grammar(&gr);
    let mut number: BTreeMap<Sym, u32> = BTreeMap::new();
    for (i, t) in gr.tokens().enumerate() {
        if let Some(s) = glue::symbol(t) {
            number.insert(s, i as u32);
        }
    }
    for round in 0..8 {
        // either what the lexer makes of a text, or any sequence of the grammar's tokens
        let (toks, want): (Vec<Token>, Vec<u32>) = if round % 2 == 0 {
            let n = if c.rng.chance(1, 60) { c.rng.range(300, 1500) } else { c.rng.range(0, 10) };
            let input = inputs::text(&mut c.rng, &hirs, n, false, true);
            let r = lexref::lex(&hirs, &input);
            let toks = lex.lex(&input);
            if toks.len() != r.toks.len() {
                // tokenising is judged elsewhere
                c.count("skipped_lexing_differs", 1);
                continue;
            }
            (toks, r.toks.iter().map(|t| number[&kinds[t.kind]]).collect())
        } else {
            let n = match c.rng.below(80) {
                _ if kinds.is_empty() => 0,
                0 => c.rng.range(250, 5000),
                1 if c.rng.chance(1, 12) => c.rng.range(65_000, 70_000),
                _ => c.rng.range(0, 30),
            };
            let mut toks = vec![];
            let mut want = vec![];
            for _ in 0..n {
                let k = c.rng.pick(&kinds).clone();
                let name = glue::text(&k).to_string();
                toks.push(if c.rng.chance(1, 5) { Token::new(name) } else { Token::new_with_val(name, format!("v{}", c.rng.below(1000))) });
                want.push(number[&k]);
            }
            (toks, want)
        };
        c.input(if toks.len() > 6000 { format!("{}\n{} tokens", src, toks.len()) } else { format!("{}\ntokens {:?}", src, toks) });
        let got = guard(|| lex.convert_tokens(toks.clone())).map_err(|p| format!("converting failed: {} {}", p.msg, p.loc))?;
        c.eval(!toks.is_empty(), &(&src, if toks.len() > 6000 { toks.len().to_string() } else { format!("{:?}", toks) }));
        c.peak("max_tokens", toks.len() as u64);
        c.count("tokens", toks.len() as u64);
        if got.len() != toks.len() + 1 {
            return Err(format!("{} tokens became {}", toks.len(), got.len()));
        }
        for (i, t) in toks.iter().enumerate() {
            if got[i].0 != *t {
                return Err(format!("token {} {:?} became {:?}", i, t, got[i].0));
            }
            if got[i].1 .0 != want[i] {
                return Err(format!("token {} {:?} got number {}, its kind has {}", i, t, got[i].1 .0, want[i]));
            }
            if got[i].1 .0 == 0 {
                return Err("an ordinary token has the number of the end marker".into());
            }
        }
        if got[toks.len()].1 .0 != 0 {
            return Err(format!("the last token is {:?}, not the end marker", got[toks.len()]));
        }
        if toks.len() > 2 {
            c.sample(|| format!("{:?}", got));
        }
    }
    Ok(())
}

fn main() {
    run(4000, 80000, case)
}
