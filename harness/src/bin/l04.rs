//! L04: equal-length matches go to the kind listed first, whatever surrounds them.
use bumpalo::Bump;
use harness::{gen, glue, inputs, lexref, model::*, rx, util::*};
use regex_syntax::hir::Hir;
use typelalr::lex::lex::{Lex, Token, TokenDef};
use typelalr::parser::Grammar;

fn judge(c: &mut Case, lex: &Lex, names: &[String], vals: &[bool], hirs: &[Hir], what: &str, input: &str) -> Verdict {
    c.input(format!("{}\ninput {:?}", what, input));
    let want = lexref::lex(hirs, input);
    let got = guard(|| lex.lex(input)).map_err(|p| format!("tokenising {:?} failed: {} {}", input, p.msg, p.loc))?;
    c.eval(want.ties > 0, &(what, input));
    c.count("tokens", want.toks.len() as u64);
    c.count("ties_decided", want.ties as u64);
    for (i, w) in want.toks.iter().enumerate() {
        let t = match vals[w.kind] {
            true => Token::new_with_val(names[w.kind].clone(), w.text.clone()),
            false => Token::new(names[w.kind].clone()),
        };
        if got.get(i) != Some(&t) {
            return Err(format!(
                "token {} ({:?}) should be of the first listed kind {:?}, got {:?}\nkinds in order: {:?}\ninput {:?}",
                i, w.text, names[w.kind], got.get(i), names, input
            ));
        }
        // on its own, the same text is the same kind
        if c.rng.chance(1, 4) {
            let alone = guard(|| lex.lex(&w.text)).map_err(|p| format!("tokenising failed: {} {}", p.msg, p.loc))?;
            c.count("tokens_lexed_alone", 1);
            if alone != vec![t] {
                return Err(format!("{:?} alone is {:?}, inside {:?} it is {:?}", w.text, alone, input, names[w.kind]));
            }
        }
    }
    if want.ties > 0 {
        c.sample(|| format!("{} on {:?}: {} tokens, {} ties", what, input, want.toks.len(), want.ties));
    }
    Ok(())
}

/// texts several kinds match completely
fn contested(rng: &mut Rng, hirs: &[Hir]) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..40 {
        let i = rng.below(hirs.len());
        if let Some(s) = rx::sample_str(&hirs[i], rng, false) {
            let cs: Vec<char> = s.chars().collect();
            if !s.is_empty() && hirs.iter().filter(|h| rx::full_match(h, &cs)).count() > 1 {
                v.push(s);
            }
        }
    }
    v
}

fn text(c: &mut Case, hirs: &[Hir], hot: &[String]) -> String {
    let mut s = String::new();
    for _ in 0..c.rng.range(1, 5) {
        if !hot.is_empty() && c.rng.chance(3, 4) {
            s.push_str(c.rng.pick(hot));
        } else {
            s.push_str(&inputs::text(&mut c.rng, hirs, 1, false, true));
        }
        if c.rng.chance(1, 2) {
            s.push(' ');
        }
    }
    s
}

fn case(c: &mut Case) -> Verdict {
    if c.rng.chance(1, 2) {
        let mut set = inputs::token_set(&mut c.rng, false, true);
        // make kinds compete
        let many = c.rng.chance(1, 6);
        for _ in 0..if many { c.rng.range(5, 14) } else { c.rng.below(4) } {
            let r = c.rng.pick(&set).clone();
            let extra = match if many { c.rng.below(3) } else { c.rng.below(5) } {
                0 => r,
                1 => format!("({})", r),
                2 => format!("({})|zz", r),
                3 => "[a-z]+".into(),
                _ => match rx::sample_str(&rx::parse(&r).unwrap(), &mut c.rng, false) {
                    Some(s) if !s.is_empty() => regex::escape(&s),
                    _ => continue,
                },
            };
            let k = c.rng.below(set.len() + 1);
            set.insert(k, extra);
        }
        let names: Vec<String> = (0..set.len()).map(|i| format!("k{}", i)).collect();
        let hirs: Vec<Hir> = set.iter().map(|r| rx::parse(r).unwrap()).collect();
        let vals: Vec<bool> = match c.rng.below(3) {
            0 => vec![true; set.len()],
            1 => vec![false; set.len()],
            _ => set.iter().map(|_| c.rng.chance(1, 2)).collect(),
        };
        let def = |i: usize| (TokenDef { name: names[i].clone(), with_val: vals[i], token_idx: Some(i as u32) }, hirs[i].clone());
        let what = format!("token kinds {:?} with text {:?}", set, vals);
        c.input(&what);
        let lex = Lex::from_tokens((0..set.len()).map(def).collect());
        let hot = contested(&mut c.rng, &hirs);
        for _ in 0..6 {
            let t = text(c, &hirs, &hot);
            judge(c, &lex, &names, &vals, &hirs, &what, &t)?;
        }
        // another order of the same kinds, and a subset
        let mut order: Vec<usize> = (0..set.len()).collect();
        c.rng.shuffle(&mut order);
        let k = c.rng.range(1, order.len());
        order.truncate(k);
        let lex2 = Lex::from_tokens(order.iter().map(|i| def(*i)).collect());
        let names2: Vec<String> = order.iter().map(|i| names[*i].clone()).collect();
        let vals2: Vec<bool> = order.iter().map(|i| vals[*i]).collect();
        let hirs2: Vec<Hir> = order.iter().map(|i| hirs[*i].clone()).collect();
        let what2 = format!("token kinds {:?}", order.iter().map(|i| &set[*i]).collect::<Vec<_>>());
        for _ in 0..4 {
            let t = text(c, &hirs2, &hot);
            judge(c, &lex2, &names2, &vals2, &hirs2, &what2, &t)?;
        }
        return Ok(());
    }
    // lexers derived from grammars: literals win over regexes, regexes by source text
    let (_, mut g) = gen::grammar(&mut c.rng, gen::GOpts { max_terms: 8, ..Default::default() });
    let pool = ["[a-z]+", "[a-z]", "[^0-9 ]+", "(if|let|then)", "[a-z][a-z]*", "[a-f]+", "[b-z]+", ".", "[+]", "[=]+", "([a-z])+", "[0-9]+", "[0-9]"];
    for _ in 0..c.rng.range(1, 5) {
        let r = c.rng.pick(&pool).to_string();
        let p = c.rng.below(g.prods.len());
        let l = c.rng.pick(&["if", "let", "a", "ab", "=", "+", "7", "z"]).to_string();
        let mut syms = vec![(None, Sym::Re(r)), (Some("v".into()), Sym::Lit(l))];
        if c.rng.chance(1, 2) {
            syms.reverse();
        }
        g.prods[p].bodies.push(Body { syms, map: "1".into() });
    }
    let src = g.print();
    c.input(&src);
    let kinds = glue::kinds(&g);
    let names: Vec<String> = kinds.iter().map(|k| glue::text(k).to_string()).collect();
    let hirs: Vec<Hir> = kinds.iter().filter_map(glue::hir_of).collect();
    let uniq: std::collections::BTreeSet<_> = names.iter().collect();
    if uniq.len() != names.len() || hirs.len() != kinds.len() || hirs.iter().any(rx::unsupported) {
        return Ok(());
    }
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let lex = Lex::from_grammar(&gr);
    c.count("grammar_lexers", 1);
    let hot = contested(&mut c.rng, &hirs);
    for _ in 0..8 {
        let t = text(c, &hirs, &hot);
        judge(c, &lex, &names, &vec![true; names.len()], &hirs, &src, &t)?;
    }
    Ok(())
}

fn main() {
    run(1500, 40000, case)
}
