//! L03: tokenising is longest-match and lossless.
use bumpalo::Bump;
use harness::{gen, glue, inputs, lexref, model::*, rx, util::*};
use typelalr::lex::lex::{Lex, Token, TokenDef};
use typelalr::parser::Grammar;

struct Setup {
    lex: Lex,
    names: Vec<String>,
    with_val: Vec<bool>,
    hirs: Vec<regex_syntax::hir::Hir>,
    what: String,
}

fn from_tokens(c: &mut Case) -> Setup {
    let set = inputs::token_set(&mut c.rng, false, true);
    let names: Vec<String> = (0..set.len()).map(|i| format!("k{}", i)).collect();
    let with_val: Vec<bool> = set.iter().map(|_| c.rng.chance(2, 3)).collect();
    let hirs: Vec<_> = set.iter().map(|r| rx::parse(r).unwrap()).collect();
    let defs = (0..set.len())
        .map(|i| (TokenDef { name: names[i].clone(), with_val: with_val[i], token_idx: Some(i as u32) }, hirs[i].clone()))
        .collect();
    let what = format!("token kinds {:?}", set);
    c.input(&what);
    Setup { lex: Lex::from_tokens(defs), names, with_val, hirs, what }
}

fn from_grammar(c: &mut Case) -> Option<Setup> {
    let (_, g) = gen::grammar(&mut c.rng, gen::GOpts { hard_lits: true, max_terms: 9, ..Default::default() });
    let src = g.print();
    c.input(&src);
    let kinds = glue::kinds(&g);
    let hirs: Option<Vec<_>> = kinds.iter().map(glue::hir_of).collect();
    let hirs = hirs?;
    let names: Vec<String> = kinds.iter().map(|k| glue::text(k).to_string()).collect();
    // literals and regexes must differ in text for the kinds to be told apart
    let uniq: std::collections::BTreeSet<_> = names.iter().collect();
    if uniq.len() != names.len() || hirs.iter().any(rx::unsupported) {
        return None;
    }
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).ok()?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let lex = Lex::from_grammar(&gr);
    let with_val = kinds.iter().map(|k| matches!(k, Sym::Re(_) | Sym::Lit(_))).collect();
    Some(Setup { lex, names, with_val, hirs, what: src })
}

fn case(c: &mut Case) -> Verdict {
    let s = if c.rng.chance(3, 5) {
        from_tokens(c)
    } else {
        match from_grammar(c) {
            Some(s) => s,
            None => return Ok(()),
        }
    };
    for round in 0..10 {
        let n = c.rng.range(0, 9);
        let clean = round % 3 == 0;
        let input = inputs::text(&mut c.rng, &s.hirs, n, false, clean);
        check(c, &s, &input)?;
    }
    if c.idx % 40 == 0 {
        let input = inputs::text(&mut c.rng, &s.hirs, 300, false, true);
        check(c, &s, &input)?;
    }
    if c.idx % 25 == 3 {
        long_tokens(c)?;
    }
    Ok(())
}

/// Tokens of hundreds of characters, alone and among others.
fn long_tokens(c: &mut Case) -> Verdict {
    let set: &[&str] = c.rng.pick(&[
        &["[a-z]+", "[0-9]+", "if", "[(]"][..],
        &["a*b", "a", "b"][..],
        &["#[^#]*#", "[a-zé]", "#"][..],
        &["(ab)+", "a", "b", "(ab)+c"][..],
        &["[^ ]+", " x"][..],
        &["é+", "e", "(é|x)+!"][..],
    ]);
    let hirs: Vec<_> = set.iter().map(|r| rx::parse(r).unwrap()).collect();
    let names: Vec<String> = (0..set.len()).map(|i| format!("k{}", i)).collect();
    let defs = (0..set.len()).map(|i| (TokenDef { name: names[i].clone(), with_val: true, token_idx: Some(i as u32) }, hirs[i].clone())).collect();
    let s = Setup { lex: Lex::from_tokens(defs), names, with_val: vec![true; set.len()], hirs, what: format!("token kinds {:?}", set) };
    for _ in 0..3 {
        let mut t = String::new();
        for _ in 0..c.rng.range(1, 3) {
            let n = *c.rng.pick(&[60, 127, 128, 250, 255, 256, 257, 300, 511, 513, 700]);
            t.push_str(&match c.rng.below(4) {
                0 => "a".repeat(n),
                1 => "ab".repeat(n / 2),
                2 => format!("#{}#", "xyé".repeat(n / 3)),
                _ => "é".repeat(n),
            });
            t.push_str(c.rng.pick(&["", "b", " ", "!", "c ", "9"]));
        }
        c.count("long_token_inputs", 1);
        check(c, &s, &t)?;
    }
    Ok(())
}

fn check(c: &mut Case, s: &Setup, input: &str) -> Verdict {
    c.input(format!("{}\ninput {:?}", s.what, input));
    let want = lexref::lex(&s.hirs, input);
    let (got, consumed) = guard(|| s.lex.lex_prefix(input)).map_err(|p| format!("tokenising {:?} failed: {} {}", input, p.msg, p.loc))?;
    let plain = guard(|| s.lex.lex(input)).map_err(|p| format!("tokenising {:?} failed: {} {}", input, p.msg, p.loc))?;
    c.eval(want.toks.len() > 1, &(&s.what, input));
    c.peak("max_tokens", want.toks.len() as u64);
    c.peak("max_token_characters", want.toks.iter().map(|t| (t.end - t.start) as u64).max().unwrap_or(0));
    c.peak("max_kinds", s.names.len() as u64);
    c.count("tokens", want.toks.len() as u64);
    c.count("tied_tokens", want.ties as u64);
    c.count("positions_with_several_match_lengths", want.multi_len as u64);
    c.count("blanks_skipped", want.skipped as u64);
    c.count("stopped_early", !want.complete() as u64);
    c.count("multibyte_inputs", !input.is_ascii() as u64);
    if plain != got {
        return Err(format!("the two ways to tokenise disagree on {:?}: {:?} / {:?}", input, plain, got));
    }
    let cs: Vec<char> = input.chars().collect();
    let fail = |m: String| Err(format!("{}\nreference: {:?}\ngot: {:?}", m, want.toks, got));
    for (i, w) in want.toks.iter().enumerate() {
        let Some(g) = got.get(i) else { return fail(format!("token {} is missing", i)) };
        // which of the tying kinds is chosen is not judged here
        let ok = lexref::tied(&s.hirs, &cs, w.start, w.end).into_iter().any(|k| {
            let t = if s.with_val[k] { Token::new_with_val(s.names[k].clone(), w.text.clone()) } else { Token::new(s.names[k].clone()) };
            t == *g
        });
        if !ok {
            return fail(format!("token {} should be the match {:?} at character {}", i, w.text, w.start));
        }
    }
    if got.len() > want.toks.len() {
        return fail("more tokens than the text holds".into());
    }
    if consumed != want.consumed {
        return fail(format!("tokenising stopped at character {}, should be {}", consumed, want.consumed));
    }
    if want.toks.len() > 2 {
        c.sample(|| format!("{} on {:?}: {} tokens, {} of {} characters", s.what, input, want.toks.len(), consumed, want.total));
    }
    Ok(())
}

fn main() {
    run(1500, 40000, case)
}
