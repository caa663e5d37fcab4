//! P06: what a refused text's message says: the first token no sentence can have there (or the first
//! character that is no part of a token, and where it is), and the terminals the tables have there.
use bumpalo::Bump;
use harness::{gen, glue, lexref, lr, model::*, parsing, util::*};
use typelalr::lalr::item::TokenDebug;
use typelalr::lalr::Lalr;
use typelalr::lex::lex::Lex;
use typelalr::parser::Grammar;

fn case(c: &mut Case) -> Verdict {
    let (label, g) = gen::grammar(&mut c.rng, gen::GOpts { max_nt: 6, hard_lits: true, huge: 900, ..Default::default() });
    let src = g.print();
    c.input(&src);
    let Some(or) = parsing::oracle(&g, if label.starts_with("huge") { 4000 } else { 300 }) else {
        c.count("skipped", 1);
        return Ok(());
    };
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    // whether it may be refused is judged elsewhere
    let Ok(lalr) = guard(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast))) else {
        c.count("skipped_refused_by_generator", 1);
        return Ok(());
    };
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let lex = Lex::from_grammar(&gr);
    c.count("grammars", 1);
    let mut inputs: Vec<String> = vec![String::new(), " \n ".into()];
    for k in 0..8 {
        let budget = if k == 7 && c.rng.chance(1, 8) { c.rng.range(60, 600) } else { c.rng.range(1, 20) };
        let w = if budget > 20 { or.cfg.long_sentence(&mut c.rng, budget) } else { or.cfg.sentence(&mut c.rng, budget) };
        let Some(mut w) = w else { continue };
        w.truncate(2500);
        let at = c.rng.below(w.len() + 1);
        match c.rng.below(5) {
            0 => w.truncate(at),
            1 if at < w.len() => {
                w.remove(at);
            }
            _ => or.mutate(&mut c.rng, &mut w),
        }
        w.truncate(2500);
        let mut t = or.render(&mut c.rng, &w, false);
        if c.rng.chance(1, 4) {
            let mut cs: Vec<char> = t.chars().collect();
            for _ in 0..c.rng.range(1, 2) {
                let k = c.rng.below(cs.len() + 1);
                cs.insert(k, *c.rng.pick(&['~', '@', 'é', '\t', '\u{0}', '𝄞', '%', '\'', '"', '\\']));
            }
            t = cs.into_iter().collect();
        }
        inputs.push(t);
    }
    for input in inputs {
        c.input(format!("{}\ninput {:?}", src, input));
        let Err(r) = guard(|| lalr.parse(&input)) else {
            // whether it may be accepted is judged elsewhere
            c.count("accepted", 1);
            continue;
        };
        let l = lexref::lex(&or.hirs, &input);
        if !l.complete() {
            let at = l.consumed;
            let ch = input.chars().nth(at).unwrap();
            c.eval(true, &(&src, &input));
            c.count("characters_named", 1);
            if !r.msg.contains(&format!("{:?}", ch)) || !numbers(&r.msg).contains(&at) {
                return Err(format!("text {:?} cannot be tokenised from {:?} at index {}, the refusal says {:?}", input, ch, at, r.msg));
            }
            c.sample(|| format!("{:?}: {}", input, r.msg));
            continue;
        }
        let toks: Vec<u32> = l.toks.iter().map(|t| or.cfg.term(&or.kinds[t.kind]).unwrap()).collect();
        let Err(i) = lr::run_tables(&or.la, &or.cfg, &toks) else {
            c.count("skipped_refused_though_in_the_language", 1);
            continue;
        };
        // the tokens as the lexer shows them (what they have to be is judged elsewhere)
        let Ok(shown) = guard(|| lex.convert_tokens(lex.lex_prefix(&input).0)) else {
            c.count("skipped_lexing_differs", 1);
            continue;
        };
        if shown.len() != toks.len() + 1 {
            c.count("skipped_lexing_differs", 1);
            continue;
        }
        c.eval(true, &(&src, &input));
        c.count(if i == toks.len() { "ends_named" } else { "tokens_named" }, 1);
        c.peak("max_tokens_before_the_refused_one", i as u64);
        let name = format!("{:?}", shown[i].0);
        let (head, tail) = match r.msg.find('\n') {
            Some(k) => (&r.msg[..k], &r.msg[k..]),
            None => (&r.msg[..], ""),
        };
        if !head.contains(&name) {
            return Err(format!("text {:?} cannot go on with token {} ({}), the refusal says {:?}", input, i, name, r.msg));
        }
        // what it offers instead
        let row = offered(&or, &toks);
        let mut want = String::new();
        let mut len = 0;
        for t in &row {
            let Some(x) = index(&gr, &or, *t) else {
                return Err(format!("terminal {:?} has no number", or.cfg.terminals[*t as usize]));
            };
            let s = format!("{:?}", TokenDebug(x, &gr));
            if !tail.contains(&s) {
                return Err(format!("text {:?} is refused at token {} where {} could follow, the refusal lists {:?}", input, i, s, tail));
            }
            len += s.len();
            want.push_str(&s);
        }
        c.count("alternatives_listed", row.len() as u64);
        // nothing else: "\nValid: Some([a, b])"
        let frame = tail.len() as i64 - len as i64 - 2 * (row.len() as i64 - 1).max(0);
        if frame > 30 {
            return Err(format!("text {:?} is refused at token {} where only {} could follow, the refusal lists {:?}", input, i, want, tail));
        }
        c.sample(|| format!("{:?}: {}", input, r.msg));
    }
    Ok(())
}

fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}

fn index(gr: &Grammar, or: &parsing::Oracle, t: u32) -> Option<typelalr::lalr::item::TokenIdx> {
    if t == 0 {
        return Some(Grammar::EOF_TOKEN_IDX);
    }
    let s = &or.cfg.terminals[t as usize];
    gr.tokens().find(|x| glue::symbol(x).as_ref() == Some(s)).and_then(|x| gr.get_token_idx(x))
}

/// Terminals with an entry in the state where the tables refuse.
fn offered(or: &parsing::Oracle, input: &[u32]) -> Vec<u32> {
    let mut st = vec![0usize];
    let mut i = 0;
    loop {
        let s = *st.last().unwrap();
        let a = input.get(i).copied().unwrap_or(0);
        match or.la.action[s].get(&a).and_then(|x| x.iter().next()) {
            None => return or.la.action[s].iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| *k).collect(),
            Some(lr::Act::Accept) => return vec![],
            Some(lr::Act::Shift(j)) => {
                st.push(*j);
                i += 1;
            }
            Some(lr::Act::Reduce(r)) => {
                let n = st.len() - or.cfg.rules[*r].1.len();
                st.truncate(n);
                match or.la.goto[*st.last().unwrap()].get(&or.cfg.rules[*r].0) {
                    Some(g) => st.push(*g),
                    None => return vec![],
                }
            }
        }
    }
}

fn main() {
    run(3000, 60000, case)
}
