//! P05: the recogniser accepts exactly the grammar's language.
use bumpalo::Bump;
use harness::{gen, glue, parsing, util::*};
use typelalr::{lalr::Lalr, parser::Grammar};

/// A literal and a regex of the same text share one token kind (known finding D12).
const SAME_TEXT: &str = "export start S: () = [\n\"a+\" \"x\" => (1)\n, r\"a+\" \"y\" => (2)\n]\n";

fn probe(c: &mut Case) {
    let bump = Bump::new();
    let ast = glue::read(&bump, SAME_TEXT).expect("probe");
    let r = guard(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast)));
    // both "a+ x" and "aaa y" are sentences
    let hit = match r {
        Err(_) => true,
        Ok(l) => guard(|| l.parse("a+ x")).is_err() || guard(|| l.parse("aaa y")).is_err(),
    };
    if hit {
        c.count("known:P05:same-text-literal-and-regex", 1);
    }
}

fn case(c: &mut Case) -> Verdict {
    if c.idx == 0 {
        probe(c);
    }
    let o = gen::GOpts { max_nt: 5, hard_lits: true, huge: 200, ..Default::default() };
    let (label, g) = gen::grammar(&mut c.rng, o);
    let src = g.print();
    c.input(&src);
    let Some(or) = parsing::oracle_any(&g, if label.starts_with("huge") { 4000 } else { 300 }) else {
        c.count("skipped", 1);
        return Ok(());
    };
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let built = guard(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast)));
    let lalr = match built {
        Ok(l) => l,
        Err(_) => {
            // whether it may be refused is judged elsewhere
            c.count(if or.lalr1 { "skipped_refused_by_generator" } else { "skipped_conflicts" }, 1);
            return Ok(());
        }
    };
    c.count("grammars", 1);
    c.peak("max_states", or.la.states.len() as u64);
    c.peak("max_rules", or.cfg.rules.len() as u64);
    c.count("grammars_with_merged_states", or.merged as u64);
    let mut inputs: Vec<String> = vec![String::new(), " \n".into()];
    let long = if label.starts_with("huge") { 1500 } else { 60 };
    c.count("huge_grammars", (long > 60) as u64);
    for _ in 0..6 {
        let budget = c.rng.range(1, 14);
        if let Some(w) = or.cfg.sentence(&mut c.rng, budget) {
            if w.len() > long {
                continue;
            }
            let t = or.render(&mut c.rng, &w, false);
            // an untokenisable part somewhere
            if c.rng.chance(1, 2) {
                let mut cs: Vec<char> = t.chars().collect();
                let k = match c.rng.below(3) {
                    0 => 0,
                    1 => cs.len(),
                    _ => c.rng.below(cs.len() + 1),
                };
                cs.insert(k, *c.rng.pick(&['~', '@', 'é', '\t', '\u{0}', '𝄞', '%']));
                inputs.push(cs.into_iter().collect());
            }
            inputs.push(t);
            let mut m = w.clone();
            or.mutate(&mut c.rng, &mut m);
            m.truncate(long + 20);
            inputs.push(or.render(&mut c.rng, &m, false));
        }
    }
    // all short token sequences over a few terminals
    let nt = or.cfg.terminals.len() - 1;
    if nt > 0 && c.rng.chance(1, 3) {
        let k = nt.min(3);
        let mut ts: Vec<u32> = (1..=nt as u32).collect();
        c.rng.shuffle(&mut ts);
        ts.truncate(k);
        let mut layer: Vec<Vec<u32>> = vec![vec![]];
        for _ in 0..3 {
            let mut nx = vec![];
            for w in &layer {
                for t in &ts {
                    let mut v = w.clone();
                    v.push(*t);
                    nx.push(v);
                }
            }
            for w in &nx {
                inputs.push(or.render(&mut c.rng, w, false));
            }
            layer = nx;
        }
    }
    // now and then a long text: thousands of steps, or a deep stack
    if c.rng.chance(1, 30) && or.lalr1 {
        let top = *c.rng.pick(&[100, 300, 900, 2500]);
        let budget = c.rng.range(60, top);
        if let Some(mut w) = or.cfg.long_sentence(&mut c.rng, budget) {
            w.truncate(4000);
            c.count("long_texts", (w.len() > 100) as u64);
            inputs.push(or.render(&mut c.rng, &w, false));
            let mut m = w.clone();
            match c.rng.below(4) {
                0 => m.truncate(w.len() - 1),
                1 => m.extend_from_slice(&w[w.len() - 1..]),
                _ => or.mutate(&mut c.rng, &mut m),
            }
            m.truncate(4000);
            inputs.push(or.render(&mut c.rng, &m, false));
        }
    }
    for input in inputs {
        c.input(format!("{}\ninput {:?}", src, input));
        let want = or.accepts(&input);
        let tokenises = or.tokens(&input).is_some();
        let got = guard(|| lalr.parse(&input));
        c.eval(!input.trim().is_empty(), &(&src, &input));
        c.peak("max_input_characters", input.chars().count() as u64);
        c.count(if want { "in_language" } else if tokenises { "tokens_not_a_sentence" } else { "not_tokenisable" }, 1);
        match (got, want) {
            (Ok(_), true) | (Err(_), false) => {}
            (Ok(_), false) => return Err(format!("input {:?} is accepted but {}", input, if tokenises { "is not in the language" } else { "does not tokenise entirely" })),
            (Err(e), true) => return Err(format!("input {:?} is in the language but is refused: {} at {}", input, e.msg, e.loc)),
        }
        if want && input.len() > 3 {
            c.sample(|| format!("accepted {:?} by {}", input, src));
        }
    }
    Ok(())
}

fn main() {
    run(3000, 60000, case)
}
