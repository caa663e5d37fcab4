//! P02: a parser is produced exactly for LALR(1) grammars, whatever the order and names.
use bumpalo::Bump;
use harness::{gen, glue, lr, model::*, util::*};
use typelalr::{lalr::Lalr, parser::Grammar};

fn verdict(src: &str) -> Result<Result<(), Refused>, String> {
    let bump = Bump::new();
    let ast = glue::read(&bump, src).map_err(|e| format!("well-formed source refused: {}", e))?;
    Ok(guard(|| {
        let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
        let _l = Lalr::new(gr);
    }))
}

fn case(c: &mut Case) -> Verdict {
    let o = gen::GOpts { max_nt: 6, huge: 250, ..Default::default() };
    let (label, g) = match c.rng.below(5) {
        0 | 1 => {
            let g = gen::small(&mut c.rng);
            c.count("small_grammars", 1);
            (String::new(), g)
        }
        _ => gen::grammar(&mut c.rng, o),
    };
    let src = g.print();
    c.input(&src);
    let cfg = Cfg::of(&g).unwrap();
    if !glue::regexes_ok(&g) || !glue::distinct_texts(&g) || cfg.undefined_reachable() || !cfg.all_defined() {
        return Ok(());
    }
    c.peak("max_source_characters", src.len() as u64);
    c.count("huge_grammars", label.starts_with("huge") as u64);
    let Some(l1) = lr::canonical(&cfg, if label.starts_with("huge") { 4000 } else { 300 }) else {
        c.count("skipped_too_large", 1);
        return Ok(());
    };
    let la = lr::lalr(&cfg, &l1);
    let ok = la.conflicts == 0;
    if cfg.reduced() && c.rng.chance(1, 4) {
        // the oracle against a second construction of itself
        let (st, _) = lr::lalr_by_propagation(&cfg);
        let mut a = st.clone();
        let mut b = la.states.clone();
        a.sort();
        b.sort();
        assert!(a == b, "the two LALR(1) oracles disagree on\n{}", src);
        c.count("oracle_cross_checked", 1);
    }
    if !cfg.reduced() {
        c.count("not_reduced", 1);
    }
    let lr1ok = lr::lr1_conflicts(&cfg, &l1) == 0;
    c.count(if ok { "lalr1" } else if lr1ok { "lr1_but_not_lalr1" } else { "not_lr1" }, 1);
    // bounds of "is LALR(1)" for grammars with useless productions are not pinned by theory:
    // the oracle then follows the textbook construction, and so must the code
    c.eval(cfg.rules.len() > 2, &src);
    let v = verdict(&src)?;
    judge(&v, ok, &src)?;
    for _ in 0..2 {
        let mut h = g.clone();
        c.rng.shuffle(&mut h.prods);
        for p in &mut h.prods {
            c.rng.shuffle(&mut p.bodies);
        }
        let mut pool: Vec<&str> = gen::NAMES.to_vec();
        c.rng.shuffle(&mut pool);
        let map = h.prods.iter().enumerate().map(|(i, p)| (p.name.clone(), pool.get(i).map(|s| s.to_string()).unwrap_or(format!("N{}", i)))).collect();
        gen::rename(&mut h, &map);
        // the first production marked is the start: keep the same one
        let s0 = g.prods.iter().find(|p| p.start).unwrap().name.clone();
        for p in &mut h.prods {
            p.start = p.name == map[&s0];
        }
        let hs = h.print();
        c.input(&hs);
        c.count("reordered_renamed", 1);
        let v = verdict(&hs)?;
        judge(&v, ok, &hs)?;
    }
    if !ok {
        c.sample(|| format!("refused: {}", src));
    }
    Ok(())
}

fn judge(v: &Result<(), Refused>, ok: bool, src: &str) -> Verdict {
    match (v, ok) {
        (Ok(()), true) => Ok(()),
        (Err(e), false) if e.msg.to_lowercase().contains("conflict") => Ok(()),
        (Ok(()), false) => Err(format!("a parser was built for a grammar that is not LALR(1)\n{}", src)),
        (Err(e), false) => Err(format!("not LALR(1), but refused without naming a conflict: {} at {}\n{}", e.msg, e.loc, src)),
        (Err(e), true) => Err(format!("an LALR(1) grammar was refused: {} at {}\n{}", e.msg, e.loc, src)),
    }
}

fn main() {
    run(10000, 200000, case)
}
