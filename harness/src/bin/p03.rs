//! P03: the produced tables are the LALR(1) tables up to a renumbering of states.
use bumpalo::Bump;
use harness::{gen, glue, lr, model::*, util::*};
use std::collections::{BTreeMap, BTreeSet};
use typelalr::lalr::item::TokenIdx;
use typelalr::lalr::table::{make_tables, Action};
use typelalr::parser::{ast::Ident, Grammar};

fn case(c: &mut Case) -> Verdict {
    let o = gen::GOpts { max_nt: 6, huge: 250, hard_lits: true, ..Default::default() };
    let (label, g) = gen::grammar(&mut c.rng, o);
    let src = g.print();
    c.input(&src);
    let cfg = Cfg::of(&g).unwrap();
    if !glue::regexes_ok(&g) || cfg.undefined_reachable() {
        return Ok(());
    }
    c.count("huge_grammars", label.starts_with("huge") as u64);
    let Some(l1) = lr::canonical(&cfg, if label.starts_with("huge") { 4000 } else { 300 }) else {
        c.count("skipped_too_large", 1);
        return Ok(());
    };
    let la = lr::lalr(&cfg, &l1);
    if la.conflicts > 0 {
        c.count("not_lalr1", 1);
        return Ok(());
    }
    if label.starts_with("template") {
        c.count("templates", 1);
    }
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let m = glue::maps(&gr, &cfg)?;
    let (action, goto, states) = guard(|| make_tables(&gr)).map_err(|p| format!("an LALR(1) grammar was refused: {} {}", p.msg, p.loc))?;
    let merged = l1.states.len() != la.states.len();
    c.eval(la.states.len() > 3, &src);
    c.count("grammars", 1);
    c.count("grammars_with_merged_states", merged as u64);
    c.peak("max_states", la.states.len() as u64);
    c.count("states", la.states.len() as u64);

    // rows of the produced tables, in the oracle's numbers
    let row = |s: usize| -> Result<(BTreeMap<u32, Action>, BTreeMap<u32, usize>), String> {
        let mut a = BTreeMap::new();
        if let Some(r) = action.get(&s) {
            for (t, act) in r {
                let t = *m.term.get(&t.0).ok_or_else(|| format!("state {} has an entry for symbol {}, which is no terminal", s, t.0))?;
                a.insert(t, *act);
            }
        }
        let mut gt = BTreeMap::new();
        if let Some(r) = goto.get(&s) {
            for (n, j) in r {
                let n = cfg.nt(n.0).ok_or_else(|| format!("state {} has a goto for unknown {}", s, n.0))?;
                gt.insert(n, *j);
            }
        }
        Ok((a, gt))
    };
    let mut pair: BTreeMap<usize, usize> = [(0, 0)].into(); // oracle -> produced
    let mut back: BTreeMap<usize, usize> = [(0, 0)].into();
    let mut work = vec![0usize];
    let mut entries = 0u64;
    while let Some(o) = work.pop() {
        let s = pair[&o];
        let (a, gt) = row(s)?;
        let want_a = &la.action[o];
        let want_g = &la.goto[o];
        let name = |t: &u32| if *t == 0 { "end of input".to_string() } else { format!("{:?}", cfg.terminals[*t as usize]) };
        for t in a.keys() {
            if !want_a.contains_key(t) {
                return Err(format!("state {}: extra action on {}: {:?}\nitems: {:?}", s, name(t), a[t], la.states[o]));
            }
        }
        for n in gt.keys() {
            if !want_g.contains_key(n) {
                return Err(format!("state {}: extra goto on {}", s, cfg.nts[*n as usize]));
            }
        }
        let mut edges: Vec<(usize, usize, String)> = vec![];
        for (t, w) in want_a {
            let w = *w.iter().next().unwrap();
            entries += 1;
            match (w, a.get(t)) {
                (lr::Act::Accept, Some(Action::Accept)) => {}
                (lr::Act::Reduce(r), Some(Action::Reduce(p))) if m.rule.get(p.0 as usize) == Some(&r) => {}
                (lr::Act::Shift(j), Some(Action::Shift(k))) => edges.push((j, *k as usize, name(t))),
                (w, got) => return Err(format!("state {}: on {} the LALR(1) table says {:?}, produced {:?}\nitems: {:?}", s, name(t), w, got, la.states[o])),
            }
        }
        for (n, j) in want_g {
            entries += 1;
            match gt.get(n) {
                Some(k) => edges.push((*j, *k, cfg.nts[*n as usize].clone())),
                None => return Err(format!("state {}: goto on {} is missing", s, cfg.nts[*n as usize])),
            }
        }
        for (j, k, on) in edges {
            match (pair.get(&j), back.get(&k)) {
                (None, None) => {
                    pair.insert(j, k);
                    back.insert(k, j);
                    work.push(j);
                }
                (Some(x), Some(y)) if *x == k && *y == j => {}
                _ => return Err(format!("state {} on {} leads to state {}, which does not correspond to the LALR(1) state", s, on, k)),
            }
        }
    }
    c.count("entries", entries);
    if pair.len() != la.states.len() {
        panic!("oracle states not all reachable");
    }
    if states.len() != la.states.len() {
        return Err(format!("{} states produced, LALR(1) has {}", states.len(), la.states.len()));
    }
    let known: BTreeSet<usize> = back.keys().copied().collect();
    for (s, r) in action.iter() {
        if !known.contains(s) && !r.is_empty() {
            return Err(format!("actions for a state {} that does not exist", s));
        }
    }
    for (s, r) in goto.iter() {
        if !known.contains(s) && !r.is_empty() {
            return Err(format!("gotos for a state {} that does not exist", s));
        }
    }

    // run the produced tables
    let reduced = cfg.reduced();
    for round in 0..6 {
        let budget = c.rng.range(1, 30);
        let Some(mut w) = cfg.sentence(&mut c.rng, budget) else { break };
        let valid = round % 2 == 0;
        if !valid && cfg.terminals.len() > 1 {
            let t = 1 + c.rng.below(cfg.terminals.len() - 1) as u32;
            let k = c.rng.below(w.len() + 1);
            match c.rng.below(3) {
                0 => w.insert(k, t),
                1 if k < w.len() => w[k] = t,
                _ => {
                    w.truncate(k);
                }
            }
        }
        if w.len() > 200 {
            continue;
        }
        c.input(format!("{}\ntokens {:?}", src, w.iter().map(|t| &cfg.terminals[*t as usize]).collect::<Vec<_>>()));
        let in_lang = lr::earley(&cfg, &w);
        let want = lr::run_tables(&la, &cfg, &w);
        assert_eq!(want.is_ok(), in_lang, "oracle tables and Earley disagree on {}", src);
        // drive the produced tables
        let mut st = vec![0u32];
        let mut i = 0;
        let mut out = vec![];
        let mut steps = 0;
        let got: Result<Vec<usize>, usize> = loop {
            steps += 1;
            if steps > 20000 {
                return Err("the produced tables loop".into());
            }
            let t = w.get(i).copied().unwrap_or(0);
            let tok = *m.term_back.get(&t).ok_or("terminal without number")?;
            match action.try_index((*st.last().unwrap(), TokenIdx(tok))) {
                None => break Err(i),
                Some(Action::Accept) => break Ok(out),
                Some(Action::Shift(j)) => {
                    st.push(*j);
                    i += 1;
                }
                Some(Action::Reduce(p)) => {
                    let r = m.rule[p.0 as usize];
                    out.push(r);
                    let n = cfg.rules[r].1.len();
                    if st.len() <= n {
                        return Err("a reduction takes more than the stack holds".into());
                    }
                    st.truncate(st.len() - n);
                    let name = gr.get_production(*p).unwrap().name;
                    match goto.try_index((*st.last().unwrap(), Ident(name.0))) {
                        Some(g) => st.push(*g as u32),
                        None => return Err(format!("no goto on {} in state {}", name.0, st.last().unwrap())),
                    }
                }
            }
        };
        if got != want {
            return Err(format!("tokens {:?}: derivation {:?}, expected {:?}", w, got, want));
        }
        if let Err(i) = got {
            c.count("runs_refused", 1);
            if reduced {
                // the tokens shifted form a viable prefix, the refused one does not continue it
                assert!(lr::viable_prefix(&cfg, &w[..i]), "oracle: shifted prefix not viable");
                if i < w.len() && lr::viable_prefix(&cfg, &w[..=i]) {
                    return Err(format!("tokens {:?}: token {} refused though it continues the input", w, i));
                }
            }
        } else {
            c.count("runs_accepted", 1);
        }
    }
    if merged {
        c.sample(|| format!("{} states from {} canonical ones: {}", la.states.len(), l1.states.len(), src));
    }
    Ok(())
}

fn main() {
    run(10000, 200000, case)
}
