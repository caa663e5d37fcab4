//! P04: canonical item sets are exact, and merging conserves states and lookaheads.
use bumpalo::Bump;
use harness::{gen, glue, lr, model::*, util::*};
use std::collections::{BTreeMap, BTreeSet};
use typelalr::lalr::item::ItemSet;
use typelalr::lalr::table::merge_cores;
use typelalr::parser::Grammar;

fn case(c: &mut Case) -> Verdict {
    let o = gen::GOpts { max_nt: 6, huge: 250, hard_lits: true, ..Default::default() };
    let (label, g) = gen::grammar(&mut c.rng, o);
    let src = g.print();
    c.input(&src);
    let cfg = Cfg::of(&g).unwrap();
    if cfg.undefined_reachable() {
        return Ok(());
    }
    c.count("huge_grammars", label.starts_with("huge") as u64);
    let Some(l1) = lr::canonical(&cfg, if label.starts_with("huge") { 4000 } else { 300 }) else {
        c.count("skipped_too_large", 1);
        return Ok(());
    };
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let m = glue::maps(&gr, &cfg)?;
    let items = guard(|| ItemSet::items(&gr)).map_err(|p| format!("building the states failed: {} {}", p.msg, p.loc))?;
    let got: Vec<lr::State> = items.iter().map(|s| glue::item_set(s, &m)).collect::<Result<_, _>>()?;
    c.eval(got.len() > 3, &src);
    c.peak("max_canonical_states", got.len() as u64);
    c.count("canonical_states", got.len() as u64);
    if got.first() != l1.states.first() {
        return Err(format!("the first state is not the initial one: {:?}, expected {:?}", got.first(), l1.states.first()));
    }
    let gs: BTreeSet<&lr::State> = got.iter().collect();
    let ws: BTreeSet<&lr::State> = l1.states.iter().collect();
    if gs.len() != got.len() {
        return Err("a state was built twice".into());
    }
    if let Some(x) = gs.difference(&ws).next() {
        return Err(format!("a state that is not canonical: {:?}", x));
    }
    if let Some(x) = ws.difference(&gs).next() {
        return Err(format!("a canonical state is missing: {:?}", x));
    }

    // merging
    let (merged, map) = guard(|| merge_cores(&items)).map_err(|p| format!("merging failed: {} {}", p.msg, p.loc))?;
    let mg: Vec<lr::State> = merged.iter().map(|s| glue::item_set(s, &m)).collect::<Result<_, _>>()?;
    let core = |s: &lr::State| -> Vec<(usize, usize)> { s.keys().copied().collect() };
    let n = got.len();
    if map.len() != n || (0..n).any(|i| map.get(&i).map_or(true, |j| *j >= mg.len())) {
        return Err(format!("{} states, {} assigned to {} merged states: {:?}", n, map.len(), mg.len(), map));
    }
    let mut by_core: BTreeMap<Vec<(usize, usize)>, Vec<usize>> = BTreeMap::new();
    for i in 0..n {
        by_core.entry(core(&got[i])).or_default().push(i);
    }
    if by_core.len() != mg.len() {
        return Err(format!("{} different sets of dotted rules, {} merged states", by_core.len(), mg.len()));
    }
    let mut hit = vec![false; mg.len()];
    for (k, is) in &by_core {
        let j = map[&is[0]];
        let mut want = lr::State::new();
        for i in is {
            if map[i] != j {
                return Err(format!("states {} and {} hold the same dotted rules but were merged apart", is[0], i));
            }
            for (it, las) in &got[*i] {
                want.entry(*it).or_default().extend(las.iter().copied());
            }
        }
        if hit[j] {
            return Err(format!("states with different dotted rules share merged state {}", j));
        }
        hit[j] = true;
        if mg[j] != want {
            return Err(format!("merged state {} is {:?}, the union of its members is {:?} (core {:?})", j, mg[j], want, k));
        }
        if is.len() > 1 {
            c.count("merged_states_with_several_members", 1);
        }
        if is.len() > 2 {
            c.count("merged_states_with_three_or_more_members", 1);
            c.sample(|| format!("{} members {:?} in {}", is.len(), want, src));
        }
    }
    // the initial state stays first
    if map[&0] != 0 {
        return Err("the merged initial state is not the first".into());
    }
    c.count("merged_states", mg.len() as u64);
    Ok(())
}

fn main() {
    run(8000, 150000, case)
}
