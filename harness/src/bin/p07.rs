//! P07: the refusal of a grammar that is not LALR(1) names a conflict that is there.
use bumpalo::Bump;
use harness::{gen, glue, lr, model::*, util::*};
use typelalr::lalr::{item::ItemSet, table::merge_cores, Lalr};
use typelalr::parser::Grammar;

/// the first two numbers after the word
fn numbers(msg: &str) -> Option<(usize, u32)> {
    let at = msg.find("Conflict")?;
    let mut it = msg[at..].split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty());
    Some((it.next()?.parse().ok()?, it.next()?.parse().ok()?))
}

fn case(c: &mut Case) -> Verdict {
    let o = gen::GOpts { max_nt: 6, huge: 250, hard_lits: true, ..Default::default() };
    let (label, g) = match c.rng.below(4) {
        0 => (String::new(), gen::small(&mut c.rng)),
        _ => gen::grammar(&mut c.rng, o),
    };
    let src = g.print();
    c.input(&src);
    let cfg = Cfg::of(&g).unwrap();
    if !glue::regexes_ok(&g) || !glue::distinct_texts(&g) || cfg.undefined_reachable() || !cfg.all_defined() {
        return Ok(());
    }
    let Some(l1) = lr::canonical(&cfg, if label.starts_with("huge") { 4000 } else { 300 }) else {
        c.count("skipped_too_large", 1);
        return Ok(());
    };
    let la = lr::lalr(&cfg, &l1);
    if la.conflicts == 0 {
        c.count("lalr1", 1);
        return Ok(());
    }
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let m = glue::maps(&gr, &cfg)?;
    let (merged, _) = merge_cores(&ItemSet::items(&gr));
    let e = match guard(|| drop(Lalr::new(gr))) {
        Ok(()) => return Err(format!("a parser was built for a grammar that is not LALR(1)\n{}", src)),
        Err(e) => e,
    };
    let (state, term) = numbers(&e.msg).ok_or_else(|| format!("the refusal names no state and no terminal: {} at {}", e.msg, e.loc))?;
    let real = merged.get_index(state).ok_or_else(|| format!("{:?}: there are {} merged states", e.msg, merged.len()))?;
    let real = glue::item_set(real, &m)?;
    let t = *m.term.get(&term).ok_or_else(|| format!("{:?}: {} is the number of no terminal", e.msg, term))?;
    let core: Vec<_> = real.keys().copied().collect();
    let at = (0..la.states.len())
        .find(|i| la.states[*i].keys().copied().eq(core.iter().copied()))
        .ok_or_else(|| format!("{:?}: the state is no state of the LALR(1) automaton: {:?}", e.msg, real))?;
    let acts = la.action[at].get(&t).cloned().unwrap_or_default();
    c.eval(true, &src);
    if acts.len() < 2 {
        return Err(format!("{:?}: the state {:?} has no conflict on terminal {} ({:?}), its actions there: {:?}", e.msg, real, t, cfg.terminals.get(t as usize), acts));
    }
    let shifts = acts.iter().any(|a| matches!(a, lr::Act::Shift(_)));
    let accepts = acts.iter().any(|a| matches!(a, lr::Act::Accept));
    c.count(if accepts { "conflicts_with_accepting" } else if shifts { "shift_reduce_conflicts" } else { "reduce_reduce_conflicts" }, 1);
    c.count("conflicts_at_the_end_of_input", (t == 0) as u64);
    c.count("conflicts_only_after_merging", (lr::lr1_conflicts(&cfg, &l1) == 0) as u64);
    let quiet = la.action.iter().flat_map(|r| r.values()).filter(|a| a.len() == 1).count();
    c.count("entries_without_a_conflict_beside", quiet as u64);
    c.peak("max_merged_states", merged.len() as u64);
    c.sample(|| format!("{} in {}", e.msg, src));
    Ok(())
}

fn main() {
    run(12000, 250000, case)
}
