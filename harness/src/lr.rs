//! Independent LR machinery: FIRST as a least fixpoint, canonical LR(1) sets, merging by core,
//! tables with conflict detection, and an Earley recogniser.
use crate::model::{Cfg, S};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type TSet = BTreeSet<u32>;

/// Least fixpoint of FIRST over all nonterminals (no empty rules exist in the language).
pub fn first_sets(c: &Cfg) -> Vec<TSet> {
    let mut f = vec![TSet::new(); c.nts.len()];
    loop {
        let mut ch = false;
        for (l, r) in &c.rules {
            let add: TSet = match r.first() {
                None => continue,
                Some(S::T(t)) => [*t].into(),
                Some(S::N(n)) => f[*n as usize].clone(),
            };
            for t in add {
                ch |= f[*l as usize].insert(t);
            }
        }
        if !ch {
            return f;
        }
    }
}

/// (rule, dot) -> lookaheads
pub type State = BTreeMap<(usize, usize), TSet>;

fn closure(c: &Cfg, first: &[TSet], kernel: State) -> State {
    let mut st = kernel;
    let mut work: Vec<((usize, usize), u32)> = vec![];
    for (k, v) in &st {
        for t in v {
            work.push((*k, *t));
        }
    }
    while let Some(((r, d), la)) = work.pop() {
        let rhs = &c.rules[r].1;
        if let Some(S::N(n)) = rhs.get(d) {
            let las: TSet = match rhs.get(d + 1) {
                None => [la].into(),
                Some(S::T(t)) => [*t].into(),
                Some(S::N(m)) => first[*m as usize].clone(),
            };
            for &q in &c.by_nt[*n as usize] {
                for &b in &las {
                    if st.entry((q, 0)).or_default().insert(b) {
                        work.push(((q, 0), b));
                    }
                }
            }
        }
    }
    st.retain(|_, v| !v.is_empty());
    st
}

fn goto_kernel(c: &Cfg, st: &State, x: S) -> State {
    let mut k = State::new();
    for ((r, d), v) in st {
        if c.rules[*r].1.get(*d) == Some(&x) {
            k.entry((*r, d + 1)).or_default().extend(v.iter().copied());
        }
    }
    k
}

fn symbols_after_dot(c: &Cfg, st: &State) -> BTreeSet<S> {
    st.keys().filter_map(|(r, d)| c.rules[*r].1.get(*d).copied()).collect()
}

pub struct Lr1 {
    pub states: Vec<State>,
    pub trans: Vec<BTreeMap<S, usize>>,
}

pub fn canonical(c: &Cfg, max_states: usize) -> Option<Lr1> {
    let first = first_sets(c);
    let s0 = closure(c, &first, [((0, 0), TSet::from([0]))].into());
    let mut idx: HashMap<State, usize> = HashMap::new();
    idx.insert(s0.clone(), 0);
    let mut states = vec![s0];
    let mut trans: Vec<BTreeMap<S, usize>> = vec![];
    let mut i = 0;
    while i < states.len() {
        let st = states[i].clone();
        let mut tr = BTreeMap::new();
        for x in symbols_after_dot(c, &st) {
            let g = closure(c, &first, goto_kernel(c, &st, x));
            let j = *idx.entry(g.clone()).or_insert_with(|| {
                states.push(g);
                states.len() - 1
            });
            tr.insert(x, j);
        }
        trans.push(tr);
        if states.len() > max_states {
            return None;
        }
        i += 1;
    }
    Some(Lr1 { states, trans })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}

pub struct Lalr {
    pub states: Vec<State>,
    /// canonical state -> merged state
    pub map: Vec<usize>,
    pub action: Vec<BTreeMap<u32, BTreeSet<Act>>>,
    pub goto: Vec<BTreeMap<u32, usize>>,
    pub conflicts: usize,
}

fn fill(c: &Cfg, states: &[State], trans: &[BTreeMap<S, usize>]) -> (Vec<BTreeMap<u32, BTreeSet<Act>>>, Vec<BTreeMap<u32, usize>>, usize) {
    let mut action = vec![BTreeMap::<u32, BTreeSet<Act>>::new(); states.len()];
    let mut goto = vec![BTreeMap::new(); states.len()];
    for (i, st) in states.iter().enumerate() {
        for (x, j) in &trans[i] {
            match x {
                S::T(t) => {
                    action[i].entry(*t).or_default().insert(Act::Shift(*j));
                }
                S::N(n) => {
                    goto[i].insert(*n, *j);
                }
            }
        }
        for ((r, d), las) in st {
            if *d == c.rules[*r].1.len() {
                for t in las {
                    let a = if *r == 0 { Act::Accept } else { Act::Reduce(*r) };
                    action[i].entry(*t).or_default().insert(a);
                }
            }
        }
    }
    let conflicts = action.iter().flat_map(|m| m.values()).filter(|s| s.len() > 1).count();
    (action, goto, conflicts)
}

pub fn lalr(c: &Cfg, l: &Lr1) -> Lalr {
    let mut core_idx: HashMap<Vec<(usize, usize)>, usize> = HashMap::new();
    let mut map = vec![];
    let mut states: Vec<State> = vec![];
    for st in &l.states {
        let core: Vec<_> = st.keys().copied().collect();
        let j = *core_idx.entry(core).or_insert_with(|| {
            states.push(State::new());
            states.len() - 1
        });
        for (k, v) in st {
            states[j].entry(*k).or_default().extend(v.iter().copied());
        }
        map.push(j);
    }
    let mut trans: Vec<BTreeMap<S, usize>> = vec![BTreeMap::new(); states.len()];
    for (i, tr) in l.trans.iter().enumerate() {
        for (x, j) in tr {
            let old = trans[map[i]].insert(*x, map[*j]);
            assert!(old.is_none() || old == Some(map[*j]), "oracle: merged transition not a function");
        }
    }
    let (action, goto, conflicts) = fill(c, &states, &trans);
    Lalr { states, map, action, goto, conflicts }
}

pub fn lr1_conflicts(c: &Cfg, l: &Lr1) -> usize {
    fill(c, &l.states, &l.trans).2
}

/// LALR(1) lookaheads a second way: LR(0) automaton plus propagation (dragon book 4.7.4 with a
/// dummy lookahead), for cross-checking the oracle itself on reduced grammars.
pub fn lalr_by_propagation(c: &Cfg) -> (Vec<State>, Vec<BTreeMap<S, usize>>) {
    let first = first_sets(c);
    type K = BTreeSet<(usize, usize)>;
    let lr0_closure = |k: &K| -> K {
        let mut s = k.clone();
        let mut w: Vec<_> = s.iter().copied().collect();
        while let Some((r, d)) = w.pop() {
            if let Some(S::N(n)) = c.rules[r].1.get(d) {
                for &q in &c.by_nt[*n as usize] {
                    if s.insert((q, 0)) {
                        w.push((q, 0));
                    }
                }
            }
        }
        s
    };
    let mut kernels: Vec<K> = vec![[(0, 0)].into()];
    let mut idx: HashMap<K, usize> = [(kernels[0].clone(), 0)].into();
    let mut trans: Vec<BTreeMap<S, usize>> = vec![];
    let mut i = 0;
    while i < kernels.len() {
        let cl = lr0_closure(&kernels[i]);
        let mut by: BTreeMap<S, K> = BTreeMap::new();
        for (r, d) in cl {
            if let Some(x) = c.rules[r].1.get(d) {
                by.entry(*x).or_default().insert((r, d + 1));
            }
        }
        let mut tr = BTreeMap::new();
        for (x, k) in by {
            let j = *idx.entry(k.clone()).or_insert_with(|| {
                kernels.push(k);
                kernels.len() - 1
            });
            tr.insert(x, j);
        }
        trans.push(tr);
        i += 1;
    }
    const DUMMY: u32 = u32::MAX;
    let mut las: HashMap<(usize, (usize, usize)), TSet> = HashMap::new();
    las.entry((0, (0, 0))).or_default().insert(0);
    let mut prop: Vec<((usize, (usize, usize)), (usize, (usize, usize)))> = vec![];
    for (i, k) in kernels.iter().enumerate() {
        for it in k {
            let cl = closure(c, &first, [(*it, TSet::from([DUMMY]))].into());
            for ((r, d), v) in cl {
                if let Some(x) = c.rules[r].1.get(d) {
                    let to = (trans[i][x], (r, d + 1));
                    for t in v {
                        if t == DUMMY {
                            prop.push(((i, *it), to));
                        } else {
                            las.entry(to).or_default().insert(t);
                        }
                    }
                }
            }
        }
    }
    loop {
        let mut ch = false;
        for (a, b) in &prop {
            let src = las.get(a).cloned().unwrap_or_default();
            let dst = las.entry(*b).or_default();
            let n = dst.len();
            dst.extend(src);
            ch |= dst.len() != n;
        }
        if !ch {
            break;
        }
    }
    let states = kernels
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let ks: State = k
                .iter()
                .map(|it| (*it, las.get(&(i, *it)).cloned().unwrap_or_default()))
                .collect();
            closure(c, &first, ks)
        })
        .collect();
    (states, trans)
}

/// Earley recogniser over terminal numbers (no empty rules).
pub fn earley(c: &Cfg, input: &[u32]) -> bool {
    // item: (rule, dot, origin)
    let n = input.len();
    let mut sets: Vec<HashSet<(usize, usize, usize)>> = vec![HashSet::new(); n + 1];
    let mut order: Vec<Vec<(usize, usize, usize)>> = vec![vec![]; n + 1];
    sets[0].insert((0, 0, 0));
    order[0].push((0, 0, 0));
    for i in 0..=n {
        let mut k = 0;
        while k < order[i].len() {
            let (r, d, o) = order[i][k];
            k += 1;
            match c.rules[r].1.get(d) {
                Some(S::T(t)) => {
                    if i < n && input[i] == *t {
                        let it = (r, d + 1, o);
                        if sets[i + 1].insert(it) {
                            order[i + 1].push(it);
                        }
                    }
                }
                Some(S::N(m)) => {
                    for &q in &c.by_nt[*m as usize] {
                        let it = (q, 0, i);
                        if sets[i].insert(it) {
                            order[i].push(it);
                        }
                    }
                }
                None => {
                    let l = c.rules[r].0;
                    // o < i always: no empty rules, so the parents are final
                    let parents: Vec<_> = order[o]
                        .iter()
                        .copied()
                        .filter(|(pr, pd, _)| c.rules[*pr].1.get(*pd) == Some(&S::N(l)))
                        .collect();
                    for (pr, pd, po) in parents {
                        let it = (pr, pd + 1, po);
                        if sets[i].insert(it) {
                            order[i].push(it);
                        }
                    }
                }
            }
        }
    }
    sets[n].contains(&(0, 1, 0))
}

/// Viable-prefix oracle: can `prefix` be extended to a sentence (reduced grammars only)?
pub fn viable_prefix(c: &Cfg, prefix: &[u32]) -> bool {
    let n = prefix.len();
    let mut order: Vec<Vec<(usize, usize, usize)>> = vec![vec![]; n + 1];
    let mut sets: Vec<HashSet<(usize, usize, usize)>> = vec![HashSet::new(); n + 1];
    sets[0].insert((0, 0, 0));
    order[0].push((0, 0, 0));
    for i in 0..=n {
        let mut k = 0;
        while k < order[i].len() {
            let (r, d, o) = order[i][k];
            k += 1;
            match c.rules[r].1.get(d) {
                Some(S::T(t)) => {
                    if i < n && prefix[i] == *t && sets[i + 1].insert((r, d + 1, o)) {
                        order[i + 1].push((r, d + 1, o));
                    }
                }
                Some(S::N(m)) => {
                    for &q in &c.by_nt[*m as usize] {
                        if sets[i].insert((q, 0, i)) {
                            order[i].push((q, 0, i));
                        }
                    }
                }
                None => {
                    let l = c.rules[r].0;
                    let parents: Vec<_> = order[o]
                        .iter()
                        .copied()
                        .filter(|(pr, pd, _)| c.rules[*pr].1.get(*pd) == Some(&S::N(l)))
                        .collect();
                    for (pr, pd, po) in parents {
                        if sets[i].insert((pr, pd + 1, po)) {
                            order[i].push((pr, pd + 1, po));
                        }
                    }
                }
            }
        }
        if order[i].is_empty() {
            return false;
        }
    }
    true
}

/// Parse with conflict-free oracle tables; returns the rules reduced in order, or how many
/// tokens were shifted before the error.
pub fn run_tables(l: &Lalr, c: &Cfg, input: &[u32]) -> Result<Vec<usize>, usize> {
    let mut st = vec![0usize];
    let mut i = 0;
    let mut out = vec![];
    loop {
        let a = input.get(i).copied().unwrap_or(0);
        let act = l.action[*st.last().unwrap()].get(&a).and_then(|s| s.iter().next());
        match act {
            None => return Err(i),
            Some(Act::Accept) => return Ok(out),
            Some(Act::Shift(j)) => {
                st.push(*j);
                i += 1;
            }
            Some(Act::Reduce(r)) => {
                out.push(*r);
                let n = st.len() - c.rules[*r].1.len();
                st.truncate(n);
                let g = l.goto[*st.last().unwrap()].get(&c.rules[*r].0).copied();
                match g {
                    Some(g) => st.push(g),
                    None => return Err(i),
                }
            }
        }
    }
}
