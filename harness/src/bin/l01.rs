//! L01: compiled automata accept exactly the regex's language.
use harness::{gen, inputs, rx, util::*};
use std::collections::BTreeSet;
use typelalr::lex::{dfa::DFA, nfa::NFA};

fn case(c: &mut Case) -> Verdict {
    let re = match c.rng.below(8) {
        0 => c.rng.pick(gen::RES).to_string(),
        1 => c.rng.pick(*c.rng.clone().pick(inputs::RIVALS)).to_string(),
        2 => regex::escape(*c.rng.pick(gen::HARD_LITS)),
        k => {
            let o = rx::RxOpts { plain: k == 3, unicode: k > 4, empties: true };
            let d = c.rng.range(1, 3);
            rx::gen(&mut c.rng, d, o)
        }
    };
    c.input(&re);
    let h = match rx::parse(&re) {
        Some(h) if !rx::unsupported(&h) => h,
        _ => {
            c.count("regexes_not_supported", 1);
            return Ok(());
        }
    };
    c.peak("max_regex_characters", re.chars().count() as u64);
    c.count("regexes", 1);
    let nfa = guard(|| NFA::from_regex(&h)).map_err(|p| format!("compiling the regex failed: {} {}", p.msg, p.loc))?;
    let dfa = guard(|| DFA::from_nfa(nfa.clone())).map_err(|p| format!("compiling the automaton failed: {} {}", p.msg, p.loc))?;
    let other = regex::Regex::new(&format!("\\A(?:{})\\z", re)).ok();

    let mut probes: BTreeSet<String> = BTreeSet::new();
    probes.insert(String::new());
    let mut cs = BTreeSet::new();
    rx::boundary_chars(&h, &mut cs);
    let mut alpha: Vec<char> = cs.iter().copied().collect();
    if alpha.is_empty() {
        alpha.push('a');
    }
    for ch in alpha.iter().take(120) {
        probes.insert(ch.to_string());
    }
    // every short string over a few of its boundary characters
    c.rng.shuffle(&mut alpha);
    let small: Vec<char> = alpha.iter().copied().take(3).collect();
    let mut layer = vec![String::new()];
    for _ in 0..if c.thorough { 5 } else { 4 } {
        let mut nx = vec![];
        for s in &layer {
            for ch in &small {
                nx.push(format!("{}{}", s, ch));
            }
        }
        probes.extend(nx.iter().cloned());
        layer = nx;
    }
    for _ in 0..25 {
        let Some(s) = rx::sample_str(&h, &mut c.rng, false) else { break };
        let chars: Vec<char> = s.chars().collect();
        // and near misses
        if !chars.is_empty() {
            let k = c.rng.below(chars.len());
            let mut d = chars.clone();
            d.remove(k);
            probes.insert(d.iter().collect());
            let mut d = chars.clone();
            d[k] = *c.rng.pick(&alpha);
            probes.insert(d.iter().collect());
            probes.insert(chars[..k].iter().collect());
        }
        let mut d = chars.clone();
        let k = c.rng.below(chars.len() + 1);
        d.insert(k, *c.rng.pick(&alpha));
        probes.insert(d.iter().collect());
        probes.insert(format!("{}{}", s, s));
        probes.insert(s);
    }
    let mut acc = 0u64;
    for s in &probes {
        let chars: Vec<char> = s.chars().collect();
        let ends = rx::ends(&h, &chars, 0);
        let want = ends.contains(&chars.len());
        if let Some(o) = &other {
            assert_eq!(o.is_match(s), want, "the two reference matchers disagree on {:?} / {:?}", re, s);
            c.count("cross_checked", 1);
        }
        acc += want as u64;
        let e = |w: &str| format!("regex {:?}, string {:?}: {}, but the regex {} the whole string", re, s, w, if want { "matches" } else { "does not match" });
        let n = guard(|| nfa.simulate(s)).map_err(|p| format!("simulating failed on {:?}/{:?}: {} {}", re, s, p.msg, p.loc))?;
        if n != want {
            return Err(e(&format!("the nondeterministic automaton says {}", n)));
        }
        let d = guard(|| dfa.test(s)).map_err(|p| format!("testing failed on {:?}/{:?}: {} {}", re, s, p.msg, p.loc))?;
        if d != want {
            return Err(e(&format!("the deterministic automaton says {}", d)));
        }
        let p = guard(|| dfa.simulate(s)).map_err(|p| format!("simulating failed on {:?}/{:?}: {} {}", re, s, p.msg, p.loc))?;
        if let Some(k) = p {
            c.count("prefix_lengths_checked", 1);
            if k > chars.len() || !ends.contains(&k) {
                return Err(format!("regex {:?}, string {:?}: prefix length {} reported, matching prefixes are {:?}", re, s, k, ends));
            }
        }
        if want && p != Some(chars.len()) {
            return Err(e(&format!("prefix length {:?} reported", p)));
        }
        c.peak("max_string_characters", s.chars().count() as u64);
        c.count("strings", 1);
    }
    // now and then strings of thousands of characters, judged by the `regex` crate alone
    if let (Some(o), true) = (&other, c.rng.chance(1, 25)) {
        let n = c.rng.range(300, 4000);
        let mut long = vec![];
        if let Some(t) = rx::long_str(&h, &mut c.rng, n) {
            let mut d: Vec<char> = t.chars().take(n).collect();
            let k = c.rng.below(d.len() + 1);
            d.insert(k, *c.rng.pick(&alpha));
            long.push(d.into_iter().collect());
            long.push(t.chars().take(n).collect());
            long.push(t);
        }
        long.push((0..n).map(|_| *c.rng.pick(&small)).collect::<String>());
        for s in long {
            let want = o.is_match(&s);
            let n = guard(|| nfa.simulate(&s)).map_err(|p| format!("simulating failed on {:?}/{:?}: {} {}", re, s, p.msg, p.loc))?;
            let d = guard(|| dfa.test(&s)).map_err(|p| format!("testing failed on {:?}/{:?}: {} {}", re, s, p.msg, p.loc))?;
            let p = guard(|| dfa.simulate(&s)).map_err(|p| format!("simulating failed on {:?}/{:?}: {} {}", re, s, p.msg, p.loc))?;
            if n != want || d != want {
                return Err(format!("regex {:?}, string {:?}: the automata say {} and {}, the regex {}", re, s, n, d, want));
            }
            if let Some(k) = p {
                if k > s.chars().count() || !o.is_match(&s.chars().take(k).collect::<String>()) {
                    return Err(format!("regex {:?}, string {:?}: prefix length {} reported, that prefix does not match", re, s, k));
                }
            }
            if want && p != Some(s.chars().count()) {
                return Err(format!("regex {:?} matches all of {:?}, prefix length {:?} reported", re, s, p));
            }
            c.peak("max_string_characters", s.chars().count() as u64);
            c.count(if want { "long_strings_accepted" } else { "long_strings_refused" }, 1);
        }
    }
    c.count("strings_accepted", acc);
    c.eval(acc > 0 && acc < probes.len() as u64, &re);
    c.sample(|| format!("{} on {} strings, {} accepted", re, probes.len(), acc));
    Ok(())
}

fn main() {
    run(3000, 60000, case)
}
