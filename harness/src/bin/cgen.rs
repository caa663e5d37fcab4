//! Emits jobs for the TypeScript side (C01-C05): generated modules of real runs of the generator
//! together with what they have to say, computed by the oracles. The verdicts are made in
//! ts/judge.mjs, where the generated modules are read back and evaluated.
use bumpalo::Bump;
use harness::{gen, glue, inputs, lexref, lr, model::*, parsing, rx, tsmap, util::*};
use regex_syntax::hir::Hir;
use std::io::Write;
use typelalr::codegen::{lex_gen, parse_gen};
use typelalr::lalr::table::{make_tables, Action};
use typelalr::lalr::Lalr;
use typelalr::lex::lex::{Lex, Token, TokenDef};
use typelalr::parser::{Grammar, Symbol};

fn emit(c: &Case, line: String) {
    let f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.jobs", c.args.out));
    writeln!(f.expect("jobs file"), "{}", line).expect("jobs file");
}

const NASTY: &[&str] = &[
    "\"", "'", "\\", "\\\\", "`", "${x}", "\n", "\r", "\r\n", "\t", "\u{2028}", "\u{2029}", "\u{0}", "\u{1}", "\u{7f}", "\\n", "\\u0041", "\\x41", "*/", "//", "é", "𝄞", "a'b\"c\\d", "'\"", "\\'", "\\\"", " ",
    "", "__proto__", "constructor", "toString", "0", "-1", "1e3", "kind", "}", "{", "${", "\u{feff}", "\u{85}", "%s", "{}",
];

/// What the in-process lexer makes of the input: the numbers of the kinds, the texts, and whether
/// it got to the end. (Whether that is right is L03's and L04's question.) Tokens can only be
/// compared, so each is identified by trying the reference's token, then every part of the input.
fn in_process(lex: &Lex, names: &[String], with_val: &[bool], hirs: &[Hir], input: &str) -> Option<(Vec<(usize, String)>, bool)> {
    let (got, consumed) = guard(|| lex.lex_prefix(input)).ok()?;
    let want = lexref::lex(hirs, input);
    let make = |k: usize, s: &str| if with_val[k] { Token::new_with_val(names[k].clone(), s.to_string()) } else { Token::new(names[k].clone()) };
    let cuts: Vec<usize> = input.char_indices().map(|(i, _)| i).chain([input.len()]).collect();
    let mut toks = vec![];
    for (i, g) in got.iter().enumerate() {
        let near = want.toks.get(i).map(|t| (t.kind, t.text.clone())).filter(|(k, s)| make(*k, s) == *g);
        let found = near.or_else(|| {
            for k in 0..names.len() {
                for (x, a) in cuts.iter().enumerate() {
                    for b in &cuts[x..] {
                        if make(k, &input[*a..*b]) == *g {
                            return Some((k, input[*a..*b].to_string()));
                        }
                    }
                }
            }
            None
        });
        toks.push(found?);
    }
    Some((toks, consumed == input.chars().count()))
}

struct LexJob {
    what: String,
    lex_ts: String,
    names: Vec<String>,
    with_val: Vec<bool>,
    hirs: Vec<Hir>,
    lex: Lex,
}

fn lex_setup(c: &mut Case, latin: bool) -> Option<LexJob> {
    if c.rng.chance(1, 2) {
        let mut set = inputs::token_set(&mut c.rng, false, latin);
        if c.rng.chance(1, 25) {
            // hundreds of states, dozens of edges from one of them
            let n = c.rng.range(60, 330);
            let chars: Vec<char> = ('!'..='~').filter(|c| c.is_ascii_alphanumeric() || "_-%&#~<>=@!,;:".contains(*c)).collect();
            let mut words = std::collections::BTreeSet::new();
            for _ in 0..n {
                let k = c.rng.range(1, 6);
                words.insert((0..k).map(|_| *c.rng.pick(&chars)).collect::<String>());
            }
            set = words.into_iter().map(|w| regex::escape(&w)).chain(["[0-9]+".to_string()]).collect();
            c.rng.shuffle(&mut set);
            c.count("large_lexers", 1);
        }
        let mut names: Vec<String> = vec![];
        for i in 0..set.len() {
            let n = match c.rng.below(3) {
                0 => {
                    let k = c.rng.range(1, 3);
                    (0..k).map(|_| *c.rng.pick(NASTY)).collect()
                }
                1 => set[i].clone(),
                _ => format!("k{}", i),
            };
            let n = if names.contains(&n) || n == "EOF" { format!("{}#{}", n, i) } else { n };
            names.push(n);
        }
        let with_val: Vec<bool> = set.iter().map(|_| c.rng.chance(2, 3)).collect();
        let hirs: Vec<Hir> = set.iter().map(|r| rx::parse(r).unwrap()).collect();
        let defs = (0..set.len())
            .map(|i| (TokenDef { name: names[i].clone(), with_val: with_val[i], token_idx: Some(i as u32 + 1) }, hirs[i].clone()))
            .collect();
        let what = format!("token kinds {:?} named {:?}", set, names);
        c.input(&what);
        let lex = Lex::from_tokens(defs);
        let lex_ts = lex_gen::generate(&lex);
        return Some(LexJob { what, lex_ts, names, with_val, hirs, lex });
    }
    let (_, mut g) = gen::grammar(&mut c.rng, gen::GOpts { hard_lits: true, max_terms: 8, ..Default::default() });
    if c.rng.chance(1, 2) {
        for _ in 0..c.rng.range(1, 4) {
            let k = c.rng.range(1, 3);
            let l: String = (0..k).map(|_| *c.rng.pick(NASTY)).collect();
            let p = c.rng.below(g.prods.len());
            g.prods[p].bodies.push(Body { syms: vec![(None, Sym::Lit(l))], map: "1".into() });
        }
    }
    let src = g.print();
    c.input(&src);
    if !glue::distinct_texts(&g) || !glue::regexes_ok(&g) {
        return None;
    }
    let kinds = glue::kinds(&g);
    let names: Vec<String> = kinds.iter().map(|k| glue::text(k).to_string()).collect();
    let hirs: Vec<Hir> = kinds.iter().filter_map(glue::hir_of).collect();
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).ok()?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let lex = Lex::from_grammar(&gr);
    let lex_ts = lex_gen::generate(&lex);
    let with_val = vec![true; names.len()];
    Some(LexJob { what: src, lex_ts, names, with_val, hirs, lex })
}

fn latin1(rng: &mut Rng, s: String) -> String {
    if !rng.chance(1, 4) {
        return s;
    }
    s.chars().map(|c| if c.is_ascii_alphabetic() && rng.chance(1, 5) { *rng.pick(&['é', 'ü', 'ß', 'À', 'ÿ', '÷']) } else { c }).collect()
}

fn lex_job(c: &mut Case, kind: &str) -> Verdict {
    let types = kind == "lextype";
    let Some(j) = lex_setup(c, true) else { return Ok(()) };
    c.peak("max_lexer_states", j.lex_ts.matches("accepting: ").count() as u64);
    c.peak("max_edges_of_a_state", j.lex_ts.split("accepting: ").map(|s| s.matches("from: ").count()).max().unwrap_or(0) as u64);
    let n_inputs = if types { 12 } else { 16 };
    let mut ins = vec![];
    for k in 0..n_inputs {
        let n = c.rng.range(0, if types { 5 } else { 9 });
        let mut t = inputs::text(&mut c.rng, &j.hirs, n, true, k % 2 == 0);
        t = latin1(&mut c.rng, t);
        if types {
            if k == 1 && c.rng.chance(1, 3) {
                // long enough to need dozens of tokens, or one token of a hundred characters
                let n = c.rng.range(20, 160);
                t = inputs::text(&mut c.rng, &j.hirs, n, true, true);
                if c.rng.chance(1, 3) {
                    t.push_str(&c.rng.pick(&["a", "ab", "0", "x ", "é"]).repeat(50));
                }
            }
            let max = match k {
                0 => 60,
                1 => 450,
                _ => 24,
            };
            t = t.chars().take(max).collect();
        }
        match in_process(&j.lex, &j.names, &j.with_val, &j.hirs, &t) {
            None => c.count("inputs_skipped_lexer_failed", 1),
            Some((toks, complete)) => {
                c.count("inputs", 1);
                c.count("inputs_complete", complete as u64);
                c.count("tokens", toks.len() as u64);
                ins.push(format!(
                    "{{\"text\":{},\"toks\":{},\"ok\":{}}}",
                    jstr(&t),
                    jarr(toks.iter(), |(k, s)| format!("[{},{}]", k, jstr(s))),
                    complete
                ));
            }
        }
    }
    emit(
        c,
        format!(
            "{{\"job\":{},\"case\":{},\"what\":{},\"lex\":{},\"names\":{},\"vals\":{},\"inputs\":[{}]}}",
            jstr(kind),
            c.idx,
            jstr(&j.what),
            jstr(&j.lex_ts),
            jarr(j.names.iter(), |s| jstr(s)),
            jarr(j.with_val.iter(), |b| b.to_string()),
            ins.join(",")
        ),
    );
    Ok(())
}

/// Grammar for the parser module checks: distinct texts, no text the end marker uses.
fn parse_grammar(c: &mut Case) -> Option<Gram> {
    let (_, mut g) = gen::grammar(&mut c.rng, gen::GOpts { hard_lits: true, max_terms: 8, huge: 150, ..Default::default() });
    // nasty literals in place of some
    if c.rng.chance(1, 2) {
        let k = c.rng.range(1, 3);
        let kinds = glue::kinds(&g);
        for _ in 0..k {
            if kinds.is_empty() {
                break;
            }
            let old = c.rng.pick(&kinds).clone();
            let m = c.rng.range(1, 3);
            let new = Sym::Lit((0..m).map(|_| *c.rng.pick(NASTY)).collect());
            for p in &mut g.prods {
                for b in &mut p.bodies {
                    for (_, s) in &mut b.syms {
                        if *s == old {
                            *s = new.clone();
                        }
                    }
                }
            }
        }
    }
    if glue::kinds(&g).iter().any(|k| glue::text(k) == "EOF") || !glue::distinct_texts(&g) {
        return None;
    }
    Some(g)
}

fn parse_job(c: &mut Case) -> Verdict {
    let Some(g) = parse_grammar(c) else { return Ok(()) };
    let src = g.print();
    c.input(&src);
    parse_job_for(c, &g, "parseread")
}

fn parse_job_for(c: &mut Case, g: &Gram, kind: &str) -> Verdict {
    let src = g.print();
    if parsing::oracle(g, room(g, 300)).is_none() {
        c.count("skipped", 1);
        return Ok(());
    }
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let Ok(lalr) = guard(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast))) else {
        c.count("skipped_refused_by_generator", 1);
        return Ok(());
    };
    let (_, parse_ts) = guard(|| parse_gen::generate(&bump, &ast, &lalr))
        .map_err(|p| format!("generating failed: {} {}", p.msg, p.loc))?
        .map_err(|e| format!("generating failed: {}", e))?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let (action, goto, _) = make_tables(&gr);
    let mut toks = vec![];
    let mut kinds = vec![];
    for (i, t) in gr.tokens().enumerate() {
        toks.push(match t {
            Symbol::Eof => {
                kinds.push(format!("[{},{}]", jstr("EOF"), i));
                "{\"kind\":\"eof\"}".to_string()
            }
            t => match glue::symbol(t) {
                Some(Sym::Lit(s)) => {
                    kinds.push(format!("[{},{}]", jstr(&s), i));
                    format!("{{\"kind\":\"strlit\",\"value\":{}}}", jstr(&s))
                }
                Some(Sym::Re(s)) => {
                    kinds.push(format!("[{},{}]", jstr(&s), i));
                    format!("{{\"kind\":\"regex\",\"value\":{}}}", jstr(&s))
                }
                Some(Sym::Nt(s)) => format!("{{\"kind\":\"nonterminal\",\"value\":{}}}", jstr(&s)),
                None => return Err("the grammar's symbols contain the empty symbol".into()),
            },
        });
    }
    // the grammar's own rules, not the model's: rule 0 is the added one
    let num = |s: &Sym| gr.tokens().position(|t| glue::symbol(t).as_ref() == Some(s));
    let mut prods = vec![];
    let name0 = gr.iter_productions().next().map(|p| p.name.0.to_string()).unwrap_or_default();
    let start = g.prods.iter().find(|p| p.start).unwrap().name.clone();
    let mut rules = vec![(name0, vec![Sym::Nt(start)])];
    for p in &g.prods {
        for b in &p.bodies {
            rules.push((p.name.clone(), b.syms.iter().map(|s| s.1.clone()).collect()));
        }
    }
    for (n, rhs) in &rules {
        let idx: Option<Vec<usize>> = rhs.iter().map(num).collect();
        let Some(idx) = idx else { return Err(format!("a symbol of rule {} -> {:?} has no number", n, rhs)) };
        prods.push(format!("{{\"name\":{},\"tokens\":{}}}", jstr(n), jarr(idx.iter(), |i| i.to_string())));
    }
    let mut acts = vec![];
    for (s, row) in action.iter() {
        for (t, a) in row {
            acts.push(match a {
                Action::Shift(j) => format!("[{},{},\"shift\",{}]", s, t.0, j),
                Action::Reduce(r) => format!("[{},{},\"reduce\",{}]", s, t.0, r.0),
                Action::Accept => format!("[{},{},\"accept\",true]", s, t.0),
            });
        }
    }
    let mut gotos = vec![];
    for (s, row) in goto.iter() {
        for (n, j) in row {
            gotos.push(format!("[{},{},{}]", s, jstr(n.0), j));
        }
    }
    c.count("grammars", 1);
    c.count("entries", (acts.len() + gotos.len()) as u64);
    emit(
        c,
        format!(
            "{{\"job\":{},\"case\":{},\"what\":{},\"parse\":{},\"tokens\":[{}],\"kinds\":[{}],\"prods\":[{}],\"acts\":[{}],\"gotos\":[{}]}}",
            jstr(kind),
            c.idx,
            jstr(&src),
            jstr(&parse_ts),
            toks.join(","),
            kinds.join(","),
            prods.join(","),
            acts.join(","),
            gotos.join(",")
        ),
    );
    Ok(())
}

fn modules(src: &str) -> Option<(String, String)> {
    let bump = Bump::new();
    let ast = glue::read(&bump, src).ok()?;
    let lalr = guard(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast))).ok()?;
    guard(|| parse_gen::generate(&bump, &ast, &lalr)).ok()?.ok()
}

/// canonical states allowed: hundreds of something need thousands
fn room(g: &Gram, otherwise: usize) -> usize {
    let alts: usize = g.prods.iter().map(|p| p.bodies.len()).sum();
    if alts > 200 || g.prods.iter().flat_map(|p| &p.bodies).any(|b| b.syms.len() > 200) {
        4000
    } else {
        otherwise
    }
}

fn check_job(c: &mut Case) -> Verdict {
    let Some(mut g) = parse_grammar(c) else { return Ok(()) };
    if room(&g, 0) > 0 {
        // checking the whole module takes the type checker minutes
        c.count("skipped_too_large_for_the_checker", 1);
        return Ok(());
    }
    let sem = tsmap::annotate(&mut c.rng, &mut g);
    let src = g.print();
    c.input(&src);
    if parsing::oracle(&g, room(&g, 150)).is_none() {
        c.count("skipped", 1);
        return Ok(());
    }
    let Some((lex, parse)) = modules(&src) else {
        c.count("skipped_refused_by_generator", 1);
        return Ok(());
    };
    c.count("grammars", 1);
    c.count("bindings", g.prods.iter().flat_map(|p| &p.bodies).flat_map(|b| &b.syms).filter(|s| s.0.is_some()).count() as u64);
    c.count("empty_annotations", g.prods.iter().filter(|p| p.ts.trim().is_empty()).count() as u64);
    let _ = sem;
    emit(
        c,
        format!("{{\"job\":\"check\",\"case\":{},\"what\":{},\"lex\":{},\"parse\":{}}}", c.idx, jstr(&src), jstr(&lex), jstr(&parse)),
    );
    Ok(())
}

/// A sentence whose parse takes about as many steps as the runtime allows.
fn near_budget(c: &mut Case, or: &parsing::Oracle) -> Option<Vec<u32>> {
    for _ in 0..20 {
        let budget = c.rng.range(6, 40);
        let w = or.cfg.long_sentence(&mut c.rng, budget)?;
        if w.len() > 60 {
            continue;
        }
        if let Ok(red) = lr::run_tables(&or.la, &or.cfg, &w) {
            let steps = w.len() + red.len();
            if (38..=56).contains(&steps) {
                return Some(w);
            }
        }
    }
    None
}

fn value_job(c: &mut Case, narrow: bool) -> Verdict {
    let (_, mut g) = gen::grammar(&mut c.rng, gen::GOpts { max_terms: 6, max_nt: 4, huge: 60, ..Default::default() });
    let sem = tsmap::annotate(&mut c.rng, &mut g);
    c.input(g.print());
    let Some(or) = parsing::oracle(&g, room(&g, 150)) else {
        c.count("skipped", 1);
        return Ok(());
    };
    let mut types = None;
    if narrow {
        // annotations made from values the productions have, fitting some of them and not others
        let mut seen: std::collections::BTreeMap<String, Vec<tsmap::Val>> = Default::default();
        for _ in 0..12 {
            let budget = c.rng.range(1, 12);
            let Some(w) = or.cfg.sentence(&mut c.rng, budget) else { break };
            let text = or.render(&mut c.rng, &w, true);
            let Some(toks) = or.tokens(&text) else { continue };
            let nums: Vec<u32> = toks.iter().map(|t| t.0).collect();
            if let Ok(red) = lr::run_tables(&or.la, &or.cfg, &nums) {
                tsmap::evaluate_seeing(&sem, &or.cfg, &toks, &red, &mut |n, v| {
                    let at = seen.entry(n.to_string()).or_default();
                    if at.len() < 12 {
                        at.push(v.clone());
                    }
                });
            }
        }
        types = Some(tsmap::narrow(&mut c.rng, &mut g, &sem, &seen));
    }
    let src = g.print();
    c.input(&src);
    let Some((lex_ts, parse_ts)) = modules(&src) else {
        c.count("skipped_refused_by_generator", 1);
        return Ok(());
    };
    let start = g.prods.iter().find(|p| p.start).unwrap().name.clone();
    let mut ins = vec![];
    for k in 0..11 {
        let near = k == 0 || k == 10;
        let budget = c.rng.range(1, 10);
        let found = if near { near_budget(c, &or) } else { or.cfg.sentence(&mut c.rng, budget) };
        let Some(mut w) = found else {
            if near {
                continue;
            }
            break;
        };
        if k % 3 == 2 {
            or.mutate(&mut c.rng, &mut w);
        }
        if w.len() > if near { 60 } else { 30 } {
            continue;
        }
        let text = or.render(&mut c.rng, &w, true);
        if text.chars().count() > if near { 150 } else { 70 } || !text.chars().all(|c| (' '..='~').contains(&c) || c == '\n') {
            continue;
        }
        let Some(toks) = or.tokens(&text) else { continue };
        let nums: Vec<u32> = toks.iter().map(|t| t.0).collect();
        let run = lr::run_tables(&or.la, &or.cfg, &nums);
        let mut misfit = false;
        let (want, steps) = match &run {
            Err(_) => {
                c.count("inputs_outside_language", 1);
                ("null".to_string(), 0)
            }
            Ok(red) => {
                let v = tsmap::evaluate_seeing(&sem, &or.cfg, &toks, red, &mut |n, v| {
                    if let Some(ts) = &types {
                        misfit |= !ts[n].fits(v, ts);
                    }
                });
                let Some(v) = v else {
                    c.count("inputs_skipped_value_too_large", 1);
                    continue;
                };
                if narrow {
                    c.count(if misfit { "inputs_with_a_value_that_does_not_fit" } else { "inputs_whose_values_fit" }, 1);
                }
                let steps = toks.len() + red.len();
                c.count(
                    match steps {
                        0..=40 => "inputs_well_within_budget",
                        41..=49 => "inputs_close_to_budget",
                        _ => "inputs_beyond_budget",
                    },
                    1,
                );
                match misfit {
                    true => ("null".to_string(), steps),
                    false => (jstr(&format!("[{{ kind: {}, value: {} }}]", jstr(&start), v.ts())), steps),
                }
            }
        };
        ins.push(format!("{{\"text\":{},\"want\":{},\"steps\":{},\"misfit\":{}}}", jstr(&text), want, steps, misfit));
    }
    if ins.is_empty() {
        return Ok(());
    }
    c.count("grammars", 1);
    c.count("inputs", ins.len() as u64);
    let decls: Vec<String> = types
        .iter()
        .flatten()
        .map(|(n, t)| {
            let text = t.ts();
            format!("[{},{},{}]", jstr(n), jstr(if text.trim().is_empty() { "any" } else { &text }), t.closed())
        })
        .collect();
    emit(
        c,
        format!(
            "{{\"job\":\"value\",\"case\":{},\"what\":{},\"lex\":{},\"parse\":{},\"start\":{},\"inputs\":[{}],\"decls\":[{}]}}",
            c.idx,
            jstr(&src),
            jstr(&lex_ts),
            jstr(&parse_ts),
            jstr(&start),
            ins.join(","),
            decls.join(",")
        ),
    );
    Ok(())
}

/// C09: refused texts and what the type-level refusal has to say.
fn refusal_job(c: &mut Case) -> Verdict {
    let (_, mut g) = gen::grammar(&mut c.rng, gen::GOpts { max_terms: 6, max_nt: 4, huge: 60, ..Default::default() });
    let sem = tsmap::annotate(&mut c.rng, &mut g);
    let src = g.print();
    c.input(&src);
    let Some(or) = parsing::oracle(&g, room(&g, 150)) else {
        c.count("skipped", 1);
        return Ok(());
    };
    let Some((lex_ts, parse_ts)) = modules(&src) else {
        c.count("skipped_refused_by_generator", 1);
        return Ok(());
    };
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused: {}", e))?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let number = |t: u32| match t {
        0 => Some(0),
        _ => gr.tokens().find(|x| glue::symbol(x).as_ref() == Some(&or.cfg.terminals[t as usize])).and_then(|x| gr.get_token_idx(x)).map(|x| x.0),
    };
    let mut ins = vec![];
    let mut texts: Vec<String> = vec![String::new(), " ".into()];
    for _ in 0..9 {
        let budget = c.rng.range(1, 12);
        let w = if c.rng.chance(1, 6) { near_budget(c, &or) } else { or.cfg.sentence(&mut c.rng, budget) };
        let Some(mut w) = w else { continue };
        let at = c.rng.below(w.len() + 1);
        match c.rng.below(5) {
            0 => w.truncate(at),
            1 if at < w.len() => {
                w.remove(at);
            }
            _ => or.mutate(&mut c.rng, &mut w),
        }
        w.truncate(60);
        let mut t = or.render(&mut c.rng, &w, true);
        if c.rng.chance(1, 3) {
            let mut cs: Vec<char> = t.chars().collect();
            for _ in 0..c.rng.range(1, 2) {
                let k = c.rng.below(cs.len() + 1);
                cs.insert(k, *c.rng.pick(&['~', '@', '!', '?', '%', '\'', '"', '\\', '$', '`', '{', '}', '0', ' ', 'é', '\t', '\u{416}', '\u{ffff}', '\u{7f}', '\r']));
            }
            t = cs.into_iter().collect();
        }
        texts.push(t);
    }
    texts.dedup();
    for text in texts {
        if text.chars().count() > 150 {
            continue;
        }
        let l = lexref::lex(&or.hirs, &text);
        let want = if !l.complete() {
            let ch = text.chars().nth(l.consumed).unwrap();
            c.count("texts_that_do_not_tokenise", 1);
            format!("\"ch\":{},\"at\":{}", jstr(&ch.to_string()), l.consumed)
        } else {
            let toks = or.tokens(&text).unwrap();
            let Some((steps, i, stack)) = tsmap::refusal(&sem, &or.cfg, &or.la, &toks) else { continue };
            let Some(n) = number(toks.get(i).map_or(0, |t| t.0)) else {
                return Err(format!("the token {} of {:?} has no number", i, text));
            };
            c.count("texts_that_are_no_sentence", 1);
            c.peak("max_tokens_before_the_refused_one", i as u64);
            format!("\"token\":{},\"steps\":{},\"stack\":{}", n, steps, jstr(&stack))
        };
        ins.push(format!("{{\"text\":{},{}}}", jstr(&text), want));
    }
    if ins.is_empty() {
        return Ok(());
    }
    c.count("grammars", 1);
    emit(
        c,
        format!(
            "{{\"job\":\"refusal\",\"case\":{},\"what\":{},\"lex\":{},\"parse\":{},\"inputs\":[{}]}}",
            c.idx,
            jstr(&src),
            jstr(&lex_ts),
            jstr(&parse_ts),
            ins.join(",")
        ),
    );
    Ok(())
}

/// Fixed inputs that reproduce the listed known findings.
fn probes(c: &mut Case, mode: &str) -> Verdict {
    let same = "export start S: () = [\n\"a+\" \"x\" => ([1])\n, r\"a+\" \"y\" => ([2])\n]\n";
    let eof = "export start S: () = [\n\"EOF\" \"x\" => ([1])\n]\n";
    for (id, src, text, want) in [("same-text-literal-and-regex", same, "aa y", "[{ kind: \"S\", value: [2] }]"), ("literal-EOF", eof, "EOF x", "[{ kind: \"S\", value: [1] }]")] {
        match mode {
            "c02" | "c03" | "c05" => {
                let Some((l, p)) = modules(src) else { continue };
                emit(
                    c,
                    format!(
                        "{{\"job\":\"probe\",\"case\":{},\"mode\":{},\"id\":{},\"lex\":{},\"parse\":{},\"text\":{},\"want\":{},\"eof\":{}}}",
                        c.idx,
                        jstr(mode),
                        jstr(id),
                        jstr(&l),
                        jstr(&p),
                        jstr(text),
                        jstr(want),
                        id == "literal-EOF"
                    ),
                );
            }
            _ => {}
        }
    }
    Ok(())
}

fn case(c: &mut Case) -> Verdict {
    let mode = c.args.extra.get("--mode").cloned().unwrap_or_default();
    if c.idx == 0 {
        probes(c, &mode)?;
    }
    if c.idx == c.args.shard || c.args.only.is_some() {
        let mut a = String::new();
        let n = if mode == "c03" { 64 } else { 5000 };
        typelalr::codegen::lex_gen::gen_arithmetic(&mut a, n);
        std::fs::write(format!("{}.arith", c.args.out), a).expect("arith");
    }
    match mode.as_str() {
        "c01" => lex_job(c, "lexread"),
        "c02" => parse_job(c),
        "c03" => check_job(c),
        "c04" => lex_job(c, "lextype"),
        "c05" => value_job(c, false),
        "c08" => value_job(c, true),
        "c09" => refusal_job(c),
        "c06" => {
            let n = match c.idx {
                0..=20 => c.idx as u32,
                21 => 5000,
                22 => 256,
                23 => 1000,
                24 => c.rng.range(9_000, 12_000) as u32,
                25 if c.thorough => c.rng.range(32_000, 70_000) as u32,
                _ => {
                    let top = if c.rng.chance(1, 6) { 8000 } else { 700 };
                    c.rng.below(top) as u32
                }
            };
            c.input(&format!("arithmetic tables of size {}", n));
            let mut a = String::new();
            typelalr::codegen::lex_gen::gen_arithmetic(&mut a, n);
            emit(c, format!("{{\"job\":\"arith\",\"case\":{},\"n\":{},\"what\":\"size {}\",\"text\":{}}}", c.idx, n, n, jstr(&a)));
            if c.idx == 0 {
                for (k, name) in [("--chars", "the shipped ts/chars.ts"), ("--chars-new", "the character tables generated from the current source")] {
                    let Some(f) = c.args.extra.get(k) else { continue };
                    let text = std::fs::read_to_string(f).map_err(|e| format!("{} cannot be read: {}", name, e))?;
                    emit(c, format!("{{\"job\":\"chars\",\"case\":0,\"what\":{},\"text\":{}}}", jstr(name), jstr(&text)));
                }
            }
            Ok(())
        }
        "c07" => {
            emit(c, format!("{{\"job\":\"library\",\"case\":{},\"seed\":{},\"n\":5000}}", c.idx, c.args.seed));
            Ok(())
        }
        m => panic!("mode {}", m),
    }
}

fn main() {
    run(0, 0, case)
}
