//! G04: lexers and recognisers have no memory. Outcomes in long mixed histories, on threads at the same
//! time and in a fresh process against the outcome of the same operation on a lexer and recogniser
//! made for it alone.
use bumpalo::Bump;
use harness::{gen, glue, inputs, model::*, parsing, rx, util::*};
use regex_syntax::hir::Hir;
use std::sync::{Arc, Barrier};
use typelalr::lalr::Lalr;
use typelalr::lex::lex::Lex;
use typelalr::parser::Grammar;

/// What is observed of one text.
#[derive(Clone, PartialEq, Debug, Hash)]
struct Seen {
    tokens: Result<(String, usize), String>,
    numbered: Result<String, String>,
    parsed: Result<String, String>,
}

fn tokens(lex: &Lex, t: &str) -> Result<(String, usize), String> {
    guard(|| lex.lex_prefix(t)).map(|(v, n)| (format!("{:?}", v), n)).map_err(|e| e.msg)
}

fn numbered(lex: &Lex, t: &str) -> Result<String, String> {
    guard(|| format!("{:?}", lex.convert_tokens(lex.lex(t)))).map_err(|e| e.msg)
}

fn parsed(l: &Lalr, t: &str) -> Result<String, String> {
    guard(|| l.parse(t)).map_err(|e| e.msg)
}

fn alone(src: &str, t: &str) -> Option<Seen> {
    let bump = Bump::new();
    let ast = glue::read(&bump, src).ok()?;
    let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
    let lex = Lex::from_grammar(&gr);
    let (a, b) = (tokens(&lex, t), numbered(&lex, t));
    let l = guard(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast))).ok()?;
    Some(Seen { tokens: a, numbered: b, parsed: parsed(&l, t) })
}

type Read = Result<Gram, ()>;

/// Sources, well-formed ones and damaged ones, with what a new reader reads.
fn sources(c: &mut Case, subjects: &[(String, Vec<(String, Seen)>)]) -> Vec<(String, Read)> {
    let mut v = vec![];
    for _ in 0..6 {
        let mut s = c.rng.pick(subjects).0.clone();
        if c.rng.chance(2, 3) {
            let mut cs: Vec<char> = s.chars().collect();
            for _ in 0..c.rng.range(1, 2) {
                let k = c.rng.below(cs.len() + 1);
                match c.rng.below(4) {
                    0 => cs.truncate(k),
                    1 => cs.insert(k, *c.rng.pick(&[' ', '"', '(', ')', '[', ',', 'a', 'é', '\\', '<'])),
                    2 if k < cs.len() => {
                        cs.remove(k);
                    }
                    _ if k < cs.len() => cs[k] = *c.rng.pick(&['A', 'b', '"', '=', ' ']),
                    _ => {}
                }
            }
            s = cs.into_iter().collect();
        }
        let bump = Bump::new();
        let r = guard(|| glue::read(&bump, &s).map(|a| glue::ast_to_gram(&a)).map_err(|_| ()));
        v.push((s, r.unwrap_or(Err(()))));
    }
    v
}

/// A lexer compiled from token definitions and a recogniser, used over and over.
fn history(subjects: &[(String, Vec<(String, Seen)>)], sources: &[(String, Read)], order: &[(usize, usize, usize)]) -> Result<u64, (String, String)> {
    let bump = Bump::new();
    let reader = typelalr::parser::grammar::ProgramParser::new();
    let mut support = typelalr::parser::ParserSupport::new(&bump);
    let mut made: Vec<Option<(Lex, Lalr)>> = (0..subjects.len()).map(|_| None).collect();
    for (n, (g, t, op)) in order.iter().enumerate() {
        if *op == 3 {
            // one reader, and one arena, for all sources
            let (s, want) = &sources[*t % sources.len()];
            let own = s.clone();
            let r: Read = guard(|| reader.parse(&mut support, &own).map(|a| glue::ast_to_gram(&a)).map_err(|_| ())).unwrap_or(Err(()));
            if r != *want {
                return Err((s.clone(), format!("after {} other operations the source is read as {:?}, alone as {:?}", n, r, want)));
            }
            continue;
        }
        let (src, texts) = &subjects[*g];
        if made[*g].is_none() || *op == 9 {
            let ast: &[_] = match glue::read(&bump, src) {
                Ok(v) => bump.alloc(v),
                Err(e) => return Err((src.clone(), format!("step {}: read at first, not again: {}", n, e))),
            };
            let m = guard(|| {
                let gr = Grammar::grammar_from_ast_productions(&bump, ast);
                (Lex::from_grammar(&gr), Lalr::new(gr))
            })
            .map_err(|e| (src.clone(), format!("step {}: could be built at first, not again: {}", n, e.msg)))?;
            // a lexer that was copied is the same lexer
            made[*g] = Some((m.0.clone(), m.1));
        }
        let (lex, lalr) = made[*g].as_ref().unwrap();
        let (text, want) = &texts[*t];
        let differs = match op % 3 {
            0 => {
                let x = tokens(lex, text);
                (x != want.tokens).then(|| format!("tokens {:?}, alone {:?}", x, want.tokens))
            }
            1 => {
                let x = numbered(lex, text);
                (x != want.numbered).then(|| format!("numbered tokens {:?}, alone {:?}", x, want.numbered))
            }
            _ => {
                let x = parsed(lalr, text);
                (x != want.parsed).then(|| format!("outcome {:?}, alone {:?}", x, want.parsed))
            }
        };
        if let Some(d) = differs {
            return Err((format!("{}\ntext {:?}", src, text), format!("after {} other operations text {:?} gives another outcome: {}", n, text, d)));
        }
    }
    Ok(order.len() as u64)
}

fn subject(c: &mut Case) -> Option<(String, Vec<(String, Seen)>)> {
    let (_, g) = gen::grammar(&mut c.rng, gen::GOpts { max_nt: 5, hard_lits: true, ..Default::default() });
    let or = parsing::oracle(&g, 40)?;
    let src = g.print();
    let hirs: Vec<Hir> = glue::kinds(&g).iter().filter_map(glue::hir_of).collect();
    let mut texts: Vec<String> = vec![String::new(), " ".into()];
    for k in 0..6 {
        let budget = c.rng.range(1, 12);
        if let Some(mut w) = or.cfg.sentence(&mut c.rng, budget) {
            w.truncate(60);
            if k % 2 == 1 {
                or.mutate(&mut c.rng, &mut w);
                w.truncate(60);
            }
            texts.push(or.render(&mut c.rng, &w, false));
        }
    }
    for _ in 0..2 {
        texts.push(inputs::text(&mut c.rng, &hirs, 5, false, false));
    }
    // texts that share a beginning, a length, or an end
    let base = texts[c.rng.below(texts.len())].clone();
    texts.push(format!("{} ", base));
    texts.push(base.chars().rev().collect());
    if let Some(x) = hirs.first().and_then(|h| rx::sample_str(h, &mut c.rng, false)) {
        texts.push(format!("{}{}", base, x));
    }
    c.input(&src);
    let seen: Option<Vec<_>> = texts.into_iter().map(|t| alone(&src, &t).map(|s| (t, s))).collect();
    Some((src, seen?))
}

fn case(c: &mut Case) -> Verdict {
    let mut subjects = vec![];
    for _ in 0..8 {
        if subjects.len() < 3 {
            subjects.extend(subject(c));
        }
    }
    if subjects.is_empty() {
        c.count("skipped", 1);
        return Ok(());
    }
    let sig = |s: &Vec<(String, Vec<(String, Seen)>)>| format!("{:016x}", hash64(s));
    if c.args.extra.contains_key("--child") {
        std::fs::write(format!("{}.sig", c.args.out), sig(&subjects)).expect("sig");
        return Ok(());
    }
    c.input(subjects.iter().map(|s| s.0.clone()).collect::<Vec<_>>().join("\n---\n"));
    let sources = Arc::new(sources(c, &subjects));
    c.count("sources_refused", sources.iter().filter(|s| s.1.is_err()).count() as u64);
    c.count("sources_read", sources.iter().filter(|s| s.1.is_ok()).count() as u64);
    let mut orders = vec![];
    for _ in 0..4 {
        let n = c.rng.range(20, 160);
        let mut o = vec![];
        while o.len() < n {
            let g = c.rng.below(subjects.len());
            let t = c.rng.below(subjects[g].1.len());
            let op = if c.rng.chance(1, 25) { 9 } else if c.rng.chance(1, 10) { 3 } else { c.rng.below(3) };
            // the same one several times in a row, now and then
            for _ in 0..if c.rng.chance(1, 6) { 3 } else { 1 } {
                o.push((g, t, op));
            }
        }
        orders.push(o);
    }
    let fail = |c: &mut Case, w: &str, e: (String, String)| -> Verdict {
        c.input(e.0);
        Err(format!("{}: {}", w, e.1))
    };
    match history(&subjects, &sources, &orders[0]) {
        Ok(n) => c.count("operations_in_histories", n),
        Err(e) => return fail(c, "in one history", e),
    }
    let all = Arc::new(subjects);
    let bar = Arc::new(Barrier::new(3));
    let hs: Vec<_> = orders[1..]
        .iter()
        .cloned()
        .map(|o| {
            let (all, sources, bar) = (all.clone(), sources.clone(), bar.clone());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    bar.wait();
                    history(&all, &sources, &o)
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok(Ok(n)) => c.count("operations_on_threads", n),
            Ok(Err(e)) => return fail(c, "while other threads were at work", e),
            Err(_) => return Err("a thread died".into()),
        }
    }
    if c.idx % 8 < 2 {
        let out = format!("{}.child", c.args.out);
        let st = std::process::Command::new(std::env::current_exe().expect("exe"))
            .args(["--seed", &c.args.seed.to_string(), "--only", &c.idx.to_string(), "--child", "1", "--out", &out])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("child process");
        let got = std::fs::read_to_string(format!("{}.sig", out)).unwrap_or_default();
        let _ = std::fs::remove_file(format!("{}.sig", out));
        if !st.success() || got != sig(&all) {
            return Err(format!("a fresh process sees other outcomes of the same texts (or died: {:?})", st.code()));
        }
        c.count("processes_compared", 1);
    }
    let (mut acc, mut rej) = (0, 0);
    for (src, ts) in all.iter() {
        for (t, s) in ts {
            c.eval(!t.trim().is_empty(), &(src, t));
            if s.parsed.is_ok() {
                acc += 1
            } else {
                rej += 1
            }
        }
    }
    c.count("texts_accepted", acc);
    c.count("texts_refused", rej);
    c.count("grammars", all.len() as u64);
    c.sample(|| format!("{}\ntexts {:?}", all[0].0, all[0].1.iter().map(|x| &x.0).collect::<Vec<_>>()));
    Ok(())
}

fn main() {
    run(800, 20000, case)
}
