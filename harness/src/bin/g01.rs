//! G01: the generated modules are a function of the grammar text alone.
//! The same text is generated again in this process, after other generations, on several threads at
//! once, in fresh processes with another history, and in other layouts; all bytes have to agree.
use bumpalo::Bump;
use harness::{gen, glue, model::*, tsmap, util::*};
use std::sync::{Arc, Barrier};
use typelalr::codegen::{lex_gen, parse_gen};
use typelalr::lalr::Lalr;
use typelalr::lex::lex::Lex;
use typelalr::parser::Grammar;

/// None: refused
fn generate(src: &str) -> Option<(String, String)> {
    guard(|| {
        let bump = Bump::new();
        let ast = glue::read(&bump, src).ok()?;
        let lalr = Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast));
        let both = parse_gen::generate(&bump, &ast, &lalr).ok()?;
        Some(both)
    })
    .ok()
    .flatten()
}

fn grammar(rng: &mut Rng) -> Gram {
    let mut g = loop {
        let (_, g) = gen::grammar(rng, gen::GOpts { hard_lits: true, max_terms: 10, max_nt: 7, ..Default::default() });
        if gen::tractable(&g) {
            break g;
        }
    };
    if rng.chance(1, 2) {
        tsmap::annotate(rng, &mut g);
    }
    g
}

fn differ(what: &str, a: &Option<(String, String)>, b: &Option<(String, String)>) -> Verdict {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(_), None) => Err(format!("generated at first, refused {}", what)),
        (None, Some(_)) => Err(format!("refused at first, generated {}", what)),
        (Some(x), Some(y)) => {
            for (n, p, q) in [("lexer", &x.0, &y.0), ("parser", &x.1, &y.1)] {
                if p != q {
                    let k = p.bytes().zip(q.bytes()).take_while(|(a, b)| a == b).count();
                    let cut = |s: &str| s.chars().skip(s.char_indices().take_while(|(i, _)| *i < k).count().saturating_sub(60)).take(160).collect::<String>();
                    return Err(format!("the {} module differs {}, from byte {}:\n{:?}\n{:?}", n, what, k, cut(p), cut(q)));
                }
            }
            Ok(())
        }
    }
}

fn sig(m: &Option<(String, String)>) -> String {
    match m {
        None => "refused".into(),
        Some((l, p)) => format!("{:016x} {:016x} {} {}", hash64(l), hash64(p), l.len(), p.len()),
    }
}

fn case(c: &mut Case) -> Verdict {
    let g = grammar(&mut c.rng);
    let src = g.print();
    let others: Vec<String> = (0..2).map(|_| grammar(&mut c.rng).print()).collect();
    c.input(&src);
    if let Some(child) = c.args.extra.get("--child") {
        // another process with another history
        let n: usize = child.parse().unwrap_or(0);
        for o in others.iter().take(n) {
            generate(o);
        }
        std::fs::write(format!("{}.sig", c.args.out), sig(&generate(&src))).expect("sig");
        return Ok(());
    }
    let first = generate(&src);
    c.count(if first.is_some() { "generated" } else { "refused" }, 1);
    let mut compared = 0;
    differ("the second time in the same process", &first, &generate(&src))?;
    // the lexer module generated on its own is the same module
    if let Some((l, _)) = &first {
        let alone = guard(|| {
            let bump = Bump::new();
            let ast = glue::read(&bump, &src).unwrap();
            lex_gen::generate(&Lex::from_grammar(&Grammar::grammar_from_ast_productions(&bump, &ast)))
        })
        .map_err(|e| format!("generating the lexer module alone failed: {}", e.msg))?;
        differ("generated on its own", &Some((l.clone(), String::new())), &Some((alone, String::new())))?;
        compared += 1;
    }
    let serial: Vec<_> = others.iter().map(|o| generate(o)).collect();
    differ("after other grammars were generated", &first, &generate(&src))?;
    compared += 2;
    for k in 0..3 {
        let l = g.print_with(&mut c.rng, Layout { wild: k > 0 });
        c.input(format!("{}\n--- other layout ---\n{}", src, l));
        differ("in another layout", &first, &generate(&l))?;
        c.count("layouts_compared", 1);
        compared += 1;
    }
    // three threads, each generating all texts in another order, all starting together
    let all: Arc<Vec<(String, Option<(String, String)>)>> =
        Arc::new(std::iter::once((src.clone(), first.clone())).chain(others.iter().cloned().zip(serial)).collect());
    let bar = Arc::new(Barrier::new(3));
    let hs: Vec<_> = (0..3usize)
        .map(|t| {
            let (all, bar) = (all.clone(), bar.clone());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    bar.wait();
                    let mut r = vec![];
                    for k in 0..all.len() {
                        let i = (k + t) % all.len();
                        r.push((i, generate(&all[i].0)));
                    }
                    r
                })
                .unwrap()
        })
        .collect();
    let mut seen = vec![];
    for h in hs {
        seen.extend(h.join().map_err(|_| "a generating thread died".to_string())?);
    }
    for (i, m) in seen {
        c.input(&all[i].0);
        differ("on a thread while other grammars were being generated", &all[i].1, &m)?;
        c.count("thread_generations_compared", 1);
        compared += 1;
    }
    c.input(&src);
    let exe = std::env::current_exe().expect("exe");
    for child in ["0", "2"] {
        let out = format!("{}.child", c.args.out);
        let st = std::process::Command::new(&exe)
            .args(["--seed", &c.args.seed.to_string(), "--only", &c.idx.to_string(), "--child", child, "--out", &out])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("child process");
        let got = std::fs::read_to_string(format!("{}.sig", out)).unwrap_or_default();
        let _ = std::fs::remove_file(format!("{}.sig", out));
        if !st.success() || got.is_empty() {
            if first.is_some() {
                return Err(format!("generating in a fresh process ended with {:?}", st.code()));
            }
            c.count("child_failed_on_a_refused_grammar", 1);
            continue;
        }
        if got != sig(&first) {
            return Err(format!("modules generated in a fresh process (after {} other grammars) differ: {} there, {} here", child, got, sig(&first)));
        }
        c.count("process_generations_compared", 1);
        compared += 1;
    }
    c.count("comparisons", compared);
    if let Some((l, p)) = &first {
        c.count("bytes", (l.len() + p.len()) as u64);
    }
    c.eval(first.is_some(), &src);
    c.sample(|| src.clone());
    Ok(())
}

fn main() {
    run(320, 8000, case)
}
