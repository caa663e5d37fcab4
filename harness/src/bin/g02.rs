//! G02: the whole pipeline, run under Miri and under AddressSanitizer. The oracle is the sanitizer;
//! this is only the workload, and it drives every operation, refused ones included.
use bumpalo::Bump;
use harness::{gen, glue, inputs, model::*, rx, util::*};
use typelalr::codegen::{lex_gen, parse_gen};
use typelalr::lalr::item::ItemSet;
use typelalr::lalr::Lalr;
use typelalr::lex::dfa::DFA;
use typelalr::lex::lex::{Lex, TokenDef};
use typelalr::lex::nfa::NFA;
use typelalr::parser::Grammar;

thread_local! {
    static PARSER: typelalr::parser::grammar::ProgramParser = typelalr::parser::grammar::ProgramParser::new();
}

fn small() -> gen::GOpts {
    if cfg!(miri) {
        return gen::GOpts { max_nt: 2, max_alts: 2, max_rhs: 2, max_terms: 3, regexes: true, hard_lits: false, scale: 0, huge: 0 };
    }
    gen::GOpts { max_nt: 3, max_alts: 2, max_rhs: 3, max_terms: 4, regexes: true, hard_lits: true, scale: 0, huge: 0 }
}

/// states that merge, in several groups; the groups interleave
const MERGING: &str = "export start S: () = [\n\"a\" A \"p\" => (1)\n, \"b\" A \"q\" => (1)\n]\nexport A: () = [\n\"(\" A => (1)\n, \"x\" => (1)\n]\n";
const CONFLICT_AFTER_MERGE: &str = "export start S: () = [\n\"a\" A \"d\" => (1)\n, \"b\" B \"d\" => (1)\n, \"a\" B \"e\" => (1)\n, \"b\" A \"e\" => (1)\n]\nexport A: () = [\n\"c\" => (1)\n]\nexport B: () = [\n\"c\" => (1)\n]\n";

fn grammar_work(c: &mut Case, src: &str, heavy: bool) {
    c.input(src);
    let bump = Bump::new();
    // compiling the reader's own regexes takes minutes in the interpreter: there, only some
    // processes read sources, and the others start from the syntax tree
    let ast = if c.args.extra.contains_key("--no-reader") {
        let Some(g) = model(src) else { return };
        glue::gram_to_ast(&bump, &g)
    } else {
        let Ok(Ok(ast)) = guard(|| {
            PARSER.with(|p| {
                // the source is gone before what was read from it is used
                let own = src.to_string();
                let mut support = typelalr::parser::ParserSupport::new(&bump);
                let r = p.parse(&mut support, &own).map_err(|_| ());
                drop(own);
                r
            })
        }) else {
            c.count("sources_refused", 1);
            return;
        };
        c.count("sources_read", 1);
        ast
    };
    let gr = match guard(|| Grammar::grammar_from_ast_productions(&bump, &ast)) {
        Ok(g) => g,
        Err(_) => {
            c.count("models_refused", 1);
            return;
        }
    };
    // a merge of the canonical states on its own
    if let Ok(set) = guard(|| ItemSet::items(&gr)) {
        c.count("canonical_states", set.len() as u64);
        match guard(|| typelalr::lalr::table::merge_cores(&set)) {
            Ok((m, _)) => c.count("merged_states", m.len() as u64),
            Err(_) => c.count("merges_refused", 1),
        }
    }
    let lalr = match guard(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast))) {
        Ok(l) => l,
        Err(_) => {
            c.count("generators_refused", 1);
            return;
        }
    };
    c.count("generators_built", 1);
    if heavy {
        let m = guard(|| parse_gen::generate(&bump, &ast, &lalr));
        c.count("modules_generated", m.is_ok() as u64);
    }
    let cfg = model(src);
    // parsing prints its whole state at every step, which the interpreter takes long over
    let texts = if !cfg!(miri) { 3 } else { (lalr_is_tiny(&gr) && c.idx % 3 == 0) as usize };
    for k in 0..texts {
        let t = match &cfg {
            Some(g) if k < 2 => {
                let kinds: Vec<_> = glue::kinds(g).iter().filter_map(glue::hir_of).collect();
                let n = c.rng.range(0, 4);
                inputs::text(&mut c.rng, &kinds, n, false, k == 0).chars().take(24).collect::<String>()
            }
            _ => "a x".into(),
        };
        let r = guard(|| lalr.parse(&t));
        c.count(if r.is_ok() { "texts_accepted" } else { "texts_refused" }, 1);
    }
    // lexing and numbering
    let lex = Lex::from_grammar(&gr);
    let toks = guard(|| lex.lex_prefix("a b(x"));
    if let Ok((t, _)) = toks {
        c.count("tokens", t.len() as u64);
        let _ = guard(|| lex.convert_tokens(t));
    }
}

fn lalr_is_tiny(gr: &Grammar) -> bool {
    gr.iter_productions().count() <= 4
}

fn model(src: &str) -> Option<Gram> {
    harness::dsl::read(src).ok()
}

fn regex_work(c: &mut Case) {
    let re = if c.rng.chance(1, 3) { c.rng.pick(&["a*b|c", "(a|b)*abb", "a?|b+", "(ab?)+c", "[a-f]+x", "x|", "é[à-ü]"]).to_string() } else { rx::gen(&mut c.rng, 2, rx::RxOpts { plain: true, unicode: false, empties: true }) };
    let Some(h) = rx::parse(&re) else { return };
    c.input(&re);
    c.count("regexes", 1);
    let r = guard(|| {
        let nfa = NFA::from_regex(&h);
        let dfa = DFA::from_nfa(NFA::from_regex(&h));
        let mut n = 0u64;
        for t in ["", "a", "ab", "aabb", "x", "éà", "zzzz"] {
            n += nfa.simulate(t) as u64 + dfa.test(t) as u64 + dfa.simulate(t).map_or(0, |_| 1);
        }
        n
    });
    c.count("regexes_compiled", r.is_ok() as u64);
    let defs = vec![
        (TokenDef { name: "k".into(), with_val: true, token_idx: Some(1) }, h),
        (TokenDef { name: "z".into(), with_val: false, token_idx: Some(2) }, rx::parse("[b-d]+").unwrap()),
    ];
    let Ok(lex) = guard(|| Lex::from_tokens(defs)) else { return };
    for t in ["", "ab cd", "bcdx~", "\n a"] {
        if let Ok((v, _)) = guard(|| lex.lex_prefix(t)) {
            c.count("tokens", v.len() as u64);
            let _ = guard(|| lex.convert_tokens(v));
        }
    }
    if c.idx % 16 == 5 && !cfg!(miri) {
        let _ = guard(|| lex_gen::generate(&lex));
    }
}

/// The pipeline, without the reader when asked.
fn pipeline(src: &str, g: &Gram, texts: &[String], reader: bool, all: bool) -> Result<(), Refused> {
    guard(|| {
        let bump = Bump::new();
        let ast = if reader { glue::read(&bump, src).unwrap() } else { glue::gram_to_ast(&bump, g) };
        let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
        let lex = Lex::from_grammar(&gr);
        for t in texts {
            lex.convert_tokens(lex.lex_prefix(t).0);
        }
        let lalr = Lalr::new(gr);
        if all {
            for t in texts {
                let _ = guard(|| lalr.parse(t));
            }
            let _ = parse_gen::generate(&bump, &ast, &lalr);
        }
    })
}

/// Threads that each work on grammars of their own, all at the same time; some of them on the same text.
fn threads(c: &mut Case) {
    let n = if cfg!(miri) { 2 } else { 4 };
    let reader = !cfg!(miri);
    let work: Vec<(String, Gram, Vec<String>)> = (0..2)
        .map(|k| {
            let g = if k == 0 && c.rng.chance(1, 2) { model(MERGING).unwrap() } else { gen::random(&mut c.rng, small()) };
            let kinds: Vec<_> = glue::kinds(&g).iter().filter_map(glue::hir_of).collect();
            let texts = (0..if cfg!(miri) { 1 } else { 4 }).map(|_| inputs::text(&mut c.rng, &kinds, 4, false, false)).collect();
            (g.print(), g, texts)
        })
        .collect();
    c.input(work.iter().map(|w| w.0.clone()).collect::<Vec<_>>().join("\n---\n"));
    let work = std::sync::Arc::new(work);
    let bar = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let (work, bar) = (work.clone(), bar.clone());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    bar.wait();
                    let mut done = 0;
                    for k in 0..work.len() {
                        let w = &work[(k + t) % work.len()];
                        done += pipeline(&w.0, &w.1, &w.2, reader, !cfg!(miri)).is_ok() as u64;
                    }
                    done
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let done = h.join().unwrap_or(0);
        c.count("pipelines_on_threads", done);
    }
}

fn case(c: &mut Case) -> Verdict {
    if c.args.extra.contains_key("--threads") {
        threads(c);
        let sig = c.args.seed.wrapping_mul(1_000_003) + c.idx;
        c.eval(true, &sig);
        return Ok(());
    }
    let t0 = std::time::Instant::now();
    let heavy = !cfg!(miri) && c.idx % 4 == 0;
    // every process of a sharded run meets every kind of case
    match (c.idx / c.args.nshards.max(1) + c.idx) % 8 {
        _ if c.idx < 2 => {
            let s = if c.idx == 0 { MERGING } else { CONFLICT_AFTER_MERGE };
            grammar_work(c, s, heavy)
        }
        1 | 2 => regex_work(c),
        3 => {
            // damaged sources and grammars refused half-way
            let mut g = gen::random(&mut c.rng, small());
            match c.rng.below(4) {
                0 => g.prods[0].bodies.push(Body { syms: vec![(None, Sym::Nt("Undefined".into()))], map: "1".into() }),
                1 => g.prods[0].bodies.push(Body { syms: vec![(None, Sym::Re("a{2}".into()))], map: "1".into() }),
                2 => g.prods.iter_mut().for_each(|p| p.start = false),
                _ => {}
            }
            let mut s = g.print();
            if c.rng.chance(1, 2) {
                let k = c.rng.below(s.chars().count() + 1);
                s = s.chars().take(k).collect();
            }
            grammar_work(c, &s, heavy)
        }
        4 => {
            let (_, t) = gen::template(&mut c.rng);
            let t = if !cfg!(miri) {
                gen::disguise(&mut c.rng, &t, small())
            } else if t.prods.iter().map(|p| p.bodies.len()).sum::<usize>() <= 4 {
                t
            } else {
                gen::random(&mut c.rng, gen::GOpts { max_nt: 3, ..small() })
            };
            grammar_work(c, &t.print(), heavy)
        }
        5 if !cfg!(miri) => {
            let (_, t) = gen::grammar(&mut c.rng, gen::GOpts { hard_lits: true, ..Default::default() });
            if !gen::tractable(&t) {
                return Ok(());
            }
            grammar_work(c, &t.print(), heavy)
        }
        _ => {
            let g = gen::random(&mut c.rng, small());
            grammar_work(c, &g.print(), heavy)
        }
    }
    if c.args.extra.contains_key("--times") {
        eprintln!("case {} kind {} {:?}: {:?}", c.idx, (c.idx / c.args.nshards.max(1) + c.idx) % 8, t0.elapsed(), c.stats.counters);
    }
    let sig = c.args.seed.wrapping_mul(1_000_003) + c.idx;
    c.eval(true, &sig);
    Ok(())
}

fn main() {
    run(0, 0, case)
}
