//! G03: every operation finishes, within its stack, and fails only by a clean refusal.
//! Crashes and hangs are seen from outside: the case runs in a supervised process.
use bumpalo::Bump;
use harness::{gen, glue, inputs, model::*, parsing, rx, util::*};
use typelalr::codegen::{lex_gen, parse_gen};
use typelalr::lalr::Lalr;
use typelalr::lex::lex::{Lex, TokenDef};
use typelalr::parser::Grammar;

fn clean(what: &str, e: &Refused) -> Verdict {
    if glue::internal(&e.msg) {
        return Err(format!("{} failed with an internal error at {}: {}", what, e.loc, e.msg));
    }
    Ok(())
}

/// Build, generate and parse. `lalr1`: whether the grammar is known to be (un)acceptable.
fn pipeline(c: &mut Case, src: &str, good: Option<bool>, texts: &[(String, Option<bool>)]) -> Verdict {
    let bump = Bump::new();
    let ast = match guard(|| glue::read(&bump, src)) {
        Err(e) => return Err(format!("reading panicked at {}: {}", e.loc, e.msg)),
        Ok(Err(e)) => return Err(format!("a well-formed source was refused: {}", e)),
        Ok(Ok(a)) => a,
    };
    let lalr = match guard(|| Lalr::new(Grammar::grammar_from_ast_productions(&bump, &ast))) {
        Ok(l) => l,
        Err(e) => {
            c.count("grammars_refused", 1);
            if good == Some(false) {
                c.count("conflicts_refused", 1);
            }
            if good == Some(true) {
                return Err(format!("building failed on an LALR(1) grammar: {} at {}", e.msg, e.loc));
            }
            // refusals of grammars that cannot be processed take many forms, a conflict takes one
            return if good == Some(false) { clean("building", &e) } else { Ok(()) };
        }
    };
    c.count("grammars_built", 1);
    let out = guard(|| parse_gen::generate(&bump, &ast, &lalr)).map_err(|e| format!("generating failed: {} at {}", e.msg, e.loc))?;
    c.count("bytes_generated", out.map(|o| (o.0.len() + o.1.len()) as u64).map_err(|e| format!("generating failed: {}", e))?);
    for (t, want) in texts {
        c.input(format!("{}\ninput ({} characters) {:?}", src, t.chars().count(), t.chars().take(400).collect::<String>()));
        let r = guard(|| lalr.parse(t));
        c.count("texts_parsed", 1);
        c.peak("max_characters_parsed", t.chars().count() as u64);
        c.count("characters_parsed", t.chars().count() as u64);
        match (r, want) {
            (Ok(_), _) => {}
            (Err(e), Some(true)) => return Err(format!("parsing failed on an input of the language: {} at {}", e.msg, e.loc)),
            (Err(e), _) => {
                c.count("texts_refused", 1);
                clean("parsing", &e)?
            }
        }
    }
    Ok(())
}

/// ordinary and mutated grammars, all inputs classified
fn mixed(c: &mut Case) -> Verdict {
    let (_, g) = gen::grammar(&mut c.rng, gen::GOpts { max_nt: 8, max_terms: 10, hard_lits: true, ..Default::default() });
    let mut g = g;
    if c.rng.chance(1, 5) {
        // defects of every kind
        for _ in 0..c.rng.range(1, 3) {
            let p = c.rng.below(g.prods.len());
            match c.rng.below(5) {
                0 => g.prods[p].start = !g.prods[p].start,
                1 => g.prods[p].bodies.clear(),
                2 => {
                    let x = g.prods[p].clone();
                    g.prods.push(x);
                }
                3 => {
                    let n = g.prods[p].name.clone();
                    g.prods[p].bodies.push(Body { syms: vec![(None, Sym::Nt(n))], map: "1".into() });
                }
                _ => g.prods[p].bodies.push(Body { syms: vec![(Some("v".into()), Sym::Re("(^a|b".into()))], map: "1".into() }),
            }
        }
    }
    let src = g.print();
    c.input(&src);
    if !gen::tractable(&g) {
        c.count("skipped_too_large", 1);
        return Ok(());
    }
    c.count("kind_mixed", 1);
    c.eval(true, &src);
    let o = parsing::oracle(&g, 500);
    // nothing wrong with it except that it is not LALR(1)?
    let conflict_only = o.is_none()
        && Cfg::of(&g).map_or(false, |f| {
            f.all_defined() && !f.undefined_reachable() && glue::distinct_texts(&g) && glue::regexes_ok(&g) && harness::lr::canonical(&f, 500).map_or(false, |l| harness::lr::lalr(&f, &l).conflicts > 0)
        });
    c.count("grammars_known_not_lalr1", conflict_only as u64);
    let mut texts = vec![(String::new(), None), ("  \n".to_string(), None), ("\u{0}\u{10FFFF}é".to_string(), None)];
    if let Some(o) = &o {
        for _ in 0..4 {
            let b = c.rng.range(1, 20);
            if let Some(mut w) = o.cfg.sentence(&mut c.rng, b) {
                if c.rng.chance(1, 2) {
                    o.mutate(&mut c.rng, &mut w);
                }
                w.truncate(80);
                let t = o.render(&mut c.rng, &w, false);
                let a = o.accepts(&t);
                texts.push((t, Some(a)));
            }
        }
        c.count("grammars_known_lalr1", 1);
    }
    let good = if conflict_only { Some(false) } else { o.map(|_| true) };
    pipeline(c, &src, good, &texts)
}

/// known-good grammars, long and deep inputs
fn long_input(c: &mut Case) -> Verdict {
    let n = match c.rng.below(4) {
        0 => c.rng.range(1, 200),
        _ => c.rng.range(200, if c.thorough { 6000 } else { 1500 }),
    };
    let list_l = "export start L: () = [\nL \"a\" => (1)\n, \"a\" => (1)\n]\n";
    let list_r = "export start L: () = [\n\"a\" L => (1)\n, \"a\" => (1)\n]\n";
    let nest = "export start S: () = [\n\"(\" S \")\" => (1)\n, \"x\" => (1)\n]\n";
    let lisp = "export start S: () = [\n\"(\" E \")\" => (1)\n]\nexport E: () = [\nE X => (1)\n, X => (1)\n]\nexport X: () = [\nS => (1)\n, r\"[a-z]+\" => (1)\n, r\"[0-9]+\" => (1)\n]\n";
    let expr = "export start E: () = [\nE \"+\" T => (1)\n, T => (1)\n]\nexport T: () = [\nT \"*\" F => (1)\n, F => (1)\n]\nexport F: () = [\n\"(\" E \")\" => (1)\n, r\"[a-z]+\" => (1)\n]\n";
    let back = "export start S: () = [\nS I => (1)\n, I => (1)\n]\nexport I: () = [\nr\"a*b\" => (1)\n, \"a\" => (1)\n, r\"[a-z]*!\" => (1)\n]\n";
    let word = "export start S: () = [\nS W => (1)\n, W => (1)\n]\nexport W: () = [\nr\"[a-z]+\" => (1)\n, r\"#[^#]*#\" => (1)\n]\n";
    let many = c.rng.range(3000, 20000);
    let k = c.rng.below(12);
    let (src, text, ok) = match k {
        8 => (list_l, "a".repeat(many), true),
        9 => (list_l, format!("a{}a", "\n ".repeat(many)), true),
        10 => (word, format!("{} #{}#", "q".repeat(many), "\né".repeat(many)), true),
        11 => (word, format!("{} #{}", "q ".repeat(many / 4), "#\n".repeat(many / 4)), false),
        0 => (list_l, "a".repeat(n), true),
        1 => (list_r, "a ".repeat(n), true),
        2 => (nest, format!("{}x{}", "(".repeat(n), ")".repeat(n)), true),
        3 => (nest, format!("{}x{}", "(".repeat(n), ")".repeat(n - 1)), false),
        4 => (lisp, format!("({}{})", "(add 1 (mul x 22)) ".repeat(n / 10 + 1), " ".repeat(n)), true),
        5 => (expr, format!("{}q{}", "(a+b*".repeat(n / 5 + 1), ")".repeat(n / 5 + 1)), true),
        6 => (back, "a".repeat(n.min(400)), true),
        _ => (lisp, format!("({}", "\n".repeat(n)), false),
    };
    c.count("kind_long_input", 1);
    c.eval(n > 10, &(k, n));
    c.input(format!("{} n={}", src, n));
    pipeline(c, src, Some(true), &[(text, Some(ok))])
}

/// large grammars that are LALR(1) by construction
fn large_grammar(c: &mut Case) -> Verdict {
    let n = c.rng.range(5, if c.thorough { 80 } else { 36 });
    let k = c.rng.below(8);
    let mut s = String::new();
    let mut texts = vec![];
    // half of them as a part that follows another one, so that FIRST has to look into it
    let wrap = c.rng.chance(1, 2);
    let p = |name: String, alts: Vec<String>, start: bool| -> String {
        let start = start && !wrap;
        format!("export {}{}: () = [\n{}\n]\n", if start { "start " } else { "" }, name, alts.iter().map(|a| format!("{} => (1)\n", a)).collect::<Vec<_>>().join(", "))
    };
    match k {
        0 => {
            // unit chain with a bracket at the bottom
            for i in 0..n {
                s += &p(format!("N{}", i), vec![format!("N{}", i + 1)], i == 0);
            }
            s += &p(format!("N{}", n), vec!["\"x\"".into(), "\"(\" N0 \")\"".into()], false);
            texts.push(("((x))".to_string(), Some(true)));
        }
        1 => {
            // precedence tower
            for i in 0..n {
                s += &p(format!("E{}", i), vec![format!("E{} \"o{}\" E{}", i, i, i + 1), format!("E{}", i + 1)], i == 0);
            }
            s += &p(format!("E{}", n), vec!["\"x\"".into(), "\"(\" E0 \")\"".into()], false);
            texts.push((format!("x o0 x o{} (x o1 x)", n - 1), Some(true)));
        }
        2 => {
            // many statements
            let mut alts = vec![];
            for i in 0..n {
                alts.push(format!("\"kw{}\" r\"[a-z]+{}\" S{}", i, i % 3, i % 5));
            }
            s += &p("P".into(), vec!["P St".into(), "St".into()], true);
            s += &p("St".into(), alts, false);
            for i in 0..5 {
                s += &p(format!("S{}", i), vec![format!("\";{}\"", i), format!("\"{{{}\" P \"}}\"", i)], false);
            }
            texts.push(("kw0 abc0 ;0 kw1 z1 {1 kw0 a0 ;0 }".to_string(), Some(true)));
        }
        3 => {
            // many different left contexts of one nonterminal
            let alts = (0..n).map(|i| format!("\"l{}\" A \"r{}\"", i, i)).collect();
            s += &p("S".into(), alts, true);
            s += &p("A".into(), vec!["A \"+\" B".into(), "B".into()], false);
            s += &p("B".into(), vec!["\"x\"".into(), "\"[\" A \"]\"".into()], false);
            texts.push(("l0 x + [ x ] r0".to_string(), Some(true)));
            texts.push(("l0 x + [ x ] r1".to_string(), Some(n < 2)));
        }
        5 => {
            // each production begins with the next one twice: 2^n paths down
            for i in 0..n {
                s += &p(format!("N{}", i), vec![format!("N{} \"a{}\"", i + 1, i), format!("N{} \"b{}\"", i + 1, i)], i == 0);
            }
            s += &p(format!("N{}", n), vec!["\"x\"".into(), "\"(\" N0 \")\"".into()], false);
            let mut w = "x".to_string();
            for i in (0..n).rev() {
                w += &format!(" {}{}", if c.rng.chance(1, 2) { "a" } else { "b" }, i);
            }
            texts.push((format!("{} ", w), Some(true)));
            texts.push((w + " a0", Some(false)));
        }
        6 => {
            // the same, ending with the next one
            for i in 0..n {
                s += &p(format!("N{}", i), vec![format!("\"a{}\" N{}", i, i + 1), format!("\"b{}\" N{}", i, i + 1)], i == 0);
            }
            s += &p(format!("N{}", n), vec!["\"x\"".into(), "\"(\" N0 \")\"".into()], false);
            let w: String = (0..n).map(|i| format!("{}{} ", if c.rng.chance(1, 2) { "a" } else { "b" }, i)).collect();
            texts.push((w.clone() + "x", Some(true)));
            texts.push((w, Some(false)));
        }
        7 => {
            // each production uses the next one in several places; the number of canonical states
            // grows quickly, so few levels
            let n = n.min(6);
            for i in 0..n {
                let nx = format!("N{}", i + 1);
                s += &p(format!("N{}", i), vec![format!("{} \"a{}\" {}", nx, i, nx), format!("{} \"b{}\"", nx, i), nx.clone()], i == 0);
            }
            s += &p(format!("N{}", n), vec!["\"x\"".into()], false);
            texts.push(("x".to_string(), Some(true)));
            texts.push(("x b0".to_string(), Some(true)));
        }
        _ => {
            // left recursion through a long cycle
            for i in 0..n {
                let next = (i + 1) % n;
                s += &p(format!("C{}", i), vec![format!("C{} \"t{}\"", next, i), format!("\"b{}\"", i)], i == 0);
            }
            texts.push(("b0".to_string(), Some(true)));
        }
    }
    if wrap {
        let top = ["N0", "E0", "P", "S", "C0", "N0", "N0", "N0"][k];
        s += &format!("export start W: () = [\nW \"sep\" H {} => (1)\n, H {} => (1)\n]\nexport H: () = [\n\"head\" => (1)\n]\n", top, top);
        for (t, good) in texts.iter_mut() {
            *t = if c.rng.chance(1, 2) || *good != Some(true) { format!("head {}", t) } else { format!("head {}  sep head {}", t, t) };
        }
    }
    c.count("kind_large_grammar", 1);
    c.eval(true, &(k, n, wrap));
    c.input(format!("large grammar, shape {}, n={}\n{}", k, n, s));
    pipeline(c, &s, Some(true), &texts)
}

/// regexes of unusual size and shape
fn large_regex(c: &mut Case) -> Verdict {
    let k = c.rng.below(9);
    let n = c.rng.range(1, if c.thorough { 110 } else { 70 });
    let re = match k {
        0 => format!("{}a{}", "(".repeat(n), ")*".repeat(n)),
        1 => format!("{}a{}", "(b".repeat(n), ")?".repeat(n)),
        2 => (0..n).map(|i| format!("w{}x", i)).collect::<Vec<_>>().join("|"),
        3 => format!("(a|b)*a{}", "(a|b)".repeat(n.min(7))),
        4 => "(a?)".repeat(n.min(40)) + &"a".repeat(n.min(40)),
        5 => format!("[^{}]+", (0..n).map(|i| char::from_u32(0x4e00 + 3 * i as u32).unwrap()).collect::<String>()),
        6 => (0..n).map(|i| format!("[a-{}]", (b'a' + (i % 26) as u8) as char)).collect::<String>(),
        7 => format!("{}x{}", "(a|".repeat(n), ")+".repeat(n)),
        _ => rx::gen(&mut c.rng, 5, rx::RxOpts { plain: false, unicode: true, empties: true }),
    };
    let Some(h) = rx::parse(&re) else { return Ok(()) };
    if rx::unsupported(&h) {
        return Ok(());
    }
    c.count("kind_large_regex", 1);
    c.eval(true, &re);
    c.input(&re);
    let others = inputs::token_set(&mut c.rng, false, true);
    let mut defs = vec![(TokenDef { name: "big".into(), with_val: true, token_idx: Some(1) }, h.clone())];
    for (i, o) in others.iter().take(3).enumerate() {
        defs.push((TokenDef { name: format!("o{}", i), with_val: false, token_idx: Some(2 + i as u32) }, rx::parse(o).unwrap()));
    }
    let hirs: Vec<_> = defs.iter().map(|d| d.1.clone()).collect();
    let lex = guard(|| Lex::from_tokens(defs)).map_err(|e| format!("building a lexer failed: {} at {}", e.msg, e.loc))?;
    c.count("lexers_built", 1);
    c.count("bytes_generated", guard(|| lex_gen::generate(&lex)).map_err(|e| format!("generating failed: {} at {}", e.msg, e.loc))?.len() as u64);
    for _ in 0..4 {
        let n = c.rng.range(0, 6);
        let t = inputs::text(&mut c.rng, &hirs, n, false, true);
        let t: String = t.chars().take(300).collect();
        c.input(format!("{}\ninput {:?}", re, t));
        let (_, consumed) = guard(|| lex.lex_prefix(&t)).map_err(|e| format!("tokenising failed: {} at {}", e.msg, e.loc))?;
        if consumed > t.chars().count() {
            return Err(format!("tokenising consumed {} of {} characters", consumed, t.chars().count()));
        }
        c.count("texts_tokenised", 1);
    }
    Ok(())
}

/// sources from byte soup to long ones
fn sources(c: &mut Case) -> Verdict {
    let g = gen::random(&mut c.rng, gen::GOpts { hard_lits: true, ..Default::default() });
    let mut s = g.print();
    match c.rng.below(4) {
        0 => {
            let n = c.rng.range(50, 400);
            s = (0..n).map(|i| format!("export {}P{}: (string) = [\n<a: \"t{}\"> r\"[0-9]+\" => ({{ a }})\n]\n", if i == 0 { "start " } else { "" }, i, i)).collect();
        }
        1 => {
            let n = c.rng.range(100, 3000);
            s.push_str(&"(".repeat(n));
        }
        2 => {
            let n = c.rng.range(100, 3000);
            let k = c.rng.below(s.chars().count() + 1);
            let ins = c.rng.pick(&["\"", "<", "[", "\\", "=>", "r\"", " ", "\n", "é"]).repeat(n);
            s = s.chars().take(k).collect::<String>() + &ins + &s.chars().skip(k).collect::<String>();
        }
        _ => {
            let mut cs: Vec<char> = s.chars().collect();
            for _ in 0..c.rng.range(1, 6) {
                if cs.is_empty() {
                    break;
                }
                let k = c.rng.below(cs.len());
                match c.rng.below(3) {
                    0 => {
                        cs.remove(k);
                    }
                    1 => cs[k] = *c.rng.pick(&['"', '\\', '(', ')', '\n', 'r', '<', '>', '\u{0}', '𝄞']),
                    _ => cs.truncate(k),
                }
            }
            s = cs.into_iter().collect();
        }
    }
    c.count("kind_sources", 1);
    c.eval(true, &s);
    c.input(&s);
    let bump = Bump::new();
    match guard(|| glue::read(&bump, &s).map(|a| a.len())) {
        Err(e) => return Err(format!("reading panicked at {}: {}", e.loc, e.msg)),
        Ok(Ok(_)) => c.count("sources_read", 1),
        Ok(Err(_)) => c.count("sources_refused", 1),
    }
    Ok(())
}

fn case(c: &mut Case) -> Verdict {
    match c.idx % 16 {
        0..=7 => mixed(c),
        8..=9 => long_input(c),
        10..=11 => large_grammar(c),
        12..=13 => large_regex(c),
        _ => sources(c),
    }
}

fn main() {
    run(3000, 60000, case)
}
