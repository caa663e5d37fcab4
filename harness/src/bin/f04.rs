//! F04: grammars that cannot be processed are refused while the generator is being built.
use bumpalo::Bump;
use harness::{gen, glue, model::*, rx, util::*};
use typelalr::{lalr::Lalr, lex::lex::Lex, lex::lex::TokenDef, parser::Grammar};

const INVALID: &[&str] = &["(", "a)", "[z-a]", "[a", "*a", "+", "?", "a{2,1}", "(?P<n>a)(?P<n>b)", "(?", "(?Z)", "a|*", "[[:foo:]]", "{2}", "(?P<1>a)", "x{99999999999}", "(?=a)", "(?<!b)"];
const UNSUPPORTED: &[&str] = &["^a", "a$", "a{2}", "a{2,}", "a{1,3}", "(a|b){2}", "^", "$", "a|^b", "(a$)*", "[a-z]{3}x", "x(y{2})?z", "(?m:^a)", "a{0}", "a{1}", "(^)", "((((a{2}))))", "b+c{1,2}d*"];
const UNSUPPORTED_RAW: &[&str] = &["\\ba", "a\\B", "\\Aa", "a\\z", "(?-u:\\b)x", "x(\\b)"];

fn case(c: &mut Case) -> Verdict {
    let o = gen::GOpts { hard_lits: true, ..Default::default() };
    let mut g;
    let mut label;
    loop {
        let (_, h) = gen::grammar(&mut c.rng, o);
        g = h;
        if c.rng.chance(1, 60) {
            label = "undefined production far away";
            g = far(&mut c.rng);
            break;
        }
        if c.rng.chance(1, 60) {
            label = "one defect in a large grammar";
            g = wide(&mut c.rng);
            break;
        }
        match c.rng.below(8) {
            0 => {
                label = "no start";
                g.prods.iter_mut().for_each(|p| p.start = false);
            }
            1 => {
                label = "undefined production";
                let p = c.rng.below(g.prods.len());
                if g.prods[p].bodies.is_empty() {
                    continue;
                }
                let b = c.rng.below(g.prods[p].bodies.len());
                let n = g.prods[p].bodies[b].syms.len();
                let u = (None, Sym::Nt("Undefined".into()));
                if c.rng.chance(1, 2) {
                    let k = c.rng.below(n);
                    g.prods[p].bodies[b].syms[k] = u;
                } else {
                    let k = c.rng.below(n + 1);
                    g.prods[p].bodies[b].syms.insert(k, u);
                }
            }
            2 => {
                label = "production removed";
                if g.prods.len() < 2 {
                    continue;
                }
                let p = c.rng.below(g.prods.len());
                if g.prods[p].start {
                    continue;
                }
                g.prods.remove(p);
            }
            3 => {
                label = "production without alternatives";
                let p = c.rng.below(g.prods.len());
                g.prods[p].bodies.clear();
            }
            4 => {
                label = "invalid regex";
                let r = c.rng.pick(INVALID).to_string();
                put(&mut c.rng, &mut g, r);
            }
            5 => {
                label = "unsupported regex";
                let mut r = c.rng.pick(UNSUPPORTED).to_string();
                if c.rng.chance(1, 2) {
                    // counted repetition of every form, on any atom
                    let m = *c.rng.pick(&[0, 0, 1, 1, 2, 3, 10]);
                    let n = m + *c.rng.pick(&[0, 0, 1, 1, 2, 9]);
                    let times = match c.rng.below(3) {
                        0 => format!("{{{}}}", m),
                        1 => format!("{{{},}}", m),
                        _ => format!("{{{},{}}}", m, n),
                    };
                    let lazy = *c.rng.pick(&["", "", "", "?"]);
                    let atom = match c.rng.below(4) {
                        0 => "a".to_string(),
                        1 => "[a-z]".into(),
                        2 => ".".into(),
                        _ => format!("({})", rx::gen(&mut c.rng, 1, rx::RxOpts { plain: true, unicode: false, empties: true })),
                    };
                    r = format!("{}{}{}", atom, times, lazy);
                    c.count("counted_repetitions", 1);
                }
                if c.rng.chance(1, 2) {
                    let wrap = rx::gen(&mut c.rng, 1, rx::RxOpts { plain: true, unicode: false, empties: true });
                    r = match c.rng.below(3) {
                        0 => format!("({})({})", wrap, r),
                        1 => format!("(({})|({}))*", r, wrap),
                        _ => format!("({})?({})", r, wrap),
                    };
                }
                put(&mut c.rng, &mut g, r);
            }
            6 => {
                // straight at the lexer
                label = "unsupported regex (token list)";
                let r = c.rng.pick(UNSUPPORTED_RAW).to_string();
                c.input(format!("Lex::from_tokens of [x, {}]", r));
                c.count(label, 1);
                c.eval(true, &(label, &r, c.idx % 4));
                let h = rx::parse(&r).expect("parses");
                assert!(rx::unsupported(&h));
                let def = |n: &str| TokenDef { name: n.into(), with_val: true, token_idx: None };
                let toks = vec![(def("x"), rx::parse("x").unwrap()), (def("k"), h)];
                return match guard(|| Lex::from_tokens(toks)) {
                    Err(_) => Ok(()),
                    Ok(_) => Err(format!("a lexer was built for the unsupported regex {}", r)),
                };
            }
            _ => {
                label = "control (fine)";
            }
        }
        break;
    }
    let cfg = Cfg::of(&g);
    let bad_re = g
        .prods
        .iter()
        .flat_map(|p| &p.bodies)
        .flat_map(|b| &b.syms)
        .any(|(_, s)| matches!(s, Sym::Re(r) if rx::parse(r).map_or(true, |h| rx::unsupported(&h))));
    let must_refuse = match &cfg {
        None => true,
        Some(c) => c.undefined_reachable() || bad_re,
    };
    let src = g.print();
    c.input(&src);
    if !gen::tractable(&g) {
        c.count("skipped_too_large", 1);
        return Ok(());
    }
    c.eval(must_refuse, &src);
    c.count(label, 1);
    c.count(if must_refuse { "must_be_refused" } else { "no_obligation" }, 1);
    let bump = Bump::new();
    let ast = glue::read(&bump, &src).map_err(|e| format!("well-formed source refused by the reader: {}", e))?;
    let r = guard(|| {
        let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
        let _l = Lalr::new(gr);
    });
    if must_refuse && r.is_ok() {
        return Err(format!("a generator was built for a grammar that cannot be processed ({})", label));
    }
    if must_refuse && bad_re {
        // neither must the lexer on its own be built
        let r = guard(|| {
            let gr = Grammar::grammar_from_ast_productions(&bump, &ast);
            let _l = Lex::from_grammar(&gr);
        });
        if r.is_ok() {
            return Err(format!("a lexer was built for a grammar with a regex that cannot be processed ({})", label));
        }
    }
    if let Err(e) = r {
        c.count("refused", 1);
        c.sample(|| format!("{} -> refused: {}", src, e.msg));
    }
    Ok(())
}

/// A long way from the start to a production that does not exist, is empty, or is fine.
fn far(rng: &mut Rng) -> Gram {
    let n = if rng.chance(1, 4) { rng.range(200, 400) } else { rng.range(30, 110) };
    let style = rng.below(4);
    let nt = |i: usize| (None, Sym::Nt(format!("N{}", i)));
    let lit = |s: &str| (None, Sym::Lit(s.to_string()));
    let mut g = Gram::default();
    for i in 0..n {
        let syms = match style {
            0 => vec![nt(i + 1)],
            1 => vec![lit("a"), nt(i + 1)],
            2 => vec![nt(i + 1), lit("b")],
            _ => vec![lit("("), nt(i + 1), lit(")")],
        };
        let mut bodies = vec![Body { syms, map: "1".into() }];
        if rng.chance(1, 3) {
            bodies.push(Body { syms: vec![lit(&format!("t{}", i))], map: "2".into() });
        }
        g.prods.push(Prod { name: format!("N{}", i), ts: String::new(), start: i == 0, bodies });
    }
    match rng.below(3) {
        0 => {}
        1 => g.prods.push(Prod { name: format!("N{}", n), ts: String::new(), start: false, bodies: vec![] }),
        _ => {
            let bodies = vec![Body { syms: vec![lit("z")], map: "3".into() }];
            g.prods.push(Prod { name: format!("N{}", n), ts: String::new(), start: false, bodies })
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut g.prods);
    }
    g
}

/// Many productions and alternatives, all of them used, with at most one defect in one of them.
fn wide(rng: &mut Rng) -> Gram {
    let n = rng.range(20, 150);
    let nt = |i: usize| (None, Sym::Nt(format!("N{}", i)));
    let lit = |s: String| (None, Sym::Lit(s));
    let body = |syms| Body { syms, map: "1".into() };
    // every production is used by an earlier one
    let mut uses: Vec<Vec<usize>> = vec![vec![]; n];
    let one = rng.chance(1, 2);
    for i in 1..n {
        uses[if one { 0 } else { rng.below(i) }].push(i);
    }
    let mut g = Gram::default();
    for i in 0..n {
        let mut bodies = vec![];
        for (k, u) in uses[i].iter().enumerate() {
            bodies.push(body(if rng.chance(1, 2) { vec![lit(format!("a{}_{}", i, k)), nt(*u)] } else { vec![lit(format!("a{}_{}", i, k)), nt(*u), lit("z".into())] }));
        }
        if bodies.is_empty() || rng.chance(1, 3) {
            bodies.push(body(vec![lit(format!("t{}", i))]));
        }
        g.prods.push(Prod { name: format!("N{}", i), ts: String::new(), start: i == 0, bodies });
    }
    let at = rng.below(n);
    match rng.below(5) {
        0 => {}
        1 => g.prods[at].bodies.clear(),
        2 => {
            if at > 0 {
                g.prods.remove(at);
            }
        }
        3 => {
            let k = rng.below(g.prods[at].bodies.len() + 1);
            let r = if rng.chance(1, 2) { rng.pick(INVALID) } else { rng.pick(UNSUPPORTED) };
            g.prods[at].bodies.insert(k, body(vec![(None, Sym::Re(r.to_string()))]));
        }
        _ => {
            let k = rng.below(g.prods[at].bodies.len());
            let s = &mut g.prods[at].bodies[k].syms;
            s.push((None, Sym::Nt("Undefined".into())));
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut g.prods);
    }
    g
}

fn put(rng: &mut Rng, g: &mut Gram, r: String) {
    let p = rng.below(g.prods.len());
    if g.prods[p].bodies.is_empty() {
        g.prods[p].bodies.push(Body { syms: vec![(None, Sym::Lit("q".into()))], map: "1".into() });
    }
    let b = rng.below(g.prods[p].bodies.len());
    let n = g.prods[p].bodies[b].syms.len();
    let k = rng.below(n + 1);
    g.prods[p].bodies[b].syms.insert(k, (None, Sym::Re(r)));
}

fn main() {
    run(6000, 80000, case)
}
