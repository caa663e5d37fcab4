//! F01: grammar source is read into exactly the grammar written; layout never matters.
use harness::{dsl, gen, glue, model::*, util::*};

fn frag(rng: &mut Rng) -> String {
    let parts = [
        "{ kind: \"x\", v: a }", "[a, ...b]", "string", "", " ", "(a)", "((", "))", "a | b", "// c", "{}", "é中𝄞", "\"q\\\"\"", "'", "`${a}`",
        "=>", "[", "]", ",", ":", "<a: B>", "export start", "r\"x\"", "\\", "\t", "A[]", "number", ") = (", "\r",
    ];
    let n = match rng.below(40) {
        0 if rng.chance(1, 40) => rng.range(5_000, 25_000),
        0 => rng.range(20, 300),
        1..=4 => rng.range(4, 12),
        _ => rng.below(4),
    };
    (0..n).map(|_| *rng.pick(&parts)).collect()
}

fn lit(rng: &mut Rng) -> String {
    if rng.chance(1, 2) {
        return rng.pick(gen::LITS).to_string();
    }
    if rng.chance(1, 4) {
        return gen::word(rng, true);
    }
    let parts = ["\"", "\\", "\\\\", "n", "a", " ", "\n", "é", "𝄞", "'", "(", ")", ")", "=>", "]", "r", "\t", "\r", "<", "0", "$"];
    let n = if rng.chance(1, 2000) { rng.range(2_000, 40_000) } else if rng.chance(1, 30) { rng.range(30, 400) } else { rng.below(6) };
    (0..n).map(|_| *rng.pick(&parts)).collect()
}

fn re(rng: &mut Rng) -> String {
    if rng.chance(1, 2) {
        return rng.pick(gen::RES).to_string();
    }
    let parts = ["\\\\", "\\\"", "a", "[0-9]", "*", "(", ")", " ", "é", "\n", "|", "^", "'", "=>"];
    let n = if rng.chance(1, 2000) { rng.range(2_000, 40_000) } else if rng.chance(1, 30) { rng.range(30, 400) } else { rng.below(6) };
    (0..n).map(|_| *rng.pick(&parts)).collect()
}

fn name(rng: &mut Rng) -> String {
    if rng.chance(2, 3) {
        return rng.pick(gen::NAMES).to_string();
    }
    if rng.chance(1, 3) {
        if rng.chance(1, 300) {
            return gen::ident(rng).chars().cycle().take(rng.range(250, 5_000)).collect();
        }
        return gen::ident(rng);
    }
    rng.pick(&["startX", "rX", "_1", "export_", "exportstart", "Start", "START", "r1", "x", "__", "a0b", "any", "starts", "exporting", "restart", "R", "r_", "rr", "re", "Export", "type", "const"]).to_string()
}

fn build(rng: &mut Rng) -> Gram {
    // now and then long in one direction
    let big = rng.below(40);
    let giant = rng.chance(1, 12);
    let np = if big == 0 && giant { rng.range(257, 700) } else if big == 0 { rng.range(20, 90) } else { rng.range(1, 6) };
    Gram {
        prods: (0..np)
            .map(|_| {
                let nb = if big == 1 && giant { rng.range(200, 600) } else if big == 1 { rng.range(8, 50) } else { rng.below(5) };
                Prod {
                    name: name(rng),
                    ts: frag(rng),
                    start: rng.chance(1, 3),
                    bodies: (0..nb)
                        .map(|_| {
                            let ns = if big == 2 && giant { rng.range(200, 600) } else if big == 2 { rng.range(10, 60) } else { rng.range(1, 7) };
                            Body {
                                syms: (0..ns)
                                    .map(|_| {
                                        let b = if rng.chance(1, 2) { Some(name(rng)) } else { None };
                                        let s = match rng.below(3) {
                                            0 => Sym::Lit(lit(rng)),
                                            1 => Sym::Nt(name(rng)),
                                            _ => Sym::Re(re(rng)),
                                        };
                                        (b, s)
                                    })
                                    .collect(),
                                map: frag(rng),
                            }
                        })
                        .collect(),
                }
            })
            .collect(),
    }
}

fn case(c: &mut Case) -> Verdict {
    let g = if c.rng.chance(1, 4) {
        gen::random(&mut c.rng, gen::GOpts { hard_lits: true, ..Default::default() })
    } else {
        build(&mut c.rng)
    };
    let n_layouts = 3;
    for k in 0..n_layouts {
        let src = g.print_with(&mut c.rng, Layout { wild: k > 0 });
        c.input(&src);
        // the independent reader and printer must agree before anything is judged
        match dsl::read(&src) {
            Ok(r) if r == g => {}
            r => panic!("reference reader disagrees with reference printer: {:?}\n{}", r, src),
        }
        c.eval(g.prods.iter().any(|p| !p.bodies.is_empty()), &src);
        c.peak("max_source_characters", src.chars().count() as u64);
        c.peak("max_productions", g.prods.len() as u64);
        c.peak("max_symbols_of_an_alternative", g.prods.iter().flat_map(|p| &p.bodies).map(|b| b.syms.len() as u64).max().unwrap_or(0));
        c.peak("max_fragment_characters", g.prods.iter().flat_map(|p| [p.ts.len()].into_iter().chain(p.bodies.iter().map(|b| b.map.len()))).max().unwrap_or(0) as u64);
        c.peak("max_alternatives", g.prods.iter().map(|p| p.bodies.len() as u64).max().unwrap_or(0));
        c.count("symbols", g.prods.iter().flat_map(|p| &p.bodies).map(|b| b.syms.len() as u64).sum());
        let bump = bumpalo::Bump::new();
        let got = guard(|| glue::read(&bump, &src).map(|a| glue::ast_to_gram(&a)))
            .map_err(|p| format!("reading panicked at {}: {}", p.loc, p.msg))?;
        match got {
            Err(e) => return Err(format!("a well-formed source was refused: {}", e)),
            Ok(r) if r != g => return Err(format!("read differently from what is written.\nwritten: {:?}\nread:    {:?}", g, r)),
            Ok(_) => {}
        }
        // the convenience entry point must give the same
        let bump2 = bumpalo::Bump::new();
        let got2 = guard(|| glue::ast_to_gram(&typelalr::parse_grammar(&bump2, &src)))
            .map_err(|p| format!("parse_grammar panicked at {}: {}", p.loc, p.msg))?;
        if got2 != g {
            return Err(format!("parse_grammar read differently.\nwritten: {:?}\nread:    {:?}", g, got2));
        }
    }
    c.sample(|| g.print());
    Ok(())
}

fn main() {
    run(4000, 60000, case)
}
