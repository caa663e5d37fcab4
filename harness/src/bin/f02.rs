//! F02: malformed sources are refused with an error, well-formed ones read; never a crash.
use harness::{dsl, gen, glue, model::*, util::*};

fn mutate_text(rng: &mut Rng, src: &str) -> String {
    let mut cs: Vec<char> = src.chars().collect();
    let inserts: Vec<char> = "()[]<>=:,\"\\'r \n\té𝄞\u{0}x_1>=#@{}$-.;/*|?!%&+~^`0Aﬀª٣\u{2028}\u{200b}\r\u{c}\u{feff}".chars().collect();
    for _ in 0..rng.range(1, 4) {
        let n = cs.len();
        match rng.below(6) {
            0 if n > 0 => {
                cs.remove(rng.below(n));
            }
            1 => cs.insert(rng.below(n + 1), *rng.pick(&inserts)),
            2 if n > 0 => {
                let i = rng.below(n);
                cs[i] = *rng.pick(&inserts);
            }
            3 if n > 0 => {
                let i = rng.below(n);
                let j = (i + rng.below(12)).min(n);
                let piece: Vec<char> = cs[i..j].to_vec();
                let at = rng.below(n + 1);
                cs.splice(at..at, piece);
            }
            4 if n > 0 => {
                let i = rng.below(n);
                let j = (i + rng.below(12)).min(n);
                cs.drain(i..j);
            }
            5 if n > 1 => cs.truncate(rng.below(n)),
            _ => {}
        }
    }
    cs.into_iter().collect()
}

fn soup(rng: &mut Rng) -> String {
    let toks = [
        "export", "start", "A", "B", ":", "(x)", "()", "=", "[", "]", ",", "<", ">", "=>", "r", "\"a\"", "r\"[0-9]\"", "<a: B>", "(a)\n", "\n",
        "A$", "$A", "a-b", "A.B", "A'", "é", "Aé", "1A", "A1", "_1", "A?", "A*", "A+", "/", "//", "// x\n", "/* x */", "|", ";", "->", "==", "=>=", "<A>", "<a: \"b\">", "<a: <b: C>>", "<: A>", "<a A>", "<a:>", "<1: A>", "<a$: A>", "r \"a\"", "r\n\"a\"", "R\"a\"", "'a'", "`a`", "\"a\nb\"", "\"é\"", "startexport", "exportstart", "export export", "start export", "starts", "[]", "[ ]", ",,", "=>(x)\n", "= >", "\"a", "r\"a", "(a", "a)", "((a)\n", "(a))\n", "\u{2028}", "\u{feff}", "\"\"", "rr", "_", "\"\\\"", "\"\\n\"", "(", ")", "export start", "A: (x)\n = [", "\"a\" => (y)\n", "]",
    ];
    let n = rng.below(25);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*rng.pick(&toks));
        if rng.chance(3, 4) {
            s.push(' ');
        }
    }
    s
}

/// One token of a well-formed source replaced, doubled, dropped or swapped; characters stuck to its
/// end or beginning.
fn token_edit(rng: &mut Rng, src: &str) -> String {
    // tokens: quoted strings, fragments up to the end of the line, words, blanks, single characters
    let cs: Vec<char> = src.chars().collect();
    let mut toks: Vec<String> = vec![];
    let mut i = 0;
    while i < cs.len() {
        let j = match cs[i] {
            '"' => {
                let mut j = i + 1;
                while j < cs.len() && cs[j] != '"' {
                    j += if cs[j] == '\\' { 2 } else { 1 };
                }
                (j + 1).min(cs.len())
            }
            '(' => {
                let e = (i..cs.len()).find(|k| cs[*k] == '\n').unwrap_or(cs.len());
                (i..e).rev().find(|k| cs[*k] == ')').map_or(e, |k| k + 1)
            }
            c if c.is_alphanumeric() || c == '_' => (i..cs.len()).find(|k| !(cs[*k].is_alphanumeric() || cs[*k] == '_')).unwrap_or(cs.len()),
            c if c.is_whitespace() => (i..cs.len()).find(|k| !cs[*k].is_whitespace()).unwrap_or(cs.len()),
            _ => i + 1,
        };
        toks.push(cs[i..j].iter().collect());
        i = j;
    }
    let odd: Vec<char> = "$-.'?*+|/\\é:=<>[](),;`0_x\"@#{}!^%&~\u{0}\u{2028}".chars().collect();
    for _ in 0..if rng.chance(3, 4) { 1 } else { rng.range(2, 3) } {
        let solid: Vec<usize> = (0..toks.len()).filter(|k| !toks[*k].trim().is_empty()).collect();
        if solid.is_empty() {
            break;
        }
        let k = *rng.pick(&solid);
        match rng.below(8) {
            0 => toks[k] = String::new(),
            1 => toks[k] = format!("{} {}", toks[k], toks[k]),
            2 => {
                let j = *rng.pick(&solid);
                toks.swap(k, j);
            }
            3 => {
                let j = *rng.pick(&solid);
                toks[k] = toks[j].clone();
            }
            4 => toks[k].push(*rng.pick(&odd)),
            5 => toks[k].insert(0, *rng.pick(&odd)),
            6 => {
                // inside
                let n = toks[k].chars().count();
                let at = rng.below(n + 1);
                let c = *rng.pick(&odd);
                toks[k] = toks[k].chars().take(at).chain([c]).chain(toks[k].chars().skip(at)).collect();
            }
            _ => {
                let j = *rng.pick(&solid);
                let t = toks[j].clone();
                toks[k] = format!("{} {}", toks[k], t);
            }
        }
    }
    toks.concat()
}

fn case(c: &mut Case) -> Verdict {
    let kind = c.rng.below(10);
    let src = match kind {
        0 | 1 => soup(&mut c.rng),
        2 => {
            let n = c.rng.below(40);
            (0..n).map(|_| char::from_u32((c.rng.next() % 0x3000) as u32).unwrap_or('x')).collect()
        }
        _ => {
            let g = if c.rng.chance(1, 2) {
                gen::random(&mut c.rng, gen::GOpts { hard_lits: true, max_nt: 3, ..Default::default() })
            } else {
                gen::template(&mut c.rng).1
            };
            let wild = c.rng.chance(1, 2);
            let mut g = g;
            if c.rng.chance(1, 3) {
                for s in g.prods.iter_mut().flat_map(|p| &mut p.bodies).flat_map(|b| &mut b.syms) {
                    s.0 = if c.rng.chance(1, 2) { Some(gen::ident(&mut c.rng)) } else { None };
                }
            }
            let s = g.print_with(&mut c.rng, Layout { wild });
            match kind {
                3 => s,
                4..=6 => token_edit(&mut c.rng, &s),
                _ => mutate_text(&mut c.rng, &s),
            }
        }
    };
    c.input(&src);
    let want = dsl::read(&src);
    c.eval(true, &src);
    c.peak("max_source_characters", src.chars().count() as u64);
    c.count(if want.is_ok() { "well_formed" } else { "malformed" }, 1);
    let bump = bumpalo::Bump::new();
    let got = guard(|| glue::read(&bump, &src).map(|a| glue::ast_to_gram(&a)))
        .map_err(|p| format!("reading panicked at {}: {}", p.loc, p.msg))?;
    match (&want, &got) {
        (Ok(w), Ok(g)) if w == g => {}
        (Err(_), Err(_)) => {}
        (Ok(w), Ok(g)) => return Err(format!("well-formed source read differently.\nexpected: {:?}\nread:     {:?}", w, g)),
        (Ok(_), Err(e)) => return Err(format!("well-formed source refused: {}", e)),
        (Err(e), Ok(g)) => return Err(format!("malformed source ({}) was read as {:?}", e, g)),
    }
    // parse_grammar refuses exactly when the reader does
    let bump2 = bumpalo::Bump::new();
    let g2 = guard(|| glue::ast_to_gram(&typelalr::parse_grammar(&bump2, &src)));
    match (&want, g2) {
        (Ok(w), Ok(g)) if *w == g => {}
        (Err(_), Err(_)) => {}
        (w, g) => return Err(format!("parse_grammar: expected {:?}, got {:?}", w.is_ok(), g)),
    }
    c.sample(|| format!("{:?} => {}", src, if want.is_ok() { "well-formed" } else { "malformed" }));
    Ok(())
}

fn main() {
    run(20000, 300000, case)
}
