//! Grammar generation: templates with known difficult features, random grammars, mutations.
use crate::dsl;
use crate::lr;
use crate::model::*;
use crate::rx;
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet};

/// Grammar shapes the theory singles out. Written with single-letter terminals; generation
/// renames, reorders and re-terminals them.
pub const TEMPLATES: &[(&str, &str)] = &[
    ("dragon-cc", r#"export start S: () = [ C C => (1) ] export C: () = [ "c" C => (1), "d" => (1) ]"#),
    ("left-list", r#"export start L: () = [ L "a" => (1), "a" => (1) ]"#),
    ("right-list", r#"export start L: () = [ "a" L => (1), "a" => (1) ]"#),
    ("expr-left", r#"export start E: () = [ E "+" T => (1), T => (1) ] export T: () = [ T "*" F => (1), F => (1) ] export F: () = [ "(" E ")" => (1), "i" => (1) ]"#),
    ("expr-right", r#"export start E: () = [ T "+" E => (1), T => (1) ] export T: () = [ F "*" T => (1), F => (1) ] export F: () = [ "(" E ")" => (1), "i" => (1) ]"#),
    ("assign (LALR not SLR)", r#"export start S: () = [ L "=" R => (1), R => (1) ] export L: () = [ "*" R => (1), "i" => (1) ] export R: () = [ L => (1) ]"#),
    ("lr1-not-lalr", r#"export start S: () = [ "a" A "d" => (1), "b" B "d" => (1), "a" B "e" => (1), "b" A "e" => (1) ] export A: () = [ "c" => (1) ] export B: () = [ "c" => (1) ]"#),
    ("lalr-not-slr-2", r#"export start S: () = [ A "a" => (1), "b" A "c" => (1), "d" "c" => (1), "b" "d" "a" => (1) ] export A: () = [ "d" => (1) ]"#),
    ("lr2-not-lr1", r#"export start S: () = [ A "x" "y" => (1), B "x" "z" => (1) ] export A: () = [ "c" => (1) ] export B: () = [ "c" => (1) ]"#),
    ("dangling-else", r#"export start S: () = [ "i" S => (1), "i" S "e" S => (1), "x" => (1) ]"#),
    ("ambiguous-expr", r#"export start E: () = [ E "+" E => (1), "i" => (1) ]"#),
    ("ambiguous-two-ways", r#"export start S: () = [ A => (1), B => (1) ] export A: () = [ "a" => (1) ] export B: () = [ "a" => (1) ]"#),
    ("unit-cycle", r#"export start S: () = [ A => (1) ] export A: () = [ B => (1), "a" => (1) ] export B: () = [ A => (1), "b" => (1) ]"#),
    ("self-cycle", r#"export start S: () = [ S => (1), "a" => (1) ]"#),
    ("palindrome (not LR)", r#"export start P: () = [ "a" P "a" => (1), "b" P "b" => (1), "c" => (1), "a" => (1) ]"#),
    ("palindrome-centre", r#"export start P: () = [ "a" P "a" => (1), "b" P "b" => (1), "c" => (1) ]"#),
    ("shared-lead", r#"export start S: () = [ "x" "a" => (1), "x" "b" => (1), "x" "c" S => (1) ]"#),
    ("shared-lead-nt", r#"export start S: () = [ "x" A "p" => (1), "x" B "q" => (1) ] export A: () = [ "x" A => (1), "y" => (1) ] export B: () = [ "x" B => (1), "z" => (1) ]"#),
    ("three-contexts", r#"export start S: () = [ "a" A "p" => (1), "b" A "q" => (1), "c" A "r" => (1), A => (1) ] export A: () = [ "x" A "y" => (1), "z" => (1), "x" "y" => (1) ]"#),
    ("three-contexts-chain", r#"export start S: () = [ "a" A "p" => (1), "b" A "q" => (1), "c" A "r" => (1) ] export A: () = [ B => (1) ] export B: () = [ C "." => (1), C => (1) ] export C: () = [ "x" => (1), "(" A ")" => (1) ]"#),
    ("unit-chain", r#"export start A: () = [ B => (1) ] export B: () = [ C => (1) ] export C: () = [ D => (1) ] export D: () = [ "(" A ")" => (1), "x" => (1) ]"#),
    ("mutual-left", r#"export start A: () = [ B "a" => (1), "x" => (1) ] export B: () = [ A "b" => (1), "y" => (1) ]"#),
    ("mutual-left-3", r#"export start A: () = [ B "a" => (1), "x" => (1) ] export B: () = [ C "b" => (1) ] export C: () = [ A "c" => (1), "z" => (1), C "d" => (1) ]"#),
    ("lisp", r#"export start SExpr: () = [ "(" Exprs ")" => (1) ] export Exprs: () = [ Expr Exprs => (1), Expr => (1) ] export Expr: () = [ SExpr => (1), "add" => (1), r"[1-9]+[0-9]*" => (1) ]"#),
    ("lisp-left", r#"export start SExpr: () = [ "(" Exprs ")" => (1) ] export Exprs: () = [ Exprs Expr => (1), Expr => (1) ] export Expr: () = [ SExpr => (1), r"[a-z]+" => (1), r"[0-9]+" => (1) ]"#),
    ("json", r#"export start V: () = [ O => (1), A => (1), r"[0-9]+" => (1), "null" => (1) ] export O: () = [ "{" "}" => (1), "{" Ms "}" => (1) ] export Ms: () = [ M "," Ms => (1), M => (1) ] export M: () = [ r"[a-z]+" ":" V => (1) ] export A: () = [ "[" "]" => (1), "[" Vs "]" => (1) ] export Vs: () = [ Vs "," V => (1), V => (1) ]"#),
    ("statements", r#"export start B: () = [ "{" Ss "}" => (1) ] export Ss: () = [ Ss ";" St => (1), St => (1) ] export St: () = [ r"[a-z]+" "=" E => (1), "if" E B => (1), "if" E B "else" B => (1), B => (1) ] export E: () = [ E "<" P => (1), P => (1) ] export P: () = [ r"[a-z]+" => (1), r"[0-9]+" => (1), "(" E ")" => (1) ]"#),
    ("start-recursive-middle", r#"export start S: () = [ "a" S "b" => (1), "a" "b" => (1), S "c" => (1) ]"#),
    ("types", r#"export start T: () = [ Arr => (1), U => (1) ] export U: () = [ U "|" At => (1), At => (1) ] export Arr: () = [ U "=>" T => (1) ] export At: () = [ r"[a-z]+" => (1), "(" T ")" => (1), At "[" "]" => (1) ]"#),
    ("kernel-overlap", r#"export start S: () = [ "a" X "e" => (1), "a" Y "f" => (1), "b" X "f" => (1), "b" Z "e" => (1) ] export X: () = [ "c" "d" => (1) ] export Y: () = [ "c" "g" => (1) ] export Z: () = [ "c" "h" => (1) ]"#),
    ("two-reduces-disjoint", r#"export start S: () = [ A "a" => (1), B "b" => (1), "k" A "a" => (1), "k" B "b" => (1) ] export A: () = [ "c" => (1) ] export B: () = [ "c" => (1) ]"#),
    ("long-rhs", r#"export start S: () = [ "a" "b" "c" "d" "e" A "f" "g" => (1), "a" "b" "c" "d" A => (1) ] export A: () = [ "e" => (1), "h" "i" "j" => (1) ]"#),
    ("unreachable-rule", r#"export start S: () = [ "a" => (1) ] export U: () = [ "z" U => (1), "y" => (1) ]"#),
    ("lalr-lookahead-through-chain", r#"export start S: () = [ "a" D "x" => (1), "b" D "y" => (1), "a" G "y" => (1) ] export D: () = [ E1 => (1) ] export E1: () = [ F1 => (1) ] export F1: () = [ "c" "c" => (1) ] export G: () = [ "c" "e" => (1) ]"#),
    ("deep-left-merge", r#"export start S: () = [ "l" E "r" => (1), "m" E "n" => (1), E => (1) ] export E: () = [ E "+" T => (1), T => (1) ] export T: () = [ T "*" "i" => (1), "i" => (1), "l" E "r" => (1) ]"#),
    ("regex-vs-literal", r#"export start S: () = [ I => (1), S ";" I => (1) ] export I: () = [ "let" r"[a-z]+" => (1), r"[a-z]+" "=" r"[0-9]+" => (1), "le" => (1) ]"#),
];

pub const LITS: &[&str] = &[
    "a", "b", "c", "d", "e", "f", "g", "x", "y", "z", "+", "-", "*", "/", "(", ")", "[", "]", ",", ";", "=", "==", "=>",
    "if", "then", "else", "let", "le", "i", "id", "ab", "abc", "|", "||", ".", "..", "<", "<=", "0", "1",
];
pub const HARD_LITS: &[&str] = &[
    "\"", "\\", "\\\\", "'", "`", "${x}", "a\"b", "\\n", "\n", "a b", " ", "  ", "é", "中", "𝄞", "\\\"", "//", "/*", "a+", "[a-z]", "$", "^", "%", "~", "{", "}", "\t", "__proto__", "constructor", "x'y", "*/",
];
pub const RES: &[&str] = &[
    "[0-9]+", "[1-9][0-9]*", "[a-z]+", "[a-z][a-z0-9]*", "[A-Z]+", "a+", "(ab)+", "[a-z]*", "x(y|z)", "[0-9]+([.][0-9]+)?", "[^a-z() ]+", "#[^#]*#", "-?[0-9]", "a|b|ab", "(a|b)*c", "[ab]", "[a-c]+", "[b-z]", "if|then",
];
pub const NAMES: &[&str] = &[
    "S", "A", "B", "C", "D", "E", "F", "Foo", "Bar", "expr", "_t", "Zz", "a1", "S1", "List", "Item", "Stmt", "Q", "zeta", "_", "Start", "exports", "R", "rr",
];

#[derive(Clone, Copy)]
pub struct GOpts {
    pub max_nt: usize,
    pub max_alts: usize,
    pub max_rhs: usize,
    pub max_terms: usize,
    pub regexes: bool,
    pub hard_lits: bool,
    /// one grammar in this many is large in some direction (0: none)
    pub scale: usize,
    /// one grammar in this many has hundreds of something (0: none)
    pub huge: usize,
}

impl Default for GOpts {
    fn default() -> Self {
        GOpts { max_nt: 5, max_alts: 3, max_rhs: 4, max_terms: 6, regexes: true, hard_lits: false, scale: 12, huge: 0 }
    }
}

/// A literal nobody thought of. ASCII without quotes or backslashes unless `hard`.
pub fn word(rng: &mut Rng, hard: bool) -> String {
    let ascii: Vec<char> = (' '..='~').filter(|c| hard || !"\"'`\\".contains(*c)).collect();
    let len = match rng.below(12) {
        0 => rng.range(10, 40),
        1 if hard => rng.range(40, 300),
        _ => rng.range(1, 6),
    };
    let style = rng.below(5);
    let w: String = (0..len)
        .map(|_| match style {
            0 => (b'a' + rng.below(26) as u8) as char,
            1 => *rng.pick(&['a', 'b']),
            2 if hard => char::from_u32(rng.below(0x3000) as u32 + 1).unwrap_or('λ'),
            3 => *rng.pick(&"!#$%&*+-./:;<=>?@^_|~".chars().collect::<Vec<_>>()),
            _ => *rng.pick(&ascii),
        })
        .collect();
    if w == "EOF" || (!hard && w.trim().is_empty()) {
        return "w".into();
    }
    w
}

/// An identifier; the digit keeps it away from TypeScript's words.
pub fn ident(rng: &mut Rng) -> String {
    let first: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_".chars().collect();
    let rest: Vec<char> = "ABCXYZabcxyz_0123456789".chars().collect();
    let n = match rng.below(8) {
        0 => rng.range(20, 80),
        _ => rng.range(0, 6),
    };
    let mut s = rng.pick(&first).to_string();
    s.extend((0..n).map(|_| *rng.pick(&rest)));
    s.push((b'0' + rng.below(10) as u8) as char);
    s
}

fn terminals(rng: &mut Rng, n: usize, o: GOpts) -> Vec<Sym> {
    let mut v: Vec<Sym> = vec![];
    let mut guard = 0;
    while v.len() < n && guard < 200 + 10 * n {
        guard += 1;
        let s = if o.regexes && rng.chance(1, 4) {
            if rng.chance(1, 3) {
                let unicode = rng.chance(1, 3);
                let r = rx::gen(rng, 1, rx::RxOpts { plain: true, unicode, empties: false });
                match rx::parse(&r) {
                    Some(h) if !rx::unsupported(&h) => Sym::Re(r),
                    _ => continue,
                }
            } else {
                Sym::Re(rng.pick(RES).to_string())
            }
        } else if o.hard_lits && rng.chance(1, 3) {
            Sym::Lit(rng.pick(HARD_LITS).to_string())
        } else if o.hard_lits && n <= 30 && rng.chance(1, 14) {
            // texts that differ only behind a long common part
            let n = *rng.pick(&[15, 16, 31, 32, 63, 64, 100, 255, 256]);
            let tail = rng.below(4);
            Sym::Lit("long_common_prefix_".chars().cycle().take(n).chain([(b'a' + tail as u8) as char]).collect())
        } else if guard > 30 || rng.chance(1, 8) {
            Sym::Lit(word(rng, o.hard_lits && n <= 30))
        } else {
            Sym::Lit(rng.pick(LITS).to_string())
        };
        // pairwise different texts
        let text = |s: &Sym| match s {
            Sym::Lit(t) | Sym::Re(t) | Sym::Nt(t) => t.clone(),
        };
        if v.iter().all(|x| text(x) != text(&s)) {
            v.push(s);
        }
    }
    v
}

/// Random grammar; every used production is defined, some may be unproductive or unreachable.
pub fn random(rng: &mut Rng, o: GOpts) -> Gram {
    let nn = rng.range(1, o.max_nt);
    let mut names: Vec<&str> = NAMES.to_vec();
    rng.shuffle(&mut names);
    let mut names: Vec<String> = names[..nn].iter().map(|s| s.to_string()).collect();
    if rng.chance(1, 6) {
        for n in &mut names {
            *n = ident(rng);
        }
        names.sort();
        names.dedup();
        rng.shuffle(&mut names);
    }
    let nn = names.len();
    let nt = rng.range(1, o.max_terms.max(1));
    let terms = terminals(rng, nt, o);
    let style = rng.below(4);
    let mut g = Gram::default();
    for (i, n) in names.iter().enumerate() {
        let na = rng.range(1, o.max_alts);
        let mut bodies: Vec<Body> = vec![];
        for a in 0..na {
            let len = match rng.below(6) {
                0 | 1 => 1,
                2 | 3 => 2,
                4 => 3.min(o.max_rhs),
                _ => rng.range(1, o.max_rhs),
            };
            let mut syms = vec![];
            for k in 0..len {
                // the last alternative tends to be a base case
                let nt_bias = if a + 1 == na { 1 } else { 5 };
                let s = if rng.chance(nt_bias, 10) {
                    let j = match style {
                        0 if k == 0 => i,                       // left recursion
                        1 if k + 1 == len => i,                 // right recursion
                        2 => rng.range(i, nn - 1),              // mostly forward
                        _ => rng.below(nn),
                    };
                    Sym::Nt(names[j].clone())
                } else {
                    rng.pick(&terms).clone()
                };
                syms.push((None, s));
            }
            bodies.push(Body { syms, map: format!("{{ k: \"{}\", n: {} }}", n, a) });
        }
        if rng.chance(4, 5) {
            // identical alternatives always conflict; keep them rare
            let mut seen = BTreeSet::new();
            bodies.retain(|b| seen.insert(b.syms.iter().map(|s| s.1.clone()).collect::<Vec<_>>()));
        }
        g.prods.push(Prod { name: n.clone(), ts: String::new(), start: i == 0, bodies });
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut g.prods);
    }
    g
}

pub fn template(rng: &mut Rng) -> (String, Gram) {
    let (n, t) = rng.pick(TEMPLATES);
    // a fragment runs to the last `)` of its line
    let src = t.replace("=> (1)", "=> (1)\n").replace(": ()", ": ()\n");
    let mut g = dsl::read(&src).expect("template");
    for p in &mut g.prods {
        for (i, b) in p.bodies.iter_mut().enumerate() {
            b.map = format!("{{ k: \"{}\", n: {} }}", p.name, i);
        }
    }
    (n.to_string(), g)
}

/// Same grammar up to names, terminals and order.
pub fn disguise(rng: &mut Rng, g: &Gram, o: GOpts) -> Gram {
    let mut g = g.clone();
    if rng.chance(2, 3) {
        let mut pool: Vec<&str> = NAMES.to_vec();
        rng.shuffle(&mut pool);
        let mut map = BTreeMap::new();
        let odd = rng.chance(1, 5);
        for (i, p) in g.prods.iter().enumerate() {
            let n = pool.get(i).map(|s| s.to_string()).unwrap_or(format!("N{}", i));
            let n = if odd { format!("{}{}", ident(rng), i) } else { n };
            map.entry(p.name.clone()).or_insert(n);
        }
        rename(&mut g, &map);
    }
    if rng.chance(1, 2) {
        let mut used: Vec<Sym> = vec![];
        for p in &g.prods {
            for b in &p.bodies {
                for (_, s) in &b.syms {
                    if !matches!(s, Sym::Nt(_)) && !used.contains(s) {
                        used.push(s.clone());
                    }
                }
            }
        }
        let new = terminals(rng, used.len(), o);
        if new.len() == used.len() {
            for p in &mut g.prods {
                for b in &mut p.bodies {
                    for (_, s) in &mut b.syms {
                        if let Some(i) = used.iter().position(|u| u == s) {
                            *s = new[i].clone();
                        }
                    }
                }
            }
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut g.prods);
    }
    if rng.chance(1, 2) {
        for p in &mut g.prods {
            rng.shuffle(&mut p.bodies);
        }
    }
    g
}

pub fn rename(g: &mut Gram, map: &BTreeMap<String, String>) {
    for p in &mut g.prods {
        if let Some(n) = map.get(&p.name) {
            p.name = n.clone();
        }
        for b in &mut p.bodies {
            for (_, s) in &mut b.syms {
                if let Sym::Nt(x) = s {
                    if let Some(n) = map.get(x) {
                        *x = n.clone();
                    }
                }
            }
        }
    }
}

/// One random edit: add/remove/replace an alternative or a symbol.
pub fn mutate(rng: &mut Rng, g: &Gram) -> Gram {
    let mut g = g.clone();
    let all: Vec<Sym> = {
        let mut v = vec![];
        for p in &g.prods {
            v.push(Sym::Nt(p.name.clone()));
            for b in &p.bodies {
                for (_, s) in &b.syms {
                    v.push(s.clone());
                }
            }
        }
        v
    };
    let pi = rng.below(g.prods.len());
    let p = &mut g.prods[pi];
    match rng.below(5) {
        0 => {
            let n = rng.range(1, 3);
            let syms = (0..n).map(|_| (None, rng.pick(&all).clone())).collect();
            p.bodies.push(Body { syms, map: "1".into() });
        }
        1 if p.bodies.len() > 1 => {
            let i = rng.below(p.bodies.len());
            p.bodies.remove(i);
        }
        2 => {
            let i = rng.below(p.bodies.len().max(1));
            if let Some(b) = p.bodies.get_mut(i) {
                let k = rng.below(b.syms.len() + 1);
                b.syms.insert(k, (None, rng.pick(&all).clone()));
            }
        }
        3 => {
            let i = rng.below(p.bodies.len().max(1));
            if let Some(b) = p.bodies.get_mut(i) {
                if b.syms.len() > 1 {
                    let k = rng.below(b.syms.len());
                    b.syms.remove(k);
                }
            }
        }
        _ => {
            let i = rng.below(p.bodies.len().max(1));
            if let Some(b) = p.bodies.get_mut(i) {
                let k = rng.below(b.syms.len());
                b.syms[k].1 = rng.pick(&all).clone();
            }
        }
    }
    g
}

/// Whether the canonical LR(1) collection is of a size to work with: it can be exponential in the
/// grammar, and then neither the code under test nor the reference gets through it.
pub fn tractable(g: &Gram) -> bool {
    Cfg::of(g).map_or(true, |c| lr::canonical(&c, 500).is_some())
}

/// The mix used by the grammar-level checks. Returns a label for the statistics.
pub fn grammar(rng: &mut Rng, o: GOpts) -> (String, Gram) {
    if o.huge > 0 && rng.chance(1, o.huge) {
        let (l, mut g) = huge(rng);
        if rng.chance(1, 2) {
            g = disguise(rng, &g, o);
        }
        if Cfg::of(&g).map_or(false, |c| c.all_defined()) {
            return (format!("huge:{}", l), g);
        }
    }
    loop {
        if o.scale > 0 && rng.chance(1, o.scale) {
            let (l, mut g) = scaled(rng);
            if rng.chance(1, 5) {
                g = mutate(rng, &g);
                if !tractable(&g) {
                    continue;
                }
            }
            if rng.chance(1, 2) {
                g = disguise(rng, &g, o);
            }
            if Cfg::of(&g).map_or(false, |c| c.all_defined()) {
                return (format!("scaled:{}", l), g);
            }
        }
        let (label, mut g) = match rng.below(10) {
            0..=2 => {
                let (n, t) = template(rng);
                (format!("template:{}", n), disguise(rng, &t, o))
            }
            3..=4 => {
                let (_, t) = template(rng);
                let mut m = t;
                for _ in 0..rng.range(1, 3) {
                    m = mutate(rng, &m);
                }
                ("mutated-template".into(), disguise(rng, &m, o))
            }
            5..=6 => ("graft".into(), graft(rng, o)),
            _ => ("random".into(), random(rng, o)),
        };
        if rng.chance(1, 25) {
            g = split(rng, &g);
        }
        if let Some(c) = Cfg::of(&g) {
            if c.all_defined() {
                return (label, g);
            }
        }
    }
}

/// Put one grammar inside another: several contexts for the same nonterminals.
fn graft(rng: &mut Rng, o: GOpts) -> Gram {
    let (_, mut a) = template(rng);
    let (_, mut b) = template(rng);
    let ma = a.prods.iter().map(|p| (p.name.clone(), format!("{}1", p.name))).collect();
    rename(&mut a, &ma);
    let mb = b.prods.iter().map(|p| (p.name.clone(), format!("{}2", p.name))).collect();
    rename(&mut b, &mb);
    let bs = b.prods.iter().find(|p| p.start).unwrap().name.clone();
    for p in &mut b.prods {
        p.start = false;
    }
    // replace a few terminals of `a` by brackets around (or just) the start of `b`
    let n = rng.range(1, 3);
    for k in 0..n {
        let pi = rng.below(a.prods.len());
        let p = &mut a.prods[pi];
        if p.bodies.is_empty() {
            continue;
        }
        let bi = rng.below(p.bodies.len());
        let si = rng.below(p.bodies[bi].syms.len());
        let inner = (None, Sym::Nt(bs.clone()));
        let lit = |s: &str| (None, Sym::Lit(s.to_string()));
        let repl = match rng.below(3) {
            0 => vec![inner],
            1 => vec![lit(["<<", "{", "begin"][k % 3]), inner, lit([">>", "}", "end"][k % 3])],
            _ => vec![lit(["@", "#", "!"][k % 3]), inner],
        };
        p.bodies[bi].syms.splice(si..si + 1, repl);
    }
    a.prods.extend(b.prods);
    if rng.chance(1, 2) {
        disguise(rng, &a, o)
    } else {
        a
    }
}

/// The same grammar with productions written in several pieces, apart from each other.
pub fn split(rng: &mut Rng, g: &Gram) -> Gram {
    let mut o = Gram::default();
    let mut later = vec![];
    for p in &g.prods {
        if p.bodies.len() > 1 && rng.chance(2, 3) {
            let k = rng.range(1, p.bodies.len() - 1);
            let mut a = p.clone();
            let mut b = p.clone();
            a.bodies.truncate(k);
            b.bodies.drain(..k);
            o.prods.push(a);
            later.push(b);
        } else {
            o.prods.push(p.clone());
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut later);
    }
    o.prods.extend(later);
    o
}

/// Grammars that are large in one direction. All are LALR(1) as built here.
pub fn scaled(rng: &mut Rng) -> (&'static str, Gram) {
    let lit = |s: String| (None, Sym::Lit(s));
    let nt = |s: &str| (None, Sym::Nt(s.to_string()));
    fn prod(g: &mut Gram, name: &str, alts: Vec<Vec<(Option<String>, Sym)>>) {
        let start = g.prods.is_empty();
        let bodies = alts
            .into_iter()
            .enumerate()
            .map(|(i, syms)| Body { syms, map: format!("{{ k: \"{}\", n: {} }}", name, i) })
            .collect();
        g.prods.push(Prod { name: name.into(), ts: String::new(), start, bodies });
    }
    let mut g = Gram::default();
    let letter = |rng: &mut Rng, n: usize| ((b'a' + rng.below(n) as u8) as char).to_string();
    let label = match rng.below(11) {
        0 => {
            // long alternatives, possibly with a long common beginning
            let n = rng.range(9, 26);
            let al = rng.range(1, 5);
            let mut long: Vec<_> = vec![];
            for _ in 0..n {
                match rng.below(4) {
                    0 => long.push(nt("X")),
                    1 => long.push(nt("Y")),
                    _ => {
                        let s = letter(rng, al);
                        long.push(lit(s))
                    }
                }
            }
            let mut alts = vec![];
            for k in 0..rng.range(1, 4) {
                let mut a = long[..n - k].to_vec();
                a.push(lit(format!("t{}", k)));
                alts.push(a);
            }
            alts.push(vec![lit("q".into())]);
            prod(&mut g, "S", alts);
            prod(&mut g, "X", vec![vec![lit("x".into())], vec![lit("(".into()), nt("S"), lit(")".into())]]);
            prod(&mut g, "Y", vec![vec![lit("y".into()), nt("X")], vec![lit("z".into())]]);
            "long-alternatives"
        }
        1 => {
            // many alternatives over few terminals
            let n = rng.range(9, 40);
            let al = rng.range(2, 4);
            let mut alts: Vec<Vec<(Option<String>, Sym)>> = vec![];
            for _ in 0..n {
                let k = rng.range(1, 4);
                let mut a: Vec<_> = (0..k).map(|_| lit(letter(rng, al))).collect();
                if rng.chance(1, 4) {
                    a.push(lit("(".into()));
                    a.push(nt("S"));
                    a.push(lit(")".into()));
                }
                if !alts.contains(&a) {
                    alts.push(a);
                }
            }
            prod(&mut g, "S", alts);
            "many-alternatives"
        }
        2 => {
            // many productions: a right-linear machine
            let n = rng.range(9, 34);
            for i in 0..n {
                let mut alts = vec![];
                let k = rng.range(1, 3);
                for t in 0..k {
                    let j = if t == 0 { (i + 1) % n } else { rng.below(n) };
                    alts.push(vec![lit(["a", "b", "c"][t].into()), nt(&format!("N{}", j))]);
                }
                if rng.chance(1, 2) || i + 1 == n {
                    alts.push(vec![lit(letter(rng, 4))]);
                }
                prod(&mut g, &format!("N{}", i), alts);
            }
            "many-productions"
        }
        3 => {
            // many terminals
            let n = rng.range(20, 64);
            prod(&mut g, "L", vec![vec![nt("L"), nt("I")], vec![nt("I")]]);
            let alts = (0..n).map(|i| vec![lit(format!("t{}", i))]).collect();
            prod(&mut g, "I", alts);
            "many-terminals"
        }
        4 => {
            // the same symbol over and over
            let n = rng.range(3, 20);
            let m = rng.range(2, 12);
            let a: Vec<_> = (0..n).map(|_| lit("a".into())).collect();
            let mut alts = vec![a.clone(), (0..m).map(|_| nt("A")).collect()];
            if rng.chance(1, 2) {
                let mut b = a;
                b.push(nt("A"));
                b.push(nt("A"));
                alts.push(b);
            }
            prod(&mut g, "S", alts);
            prod(&mut g, "A", vec![vec![lit("x".into())], vec![lit("y".into()), lit("y".into())]]);
            "repeated-symbols"
        }
        5 => {
            // one nonterminal in many contexts: many canonical states merge
            let n = rng.range(4, 14);
            let alts = (0..n).map(|i| vec![lit(format!("l{}", i)), nt("A"), lit(format!("r{}", if rng.chance(1, 4) { 0 } else { i }))]).collect();
            prod(&mut g, "S", alts);
            prod(&mut g, "A", vec![vec![nt("A"), lit("+".into()), nt("B")], vec![nt("B")]]);
            prod(&mut g, "B", vec![vec![lit("x".into())], vec![lit("[".into()), nt("A"), lit("]".into())]]);
            "many-contexts"
        }
        6 => {
            // a chain of unit productions
            let n = rng.range(9, 30);
            for i in 0..n {
                let mut alts = vec![vec![nt(&format!("U{}", i + 1))]];
                if rng.chance(1, 3) {
                    alts.push(vec![lit(format!("u{}", i))]);
                }
                prod(&mut g, &format!("U{}", i), alts);
            }
            prod(&mut g, &format!("U{}", n), vec![vec![lit("x".into())], vec![lit("(".into()), nt("U0"), lit(")".into())]]);
            "unit-chain"
        }
        7 => {
            // precedence levels
            let n = rng.range(4, 9);
            for i in 0..n {
                let (me, next) = (format!("E{}", i), format!("E{}", i + 1));
                let mut alts = vec![];
                let right = rng.chance(1, 3);
                for k in 0..rng.range(1, 3) {
                    let op = lit(format!("{}{}", ["+", "*", "-"][k], i));
                    alts.push(if right { vec![nt(&next), op, nt(&me)] } else { vec![nt(&me), op, nt(&next)] });
                }
                alts.push(vec![nt(&next)]);
                prod(&mut g, &me, alts);
            }
            prod(&mut g, &format!("E{}", n), vec![vec![lit("x".into())], vec![lit("(".into()), nt("E0"), lit(")".into())]]);
            "precedence"
        }
        8 => {
            // statements with different shapes and a shared tail
            let n = rng.range(6, 18);
            prod(&mut g, "P", vec![vec![nt("P"), lit(";".into()), nt("St")], vec![nt("St")]]);
            let mut alts = vec![];
            for i in 0..n {
                let mut a = vec![lit(format!("kw{}", i))];
                for _ in 0..rng.range(0, 4) {
                    a.push(match rng.below(3) {
                        0 => nt("Id"),
                        1 => lit(format!("sep{}", rng.below(3))),
                        _ => nt("Blk"),
                    });
                }
                alts.push(a);
            }
            prod(&mut g, "St", alts);
            prod(&mut g, "Blk", vec![vec![lit("{".into()), nt("P"), lit("}".into())]]);
            prod(&mut g, "Id", vec![vec![lit("v".into())], vec![lit("w".into())]]);
            "statements"
        }
        9 => {
            // left recursion through a cycle
            let n = rng.range(3, 12);
            for i in 0..n {
                let (me, next) = (format!("C{}", i), format!("C{}", (i + 1) % n));
                prod(&mut g, &me, vec![vec![nt(&next), lit(format!("t{}", i))], vec![lit(format!("b{}", i))]]);
            }
            "left-cycle"
        }
        _ => {
            // right recursion: nothing is reduced before the end
            let k = rng.range(1, 8);
            prod(&mut g, "R", (0..k).map(|i| vec![lit(format!("e{}", i)), nt("R")]).chain([vec![lit("z".into())]]).collect());
            "right-list"
        }
    };
    if rng.chance(1, 8) {
        g = split(rng, &g);
    }
    (label, g)
}

/// More than 256 of something. LALR(1) as built here.
pub fn huge(rng: &mut Rng) -> (&'static str, Gram) {
    let lit = |s: String| (None, Sym::Lit(s));
    let nt = |s: String| (None, Sym::Nt(s));
    let n = rng.range(257, 300);
    let mut prods: Vec<(String, Vec<Vec<(Option<String>, Sym)>>)> = vec![];
    let label = match rng.below(4) {
        0 => {
            let mut a: Vec<_> = (0..n).map(|i| if i % 17 == 5 { nt("A".into()) } else { lit(["a", "b", "c"][rng.below(3)].into()) }).collect();
            let mut b = a.clone();
            a.push(lit("x".into()));
            b.push(lit("y".into()));
            prods.push(("S".into(), vec![a, b, vec![lit("q".into())]]));
            prods.push(("A".into(), vec![vec![lit("d".into())], vec![lit("(".into()), nt("S".into()), lit(")".into())]]));
            "long-alternative"
        }
        1 => {
            // alternatives numbered in base 3, so few terminals
            let alts = (0..n)
                .map(|i| {
                    let mut v: Vec<_> = (0..6).map(|d| lit(["a", "b", "c"][i / 3usize.pow(d) % 3].into())).collect();
                    if i % 50 == 7 {
                        v.push(nt("S".into()));
                    }
                    v.push(lit(";".into()));
                    v
                })
                .collect();
            prods.push(("S".into(), alts));
            "many-alternatives"
        }
        2 => {
            let mut alts: Vec<_> = (0..n).map(|i| vec![lit(format!("t{}", i))]).collect();
            alts.push(vec![lit("(".into()), nt("S".into()), lit(")".into())]);
            prods.push(("S".into(), alts));
            "many-terminals"
        }
        _ => {
            prods.push(("S".into(), (0..n).map(|i| vec![nt(format!("N{}", i))]).collect()));
            for i in 0..n {
                prods.push((format!("N{}", i), vec![vec![lit(format!("t{}", i))]]));
            }
            "many-productions"
        }
    };
    let mut g = Gram::default();
    for (i, (name, alts)) in prods.into_iter().enumerate() {
        let bodies = alts
            .into_iter()
            .enumerate()
            .map(|(k, syms)| Body { syms, map: format!("{{ k: \"{}\", n: {} }}", name, k) })
            .collect();
        g.prods.push(Prod { name, ts: String::new(), start: i == 0, bodies });
    }
    (label, g)
}

/// small shapes over two productions and two terminals
pub fn small(rng: &mut Rng) -> Gram {
    let syms = [Sym::Nt("S".into()), Sym::Nt("A".into()), Sym::Lit("a".into()), Sym::Lit("b".into())];
    let mut prods = vec![];
    for (i, n) in ["S", "A"].iter().enumerate() {
        let na = rng.range(1, 3);
        let bodies = (0..na)
            .map(|_| {
                let len = rng.range(1, 3);
                Body { syms: (0..len).map(|_| (None, rng.pick(&syms).clone())).collect(), map: "1".into() }
            })
            .collect();
        prods.push(Prod { name: n.to_string(), ts: String::new(), start: i == 0, bodies });
    }
    Gram { prods }
}
