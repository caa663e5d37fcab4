//! Type annotations and mappings with a known meaning: generation, printing as TypeScript, and
//! evaluation on a parse tree.
use crate::model::*;
use crate::util::{jstr, Rng};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(String),
    Num(i64),
    Raw(&'static str), // true, false, null, undefined
    Tup(Vec<Val>),
    Obj(Vec<(String, Val)>),
}

impl Val {
    fn size(&self) -> usize {
        match self {
            Val::Str(s) => 1 + s.len(),
            Val::Num(_) | Val::Raw(_) => 1,
            Val::Tup(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            Val::Obj(v) => 1 + v.iter().map(|x| x.1.size()).sum::<usize>(),
        }
    }

    pub fn ts(&self) -> String {
        match self {
            Val::Str(s) => jstr(s),
            Val::Num(n) => n.to_string(),
            Val::Raw(r) => r.to_string(),
            Val::Tup(v) => format!("[{}]", v.iter().map(|x| x.ts()).collect::<Vec<_>>().join(", ")),
            Val::Obj(v) => format!("{{ {} }}", v.iter().map(|(k, x)| format!("{}: {}", jstr(k), x.ts())).collect::<Vec<_>>().join(", ")),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Map {
    Str(String),
    Num(i64),
    Raw(&'static str),
    Var(String),
    /// field `k` of an object-valued part
    Field(String),
    Tup(Vec<(bool, Map)>),
    Obj(Vec<(String, Map)>),
    /// text with embedded string-valued parts
    Tpl(Vec<(String, Option<String>)>),
    /// (part, text compared with, then, else)
    Cond(String, String, Box<Map>, Box<Map>),
}

impl Map {
    fn ts(&self) -> String {
        match self {
            Map::Str(s) => jstr(s),
            Map::Num(n) => n.to_string(),
            Map::Raw(r) => r.to_string(),
            Map::Var(v) => v.clone(),
            Map::Field(v) => format!("{}['k']", v),
            Map::Tup(v) => format!("[{}]", v.iter().map(|(s, m)| format!("{}{}", if *s { "..." } else { "" }, m.ts())).collect::<Vec<_>>().join(", ")),
            Map::Obj(v) => format!("{{ {} }}", v.iter().map(|(k, m)| format!("{}: {}", k, m.ts())).collect::<Vec<_>>().join(", ")),
            Map::Tpl(v) => format!(
                "`{}`",
                v.iter()
                    .map(|(t, x)| format!("{}{}", t, x.as_ref().map(|x| format!("${{{}}}", x)).unwrap_or_default()))
                    .collect::<String>()
            ),
            Map::Cond(v, t, a, b) => format!("{} extends {} ? {} : {}", v, jstr(t), a.ts(), b.ts()),
        }
    }

    fn eval(&self, env: &BTreeMap<String, Val>) -> Val {
        match self {
            Map::Str(s) => Val::Str(s.clone()),
            Map::Num(n) => Val::Num(*n),
            Map::Raw(r) => Val::Raw(r),
            Map::Var(v) => env[v].clone(),
            Map::Field(v) => match &env[v] {
                Val::Obj(f) => f.iter().find(|(k, _)| k == "k").map(|(_, v)| v.clone()).expect("field"),
                _ => panic!("field of a non-object"),
            },
            Map::Tup(v) => {
                let mut o = vec![];
                for (s, m) in v {
                    match (s, m.eval(env)) {
                        (true, Val::Tup(t)) => o.extend(t),
                        (true, _) => panic!("spread of a non-tuple"),
                        (false, x) => o.push(x),
                    }
                }
                Val::Tup(o)
            }
            Map::Obj(v) => Val::Obj(v.iter().map(|(k, m)| (k.clone(), m.eval(env))).collect()),
            Map::Tpl(v) => {
                let mut o = String::new();
                for (t, x) in v {
                    o.push_str(t);
                    if let Some(x) = x {
                        match &env[x] {
                            Val::Str(s) => o.push_str(s),
                            _ => panic!("template of a non-string"),
                        }
                    }
                }
                Val::Str(o)
            }
            Map::Cond(v, t, a, b) => match &env[v] {
                Val::Str(s) if s == t => a.eval(env),
                Val::Str(_) => b.eval(env),
                _ => panic!("condition on a non-string"),
            },
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cat {
    Any,
    Arr,
    Obj,
    Str,
}

/// Per written alternative, in order (so rule number - 1).
pub struct Sem {
    pub rules: Vec<(Vec<Option<String>>, Map)>,
    pub cats: BTreeMap<String, Cat>,
}

fn leaf(rng: &mut Rng, vars: &[(String, Option<Cat>, Option<String>)]) -> Map {
    if !vars.is_empty() && rng.chance(2, 3) {
        let (v, cat, _) = rng.pick(vars);
        if *cat == Some(Cat::Obj) && rng.chance(1, 3) {
            return Map::Field(v.clone());
        }
        return Map::Var(v.clone());
    }
    match rng.below(4) {
        0 => Map::Num(rng.below(100) as i64),
        1 => Map::Raw(*rng.pick(&["true", "false", "null", "undefined"])),
        2 => Map::Str(rng.pick(&["x", "", "a b", "a  b", " a", "b  ", "q\"", "it's", "\\", "é", "=>", "(1)"]).to_string()),
        _ => Map::Str(format!("s{}", rng.below(10))),
    }
}

fn tuple(rng: &mut Rng, vars: &[(String, Option<Cat>, Option<String>)], depth: usize) -> Map {
    let n = rng.below(4);
    let mut v = vec![];
    for _ in 0..n {
        v.push((false, value(rng, vars, depth)));
    }
    for (x, cat, _) in vars {
        if *cat == Some(Cat::Arr) && rng.chance(2, 3) {
            let k = rng.below(v.len() + 1);
            v.insert(k, (true, Map::Var(x.clone())));
        }
    }
    Map::Tup(v)
}

fn object(rng: &mut Rng, vars: &[(String, Option<Cat>, Option<String>)], depth: usize, k: Map) -> Map {
    let mut v = vec![("k".to_string(), k)];
    for f in ["l", "r", "value", "kind"] {
        if rng.chance(1, 3) {
            v.push((f.to_string(), value(rng, vars, depth)));
        }
    }
    Map::Obj(v)
}

fn text(rng: &mut Rng, vars: &[(String, Option<Cat>, Option<String>)]) -> Map {
    let strs: Vec<&String> = vars.iter().filter(|v| v.1.is_none() || v.1 == Some(Cat::Str)).map(|v| &v.0).collect();
    if strs.is_empty() {
        return Map::Str(format!("t{}", rng.below(5)));
    }
    match rng.below(3) {
        0 => Map::Var(rng.pick(&strs).to_string()),
        _ => {
            let n = rng.range(1, 3);
            Map::Tpl((0..n).map(|_| (rng.pick(&["", "-", "<", "a", "-  -"]).to_string(), if rng.chance(4, 5) { Some(rng.pick(&strs).to_string()) } else { None })).collect())
        }
    }
}

fn value(rng: &mut Rng, vars: &[(String, Option<Cat>, Option<String>)], depth: usize) -> Map {
    if depth == 0 || rng.chance(1, 3) {
        return leaf(rng, vars);
    }
    match rng.below(6) {
        0 | 1 => tuple(rng, vars, depth - 1),
        2 | 3 => {
            let k = leaf(rng, vars);
            object(rng, vars, depth - 1, k)
        }
        4 => text(rng, vars),
        _ => {
            let toks: Vec<_> = vars.iter().filter(|v| v.1.is_none()).cloned().collect();
            if toks.is_empty() {
                return leaf(rng, vars);
            }
            let t = rng.pick(&toks).clone();
            let cmp = t.2.filter(|_| rng.chance(1, 2)).unwrap_or_else(|| "x".into());
            Map::Cond(t.0, cmp, Box::new(leaf(rng, vars)), Box::new(leaf(rng, vars)))
        }
    }
}

/// Now and then a comment in a fragment: it must not change what the fragment means.
fn comment(rng: &mut Rng, frag: &mut String) {
    match rng.below(24) {
        0 => frag.push_str(rng.pick(&[" // one", " //", " // it's \"so\"", " // (a)", " // }]", " // `"])),
        1 => frag.push_str(" /* {( */"),
        2 => *frag = format!("/* => , */ {}", frag),
        _ => {}
    }
}

/// Put bindings, annotations and mappings on a grammar. All pieces of a production get one
/// annotation.
pub fn annotate(rng: &mut Rng, g: &mut Gram) -> Sem {
    let mut cats: BTreeMap<String, Cat> = BTreeMap::new();
    for p in &g.prods {
        cats.entry(p.name.clone()).or_insert(*rng.pick(&[Cat::Any, Cat::Any, Cat::Arr, Cat::Obj, Cat::Str]));
    }
    let all: Vec<String> = g.prods.iter().map(|p| p.name.clone()).collect();
    let mut rules = vec![];
    let mut notes: BTreeMap<String, String> = BTreeMap::new();
    let mut written = vec![];
    for p in &mut g.prods {
        let cat = cats[&p.name];
        p.ts = match cat {
            Cat::Any => rng.pick(&["", " ", "any", "unknown"]).to_string(),
            Cat::Arr if rng.chance(1, 5) => format!("Array<unknown | {}>", rng.pick(&all)),
            Cat::Obj if rng.chance(1, 5) => format!("{{ k: any, other?: {} }}", rng.pick(&all)),
            Cat::Arr => rng.pick(&["any[]", "Array<any>", "unknown[]", "readonly unknown[]"]).to_string(),
            Cat::Obj => rng.pick(&["{ k: any }", "{ k: unknown }", "{ k: any, l?: any }", "{ k: any } & {}"]).to_string(),
            Cat::Str => rng.pick(&["string", "string | number", "(string)"]).to_string(),
        };
        if p.ts == "string | number" {
            // a part of this production could then not be put into a template
            p.ts = "string".into();
        }
        if !p.ts.trim().is_empty() {
            comment(rng, &mut p.ts);
        }
        p.ts = notes.entry(p.name.clone()).or_insert(p.ts.clone()).clone();
        for b in &mut p.bodies {
            // now and then the very mapping of an earlier alternative, its names bound elsewhere
            if !written.is_empty() && rng.chance(1, 4) {
                let (c0, vars0, m0, text0): &(Cat, Vec<(String, Option<Cat>, Option<String>)>, Map, String) = rng.pick(&written);
                if *c0 == cat {
                    let mut names: Vec<Option<String>> = vec![None; b.syms.len()];
                    let fits = vars0.iter().all(|(v, vc, _)| {
                        let free: Vec<usize> = (0..b.syms.len())
                            .filter(|i| {
                                names[*i].is_none()
                                    && *vc
                                        == match &b.syms[*i].1 {
                                            Sym::Nt(m) => Some(cats[m.as_str()]),
                                            _ => None,
                                        }
                            })
                            .collect();
                        if free.is_empty() {
                            return false;
                        }
                        names[*rng.pick(&free)] = Some(v.clone());
                        true
                    });
                    if fits {
                        for (s, n) in b.syms.iter_mut().zip(&names) {
                            s.0 = n.clone();
                        }
                        b.map = text0.clone();
                        rules.push((names, m0.clone()));
                        continue;
                    }
                }
            }
            let mut vars = vec![];
            for (i, (n, s)) in b.syms.iter_mut().enumerate() {
                *n = None;
                if rng.chance(2, 3) {
                    // sometimes the name of a production, or one the generated module has elsewhere
                    let mut v = match rng.below(8) {
                        0 => format!("p{}", i),
                        1 => format!("left{}", i),
                        2 => format!("_v{}", i),
                        3 => format!("value{}", i),
                        4 => format!("Arg{}", i),
                        5 => rng.pick(&["S", "T", "x", "y", "value", "kind", "token", "k", "l", "e", "left", "right", "i", "a", "_", "__", "x_1"]).to_string(),
                        6 => rng.pick(&["Symbol", "Token", "Tokens", "Production", "Action", "Goto", "Parse", "Lex", "name", "tokens", "shift", "reduce", "accept", "head", "tail", "rest", "input", "stack", "Production0"]).to_string(),
                        _ => rng.pick(&all).clone(),
                    };
                    while vars.iter().any(|x: &(String, Option<Cat>, Option<String>)| x.0 == v) {
                        v.push('q');
                    }
                    let (c, t) = match s {
                        Sym::Nt(m) => (Some(cats[m.as_str()]), None),
                        Sym::Lit(t) => (None, Some(t.clone())),
                        Sym::Re(_) => (None, None),
                    };
                    vars.push((v.clone(), c, t));
                    *n = Some(v);
                }
            }
            let m = match cat {
                Cat::Any => value(rng, &vars, 2),
                Cat::Arr => tuple(rng, &vars, 1),
                Cat::Obj => {
                    let k = value(rng, &vars, 1);
                    object(rng, &vars, 1, k)
                }
                Cat::Str => text(rng, &vars),
            };
            // a fragment must stay on one line
            b.map = m.ts();
            if rng.chance(1, 6) {
                b.map = format!("({})", b.map);
            }
            comment(rng, &mut b.map);
            if vars.len() < 4 {
                written.push((cat, vars, m.clone(), b.map.clone()));
            }
            rules.push((b.syms.iter().map(|s| s.0.clone()).collect(), m));
        }
    }
    Sem { rules, cats }
}

/// Value of the start symbol: replay the reductions over the tokens. None if it gets too large to
/// compare (mappings may use a part twice).
pub fn evaluate(sem: &Sem, c: &Cfg, toks: &[(u32, String)], reductions: &[usize]) -> Option<Val> {
    evaluate_seeing(sem, c, toks, reductions, &mut |_, _| {})
}

/// The same, showing every value made on the way with the name of its production.
pub fn evaluate_seeing(sem: &Sem, c: &Cfg, toks: &[(u32, String)], reductions: &[usize], see: &mut dyn FnMut(&str, &Val)) -> Option<Val> {
    // rebuild the tree bottom-up: shift until the reduction's right-hand side is on the stack
    enum N {
        Tok(u32, String),
        Nt(u32, Val),
    }
    let mut st: Vec<N> = vec![];
    let mut next = 0;
    // the canonical derivation: for each reduction, how many tokens were shifted before it is
    // recovered by running the tables again
    for (r, shifted) in reductions_with_positions(c, toks, reductions) {
        while next < shifted {
            st.push(N::Tok(toks[next].0, toks[next].1.clone()));
            next += 1;
        }
        let rhs = &c.rules[r].1;
        let parts = st.split_off(st.len() - rhs.len());
        let (names, map) = &sem.rules[r - 1];
        let mut env = BTreeMap::new();
        for (p, n) in parts.into_iter().zip(names) {
            let v = match p {
                N::Tok(_, s) => Val::Str(s),
                N::Nt(_, v) => v,
            };
            if let Some(n) = n {
                env.insert(n.clone(), v);
            }
        }
        let v = map.eval(&env);
        if v.size() > 1500 {
            return None;
        }
        see(&c.nts[c.rules[r].0 as usize], &v);
        st.push(N::Nt(c.rules[r].0, v));
    }
    match st.pop() {
        Some(N::Nt(_, v)) if st.is_empty() => Some(v),
        _ => panic!("evaluation did not end in one value"),
    }
}

/// Where the tables refuse the tokens: after how many steps, at which token, and the symbols they
/// have read by then (most recent first) as a type. None if they accept, or a value is too large.
pub fn refusal(sem: &Sem, c: &Cfg, l: &crate::lr::Lalr, toks: &[(u32, String)]) -> Option<(usize, usize, String)> {
    use crate::lr::Act;
    let mut st = vec![0usize];
    let mut syms: Vec<(Option<u32>, Val)> = vec![]; // nonterminal, or none for a token
    let mut names: Vec<String> = vec![];
    let (mut i, mut steps) = (0, 0);
    loop {
        let a = toks.get(i).map_or(0, |t| t.0);
        match l.action[*st.last().unwrap()].get(&a).and_then(|s| s.iter().next()) {
            None => break,
            Some(Act::Accept) => return None,
            Some(Act::Shift(j)) => {
                st.push(*j);
                syms.push((None, Val::Str(toks[i].1.clone())));
                names.push(match &c.terminals[a as usize] {
                    Sym::Lit(t) | Sym::Re(t) | Sym::Nt(t) => t.clone(),
                });
                i += 1;
            }
            Some(Act::Reduce(r)) => {
                let k = st.len() - c.rules[*r].1.len();
                st.truncate(k);
                names.truncate(k - 1);
                let parts = syms.split_off(k - 1);
                let (binds, map) = &sem.rules[*r - 1];
                let env = binds.iter().zip(parts).filter_map(|(n, p)| n.clone().map(|n| (n, p.1))).collect();
                let v = map.eval(&env);
                if v.size() > 1500 {
                    return None;
                }
                let g = l.goto[*st.last().unwrap()].get(&c.rules[*r].0)?;
                st.push(*g);
                names.push(c.nts[c.rules[*r].0 as usize].clone());
                syms.push((Some(c.rules[*r].0), v));
            }
        }
        steps += 1;
    }
    let shown: Vec<String> = syms
        .iter()
        .zip(&names)
        .rev()
        .map(|((nt, v), n)| match nt {
            Some(_) => format!("{{ kind: {}, value: {} }}", jstr(n), v.ts()),
            None => format!("{{ token: {{ kind: {}, value: {} }} }}", jstr(n), v.ts()),
        })
        .collect();
    Some((steps, i, format!("[{}]", shown.join(", "))))
}

fn reductions_with_positions(c: &Cfg, toks: &[(u32, String)], red: &[usize]) -> Vec<(usize, usize)> {
    // A rightmost derivation in reverse determines the positions: expand it from the start symbol.
    // sentential form as a stack of symbols; walk the reductions backwards (leftmost last).
    let mut spans: Vec<(usize, usize)> = vec![];
    let mut end = toks.len();
    let mut form: Vec<S> = c.rules[0].1.clone();
    for r in red.iter().rev() {
        // skip trailing terminals
        while let Some(S::T(_)) = form.last() {
            form.pop();
            end -= 1;
        }
        let top = form.pop();
        assert!(top == Some(S::N(c.rules[*r].0)), "not a rightmost derivation");
        spans.push((*r, end));
        form.extend(c.rules[*r].1.iter().copied());
    }
    spans.reverse();
    spans
}

/// Declared types whose meaning on values is known.
#[derive(Clone, Debug)]
pub enum Ty {
    Any(&'static str), // "", any, unknown
    Base(&'static str), // string, number, boolean
    Lit(Val),
    /// texts that begin so
    Prefix(String),
    Arr(Box<Ty>, bool),
    /// fixed parts, then any number of the rest
    Tup(Vec<Ty>, Option<Box<Ty>>),
    /// name, optional
    Obj(Vec<(String, bool, Ty)>),
    Or(Vec<Ty>),
    /// the declared type of a production
    Prod(String),
}

impl Ty {
    pub fn ts(&self) -> String {
        match self {
            Ty::Any(s) | Ty::Base(s) => s.to_string(),
            Ty::Lit(v) => v.ts(),
            Ty::Prefix(s) => format!("`{}${{string}}`", s),
            Ty::Arr(t, false) => format!("Array<{}>", t.ts()),
            Ty::Arr(t, true) => format!("({})[]", t.ts()),
            Ty::Tup(v, r) => format!(
                "[{}]",
                v.iter().map(|t| t.ts()).chain(r.iter().map(|t| format!("...Array<{}>", t.ts()))).collect::<Vec<_>>().join(", ")
            ),
            Ty::Obj(v) => format!("{{ {} }}", v.iter().map(|(k, o, t)| format!("{}{}: {}", k, if *o { "?" } else { "" }, t.ts())).collect::<Vec<_>>().join(", ")),
            Ty::Or(v) => format!("({})", v.iter().map(|t| t.ts()).collect::<Vec<_>>().join(" | ")),
            Ty::Prod(n) => n.clone(),
        }
    }

    pub fn fits(&self, v: &Val, of: &BTreeMap<String, Ty>) -> bool {
        match (self, v) {
            (Ty::Any(_), _) => true,
            (Ty::Base("string"), Val::Str(_)) | (Ty::Base("number"), Val::Num(_)) | (Ty::Base("boolean"), Val::Raw("true" | "false")) => true,
            (Ty::Base(_), _) => false,
            (Ty::Lit(x), v) => x == v,
            (Ty::Prefix(p), Val::Str(s)) => s.starts_with(p.as_str()),
            (Ty::Arr(t, _), Val::Tup(v)) => v.iter().all(|x| t.fits(x, of)),
            (Ty::Tup(ts, r), Val::Tup(v)) => {
                v.len() >= ts.len()
                    && v.iter().enumerate().all(|(i, x)| match (ts.get(i), r) {
                        (Some(t), _) => t.fits(x, of),
                        (None, Some(t)) => t.fits(x, of),
                        (None, None) => false,
                    })
            }
            (Ty::Obj(fs), Val::Obj(v)) => fs.iter().all(|(k, o, t)| match v.iter().find(|(n, _)| n == k) {
                Some((_, Val::Raw("undefined"))) if *o => true,
                Some((_, x)) => t.fits(x, of),
                None => *o,
            }),
            (Ty::Or(ts), v) => ts.iter().any(|t| t.fits(v, of)),
            (Ty::Prod(n), v) => of[n].fits(v, of),
            _ => false,
        }
    }

    fn has_prod(&self) -> bool {
        match self {
            Ty::Prod(_) => true,
            Ty::Arr(t, _) => t.has_prod(),
            Ty::Tup(v, r) => v.iter().any(|t| t.has_prod()) || r.as_ref().map_or(false, |t| t.has_prod()),
            Ty::Obj(v) => v.iter().any(|f| f.2.has_prod()),
            Ty::Or(v) => v.iter().any(|t| t.has_prod()),
            _ => false,
        }
    }

    pub fn closed(&self) -> bool {
        !self.has_prod()
    }
}

/// A type around an observed value: the value fits it, unless `off` moved it a little.
fn ty_of(rng: &mut Rng, v: &Val, all: &[String], depth: usize, off: &mut bool) -> Ty {
    let miss = *off && rng.chance(1, 4);
    if miss {
        *off = false;
    }
    if depth > 0 && !miss && rng.chance(1, 6) {
        return match rng.below(3) {
            0 => Ty::Any("any"),
            1 => Ty::Any("unknown"),
            _ => Ty::Prod(rng.pick(all).clone()), // which may or may not fit
        };
    }
    match v {
        Val::Str(s) => match rng.below(4) {
            // another text, which may differ in its blanks alone
            _ if miss => Ty::Lit(Val::Str(match rng.below(3) {
                0 if s.contains("  ") => s.replace("  ", " "),
                1 if s.contains(' ') => s.replacen(' ', "  ", 1),
                _ => format!("{}'", s),
            })),
            0 => Ty::Base("string"),
            1 => {
                let n = rng.below(s.chars().count() + 1);
                let p: String = s.chars().take(n).take_while(|c| c.is_ascii_alphanumeric() || *c == '-' || *c == ' ').collect();
                Ty::Prefix(p)
            }
            _ => Ty::Lit(v.clone()),
        },
        Val::Num(n) => match rng.below(2) {
            _ if miss => Ty::Lit(Val::Num(n + 1)),
            0 => Ty::Base("number"),
            _ => Ty::Lit(v.clone()),
        },
        Val::Raw(r) => match rng.below(2) {
            _ if miss => Ty::Base("string"),
            0 if *r == "true" || *r == "false" => Ty::Base("boolean"),
            _ => Ty::Lit(v.clone()),
        },
        Val::Tup(xs) => {
            let mut ts: Vec<Ty> = xs.iter().map(|x| ty_of(rng, x, all, depth + 1, off)).collect();
            match rng.below(4) {
                _ if miss => {
                    ts.push(Ty::Any("any"));
                    Ty::Tup(ts, None)
                }
                0 => Ty::Arr(Box::new(if ts.is_empty() { Ty::Base("string") } else { Ty::Or(ts) }), rng.chance(1, 2)),
                1 => {
                    let k = rng.below(ts.len() + 1);
                    let rest = ts.split_off(k);
                    let r = match rest.len() {
                        0 => Ty::Base("number"),
                        1 => rest[0].clone(),
                        _ => Ty::Or(rest),
                    };
                    // what is spread is looked up at once: a production in it could be circular
                    let r = if r.has_prod() { Ty::Any("any") } else { r };
                    Ty::Tup(ts, Some(Box::new(r)))
                }
                2 => Ty::Arr(Box::new(Ty::Any("any")), true),
                _ => Ty::Tup(ts, None),
            }
        }
        Val::Obj(fs) => {
            let mut out = vec![];
            for (i, (k, x)) in fs.iter().enumerate() {
                // the first field is always kept: a type of optional fields only has rules of its own
                if i == 0 || rng.chance(2, 3) {
                    let o = i > 0 && rng.chance(1, 5);
                    out.push((k.clone(), o, ty_of(rng, x, all, depth + 1, off)));
                }
            }
            if rng.chance(1, 4) {
                out.push(("other".into(), true, Ty::Base("string")));
            }
            if miss {
                out.push(("more".into(), false, Ty::Any("unknown")));
            }
            Ty::Obj(out)
        }
    }
}

/// Annotations of known meaning for every production, many of them too narrow for some of the
/// values seen.
pub fn narrow(rng: &mut Rng, g: &mut Gram, sem: &Sem, seen: &BTreeMap<String, Vec<Val>>) -> BTreeMap<String, Ty> {
    let all: Vec<String> = g.prods.iter().map(|p| p.name.clone()).collect();
    let mut tys = BTreeMap::new();
    for p in &mut g.prods {
        if !tys.contains_key(&p.name) {
            let cat = sem.cats[&p.name];
            let wide = match cat {
                Cat::Any => Ty::Any(*rng.pick(&["", " ", "any", "unknown"])),
                Cat::Arr => Ty::Arr(Box::new(Ty::Any("any")), true),
                Cat::Obj => Ty::Obj(vec![("k".into(), false, Ty::Any("any"))]),
                Cat::Str => Ty::Base("string"),
            };
            let vals = seen.get(&p.name).cloned().unwrap_or_default();
            let t = if vals.is_empty() || rng.chance(1, 4) {
                wide
            } else {
                let n = rng.range(1, 4);
                let mut ts: Vec<Ty> = (0..n)
                    .map(|_| {
                        let mut off = rng.chance(1, 4);
                        let v = rng.pick(&vals).clone();
                        ty_of(rng, &v, &all, 0, &mut off)
                    })
                    .collect();
                // parts of this production are used as text, spread or asked for `k`
                if n == 1 {
                    ts.pop().unwrap()
                } else {
                    Ty::Or(ts)
                }
            };
            tys.insert(p.name.clone(), t);
        }
        p.ts = tys[&p.name].ts();
    }
    tys
}
