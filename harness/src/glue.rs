//! The only place that translates between the code under test and the independent model.
use crate::model::*;
use bumpalo::Bump;
use typelalr::parser::{ast, Symbol};

pub fn ast_to_gram(v: &[ast::Production]) -> Gram {
    Gram {
        prods: v
            .iter()
            .map(|p| Prod {
                name: p.name.0.to_string(),
                ts: p.ts_code.to_string(),
                start: p.is_start,
                bodies: p
                    .bodies
                    .iter()
                    .map(|b| Body {
                        syms: b.input_tokens.iter().map(sym).collect(),
                        map: b.mapping_fn.to_string(),
                    })
                    .collect(),
            })
            .collect(),
    }
}

fn sym(s: &ast::InputSymbol) -> (Option<String>, Sym) {
    match s {
        ast::InputSymbol::StrLit(a) => (None, Sym::Lit(a.to_string())),
        ast::InputSymbol::NonTerminal(a) => (None, Sym::Nt(a.0.to_string())),
        ast::InputSymbol::Regex(a) => (None, Sym::Re(a.to_string())),
        ast::InputSymbol::Named(n) => {
            let (_, s) = sym(n.ty);
            (n.name.map(|i| i.0.to_string()), s)
        }
        other => (None, Sym::Lit(format!("<unexpected {:?}>", other))),
    }
}

pub fn symbol(s: &Symbol) -> Option<Sym> {
    match s {
        Symbol::StrLit(a) => Some(Sym::Lit(a.to_string())),
        Symbol::NonTerminal(a) => Some(Sym::Nt(a.0.to_string())),
        Symbol::Regex(a) => Some(Sym::Re(a.to_string())),
        Symbol::Epsilon | Symbol::Eof => None,
    }
}

/// Ok(Err(text)): the front end reported an error.
pub fn read<'a>(bump: &'a Bump, src: &str) -> Result<Vec<ast::Production<'a>>, String> {
    // what is read must not depend on the source staying around
    let mut own = src.to_string();
    let r = {
        let mut support = typelalr::parser::ParserSupport::new(bump);
        typelalr::parser::grammar::ProgramParser::new()
            .parse(&mut support, &own)
            .map_err(|e| format!("{:?}", e))
    };
    own.clear();
    own.extend(std::iter::repeat('#').take(src.len()));
    drop(own);
    r
}

/// The syntax tree the reader would build (used where running the reader is too expensive).
pub fn gram_to_ast<'a>(bump: &'a Bump, g: &Gram) -> Vec<ast::Production<'a>> {
    fn sym<'a>(bump: &'a Bump, s: &Sym) -> ast::InputSymbol<'a> {
        match s {
            Sym::Lit(t) => ast::InputSymbol::StrLit(bump.alloc_str(t)),
            Sym::Nt(t) => ast::InputSymbol::NonTerminal(ast::Ident(bump.alloc_str(t))),
            Sym::Re(t) => ast::InputSymbol::Regex(bump.alloc_str(t)),
        }
    }
    g.prods
        .iter()
        .map(|p| ast::Production {
            name: ast::Ident(bump.alloc_str(&p.name)),
            is_start: p.start,
            ts_code: bump.alloc_str(&p.ts),
            bodies: p
                .bodies
                .iter()
                .map(|b| ast::ProductionBody {
                    mapping_fn: bump.alloc_str(&b.map),
                    input_tokens: b
                        .syms
                        .iter()
                        .map(|(n, s)| match n {
                            None => sym(bump, s),
                            Some(n) => {
                                let ty: &'a ast::InputSymbol<'a> = bump.alloc(sym(bump, s));
                                ast::InputSymbol::Named(bump.alloc(ast::NamedSymbol { name: Some(ast::Ident(bump.alloc_str(n))), ty }))
                            }
                        })
                        .collect(),
                })
                .collect(),
        })
        .collect()
}

/// Terminal kinds of a grammar in lexing priority order: literals by text, then regexes by text.
pub fn kinds(g: &Gram) -> Vec<Sym> {
    let mut lits = std::collections::BTreeSet::new();
    let mut res = std::collections::BTreeSet::new();
    for p in &g.prods {
        for b in &p.bodies {
            for (_, s) in &b.syms {
                match s {
                    Sym::Lit(l) => {
                        lits.insert(l.clone());
                    }
                    Sym::Re(r) => {
                        res.insert(r.clone());
                    }
                    Sym::Nt(_) => {}
                }
            }
        }
    }
    lits.into_iter().map(Sym::Lit).chain(res.into_iter().map(Sym::Re)).collect()
}

pub fn hir_of(s: &Sym) -> Option<regex_syntax::hir::Hir> {
    use regex_syntax::hir::{Hir, Literal};
    match s {
        Sym::Lit(l) => Some(Hir::concat(l.chars().map(|c| Hir::literal(Literal::Unicode(c))).collect())),
        Sym::Re(r) => crate::rx::parse(r),
        Sym::Nt(_) => None,
    }
}

pub fn text(s: &Sym) -> &str {
    match s {
        Sym::Lit(t) | Sym::Re(t) | Sym::Nt(t) => t,
    }
}

/// Do all terminals have different texts (a precondition of several properties)?
pub fn distinct_texts(g: &Gram) -> bool {
    let k = kinds(g);
    let t: std::collections::BTreeSet<&str> = k.iter().map(text).collect();
    t.len() == k.len()
}

/// All regexes valid and supported?
pub fn regexes_ok(g: &Gram) -> bool {
    kinds(g).iter().all(|k| hir_of(k).map_or(false, |h| !crate::rx::unsupported(&h)))
}

/// How the numbers of the grammar model relate to those of the oracle, by content.
pub struct Maps {
    /// rule number in the model -> rule number in the oracle
    pub rule: Vec<usize>,
    /// symbol number in the model -> terminal number in the oracle
    pub term: std::collections::BTreeMap<u32, u32>,
    /// terminal number in the oracle -> symbol number in the model
    pub term_back: std::collections::BTreeMap<u32, u32>,
}

pub fn maps(gr: &typelalr::parser::Grammar, c: &Cfg) -> Result<Maps, String> {
    let mut used = vec![false; c.rules.len()];
    let mut rule = vec![];
    for (i, p) in gr.iter_productions().enumerate() {
        let want: Option<Vec<S>> = p
            .input_tokens
            .iter()
            .map(|s| match symbol(s)? {
                Sym::Nt(n) => c.nt(&n).map(S::N),
                t => c.term(&t).map(S::T),
            })
            .collect();
        let want = want.ok_or_else(|| format!("rule {} of the model uses a symbol the grammar does not have", i))?;
        let j = (0..c.rules.len()).find(|j| {
            let l = c.rules[*j].0;
            !used[*j] && c.rules[*j].1 == want && if i == 0 { l == 0 } else { l != 0 && c.nts[l as usize] == p.name.0 }
        });
        match j {
            Some(j) => {
                used[j] = true;
                rule.push(j);
            }
            None => return Err(format!("rule {} of the model ({}) is not a rule of the grammar", i, p.name.0)),
        }
    }
    if used.iter().any(|u| !u) {
        return Err("the model lacks a rule of the grammar".into());
    }
    let mut term = std::collections::BTreeMap::new();
    let mut term_back = std::collections::BTreeMap::new();
    for (i, t) in gr.tokens().enumerate() {
        let o = match t {
            Symbol::Eof => 0,
            t => match symbol(t) {
                Some(Sym::Nt(_)) | None => continue,
                Some(s) => c.term(&s).ok_or("the model has a terminal the grammar does not have")?,
            },
        };
        term.insert(i as u32, o);
        term_back.insert(o, i as u32);
    }
    Ok(Maps { rule, term, term_back })
}

/// Does a failure look like an internal error rather than a refusal?
pub fn internal(msg: &str) -> bool {
    [
        "index out of bounds", "called `Option::unwrap()`", "called `Result::unwrap()`", "attempt to ", "out of range", "byte index",
        "Stack is empty", "Goto is empty", "Production is undefined", "unreachable", "not yet implemented", "not implemented",
        "explicit panic", "already borrowed", "already mutably", "assertion", "has been dropped", "capacity overflow", "entered unreachable",
        "slice index", "expected fn",
    ]
    .iter()
    .any(|p| msg.contains(p))
}

/// an observed item set in the numbers of the reference
pub fn item_set(s: &typelalr::lalr::item::ItemSet, m: &Maps) -> Result<crate::lr::State, String> {
    let mut o = crate::lr::State::new();
    for (item, las) in s.iter() {
        let r = *m.rule.get(item.production_idx().0 as usize).ok_or("an item of an unknown rule")?;
        let mut set = crate::lr::TSet::new();
        for t in las {
            set.insert(*m.term.get(&t.0).ok_or_else(|| format!("lookahead {} is no terminal", t.0))?);
        }
        o.insert((r, item.dot() as usize), set);
    }
    Ok(o)
}
