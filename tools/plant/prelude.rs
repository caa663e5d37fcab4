#![allow(dead_code, unused_imports)]
use bumpalo::Bump;
use std::panic::{catch_unwind, AssertUnwindSafe};
use typelalr::lalr::Lalr;
use typelalr::lex::lex::{Lex, Token, TokenDef};
use typelalr::parser::{ast, Grammar, ParserSupport, Symbol};

fn read<'a>(b: &'a Bump, s: &str) -> Result<Vec<ast::Production<'a>>, String> {
    // a fragment runs to the last parenthesis on its line
    let s = &s.replace("), ", ")\n, ").replace(") ]", ")\n]").replace(") =", ")\n=");
    let mut sup = ParserSupport::new(b);
    typelalr::parser::grammar::ProgramParser::new().parse(&mut sup, s).map_err(|e| format!("{:?}", e))
}
fn build<'a>(b: &'a Bump, s: &str) -> Lalr<'a> {
    let ast: &'a Vec<ast::Production<'a>> = b.alloc(read(b, s).unwrap());
    Lalr::new(Grammar::grammar_from_ast_productions(b, ast))
}
fn builds(s: &str) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        let b = Bump::new();
        build(&b, s);
    }))
    .is_ok()
}
/// None: accepted; Some(message): refused
fn run(s: &str, input: &str) -> Option<String> {
    let b = Bump::new();
    let l = build(&b, s);
    match catch_unwind(AssertUnwindSafe(|| l.parse(input))) {
        Ok(_) => None,
        Err(e) => Some(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into())),
    }
}
fn generate(s: &str) -> (String, String) {
    let b = Bump::new();
    let ast: &Vec<ast::Production> = b.alloc(read(&b, s).unwrap());
    let l: &Lalr = b.alloc(Lalr::new(Grammar::grammar_from_ast_productions(&b, ast)));
    typelalr::codegen::parse_gen::generate(&b, ast, l).unwrap()
}
/// Writes the generated modules and the expectations for check.cjs
fn modules(s: &str, cases: &[(&str, Option<&str>)]) {
    let dir = std::env::args().nth(1).unwrap();
    let (lex, parse) = generate(s);
    std::fs::write(format!("{}/lex_state.gen.ts", dir), lex).unwrap();
    std::fs::write(format!("{}/parse_state2.gen.ts", dir), parse).unwrap();
    let mut a = String::new();
    typelalr::codegen::lex_gen::gen_arithmetic(&mut a, 5000);
    std::fs::write(format!("{}/arith_table.gen.ts", dir), a).unwrap();
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"));
    let list: Vec<String> = cases.iter().map(|(e, w)| format!("[{}, {}]", q(e), w.map(q).unwrap_or("null".into()))).collect();
    std::fs::write(format!("{}/cases.json", dir), format!("[{}]", list.join(", "))).unwrap();
}
fn lexer(toks: &[&str]) -> Lex {
    Lex::from_tokens(
        toks.iter()
            .enumerate()
            .map(|(i, r)| {
                (TokenDef { name: format!("T{}", i), with_val: true, token_idx: Some(i as u32 + 1) }, regex_syntax::Parser::new().parse(r).unwrap())
            })
            .collect(),
    )
}
fn tok(i: usize, text: &str) -> Token {
    Token::new_with_val(format!("T{}", i), text)
}
