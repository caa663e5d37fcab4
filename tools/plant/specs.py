SPECS = {}
def bug(id, property, edits, needs, breaks, demo, kind="rust"):
    SPECS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind)

# ------------------------------------------------------------------ grammar source
bug("F01-trim", "F01", [("src/parser/support.rs",
'''                .take(ts_code_with_paren.chars().count() - 2)
                .collect::<String>(),
''', '''                .take(ts_code_with_paren.chars().count() - 2)
                .collect::<String>()
                .trim_end()
                .to_owned(),
''')],
"a TypeScript fragment that ends in blanks",
"fragments are no longer kept verbatim: trailing blanks are dropped",
r'''
    let b = Bump::new();
    let a = read(&b, "export start S : (any  ) = [ \"a\" => ({ k: 1 } ) ]").unwrap();
    assert_eq!(a[0].ts_code, "any  ");
    assert_eq!(a[0].bodies[0].mapping_fn, "{ k: 1 } ");
''')
bug("F01-shortregex", "F01", [("src/parser/support.rs", "regex_str_with_quotes.len() < 3", "regex_str_with_quotes.len() <= 3")],
"a regex of exactly one byte",
"a one-character regex is read as the empty regex",
r'''
    let b = Bump::new();
    let a = read(&b, "export start S : () = [ r\"a\" \"b\" => (1) ]").unwrap();
    assert!(a[0].bodies[0].input_tokens[0] == ast::InputSymbol::Regex("a"));
''')
bug("F03-order", "F03", [("src/parser/mod.rs", '''    NonTerminal(Ident<'ast>),
    Regex(&'ast str),
    Epsilon,
    Eof,
}

''', '''    Regex(&'ast str),
    NonTerminal(Ident<'ast>),
    Epsilon,
    Eof,
}

''')] if False else [("src/parser/mod.rs", '''    NonTerminal(Ident<'ast>),
    Regex(&'ast str),
    Epsilon,
    Eof,
}
''', '''    Regex(&'ast str),
    NonTerminal(Ident<'ast>),
    Epsilon,
    Eof,
}
''')],
"a grammar with both nonterminals and regexes, looking at the symbol numbers",
"regexes are numbered before nonterminals",
r'''
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, "export start S : () = [ X r\"y\" => (1) ] X : () = [ \"x\" => (1) ]").unwrap());
    let g = Grammar::grammar_from_ast_productions(&b, a);
    let x = g.get_token_idx(&Symbol::NonTerminal(ast::Ident("X"))).unwrap();
    let y = g.get_token_idx(&Symbol::Regex("y")).unwrap();
    assert!(x < y);
''')
bug("F03-lookup", "F03", [("src/parser/mod.rs", "            if tok.eq(input_token) {\n", "            if tok.to_string() == input_token.to_string() {\n")],
"a literal with the same text as a nonterminal's name",
"lookup by symbol finds the symbol of another kind that prints alike",
r'''
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, "export start S : () = [ if \"if\" => (1) ] if : () = [ \"x\" => (1) ]").unwrap());
    let g = Grammar::grammar_from_ast_productions(&b, a);
    for (i, t) in g.tokens().enumerate() {
        assert_eq!(g.get_token_idx(t).unwrap().0 as usize, i);
    }
''')
bug("F03-pieces", "F03", [("src/parser/mod.rs", '''                        entry.get_mut().push(production_idx);
''', '''                        // the alternatives of a production are consecutive
                        let next = entry.get().last().map_or(0, |last| last.0 + 1);
                        if production_idx.0 == next {
                            entry.get_mut().push(production_idx);
                        }
''')],
"a production written in two separate pieces",
"lookup by name loses the rules of the second piece",
r'''
    let s = "export start S : () = [ X \"e\" => (1) ] X : () = [ \"x\" => (1) ] Y : () = [ \"z\" => (1) ] X : () = [ \"y\" => (1) ]";
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, s).unwrap());
    let g = Grammar::grammar_from_ast_productions(&b, a);
    assert_eq!(g.get_production_indices_by_name(ast::Ident("X")).unwrap().len(), 2);
''')
bug("F04-undefined", "F04", [("src/parser/mod.rs", "self.production_name_map.get(&name).unwrap(),", "self.production_name_map.get(&name).map_or(&[], |v| v.as_slice()),")],
"an alternative that uses an undefined production",
"a grammar with an undefined production is accepted",
r'''
    assert!(!builds("export start S : () = [ \"a\" => (1), \"b\" Missing => (2) ]"));
''')
bug("F04-counted", "F04", [("src/lex/nfa.rs", '''                RepetitionKind::OneOrMore
                | RepetitionKind::ZeroOrMore => {''' if False else '''                RepetitionKind::ZeroOrOne
                | RepetitionKind::OneOrMore
                | RepetitionKind::ZeroOrMore => {''', '''                RepetitionKind::ZeroOrOne
                | RepetitionKind::OneOrMore
                | RepetitionKind::ZeroOrMore
                | RepetitionKind::Range(regex_syntax::hir::RepetitionRange::AtLeast(1)) => {'''),
 ("src/lex/nfa.rs", "RepetitionKind::OneOrMore | RepetitionKind::ZeroOrMore\n                    ) {\n                        self.push_edge(s_out", "RepetitionKind::OneOrMore | RepetitionKind::ZeroOrMore | RepetitionKind::Range(_)\n                    ) {\n                        self.push_edge(s_out")],
"a regex with the counted repetition {1,}",
"a regex with an unsupported construct yields a lexer instead of a refusal",
r'''
    assert!(!builds("export start S : () = [ r\"a{1,}\" \"b\" => (1) ]"));
''')
bug("F04-anchor", "F04", [("src/lex/nfa.rs", "            HirKind::Anchor(_) => todo!(),\n", "            HirKind::Anchor(regex_syntax::hir::Anchor::EndText) => OptionUsize::some(accept),\n            HirKind::Anchor(_) => todo!(),\n")],
"a regex ending in $",
"a regex with an anchor yields a lexer instead of a refusal",
r'''
    assert!(!builds("export start S : () = [ r\"ab$\" \"b\" => (1) ]"));
''')
# ------------------------------------------------------------------ lexer
bug("L01-bytes", "L01", [("src/lex/dfa.rs", "                        eaten += 1;\n", "                        eaten += c.len_utf8();\n")],
"a match that contains a multi-byte character",
"the prefix length is counted in bytes, and a whole match of non-ASCII text is refused",
r'''
    use typelalr::lex::{dfa::DFA, nfa::NFA};
    let d = DFA::from_nfa(NFA::from_regex(&regex_syntax::Parser::new().parse("é+").unwrap()));
    assert_eq!(d.simulate("éé"), Some(2));
    assert!(d.test("éé"));
''')
bug("L01-nested", "L01", [("src/lex/nfa.rs", '''                    let s_in = self.compile(&rep.hir, s_out).unwrap();
''', '''                    // x++ is x+, x** is x*: compile what is repeated only once
                    let inner = match rep.hir.kind() {
                        HirKind::Group(group) => match group.hir.kind() {
                            HirKind::Repetition(inner) => &inner.hir,
                            _ => &rep.hir,
                        },
                        _ => &rep.hir,
                    };
                    let s_in = self.compile(inner, s_out).unwrap();
''')],
"a repetition directly inside another of a different kind, like (?:a*)?",
"a nested repetition loses the inner quantifier",
r'''
    use typelalr::lex::nfa::NFA;
    let n = NFA::from_regex(&regex_syntax::Parser::new().parse("b(?:a*)?").unwrap());
    for (s, want) in [("b", true), ("ba", true), ("baa", true), ("a", false)] {
        assert_eq!(n.simulate(s), want, "{}", s);
    }
''')
bug("L01-emptybranch", "L01", [("src/lex/nfa.rs", '''                let targets: Vec<_> = alternations
                    .iter()
''', '''                let targets: Vec<_> = alternations
                    .iter()
                    .take_while(|alt| !matches!(alt.kind(), HirKind::Empty))
''')],
"an alternation with an empty branch",
"the empty branch, and the branches after it, are dropped",
r'''
    use typelalr::lex::nfa::NFA;
    let n = NFA::from_regex(&regex_syntax::Parser::new().parse("a(?:bb||cc)d").unwrap());
    for (s, want) in [("abbd", true), ("ad", true), ("accd", true), ("abd", false)] {
        assert_eq!(n.simulate(s), want, "{}", s);
    }
''')
bug("L02-samestart", "L02", [("src/lex/nfa.rs", "            std::cmp::Ordering::Equal => self.range.end.cmp(&other.range.end),\n", "            std::cmp::Ordering::Equal => std::cmp::Ordering::Equal,\n")],
"two character ranges that start at the same character and end at different ones",
"one of two ranges with the same start is lost from the alphabet",
r'''
    use std::collections::BTreeSet;
    use typelalr::lex::{dfa::remove_overlap, nfa::Match};
    let mut s: BTreeSet<Match> = BTreeSet::new();
    s.insert(Match::from(97..100));
    s.insert(Match::from(97..110));
    let out = remove_overlap(&s);
    assert!((97..110).all(|c| out.iter().filter(|m| m.contains_u32(c)).count() == 1));
''')
bug("L03-tab", "L03", [("src/lex/lex.rs", "            '\\n' | ' ' => true,", "            '\\n' | ' ' | '\\t' => true,")],
"a tab where no token matches",
"a tab is skipped instead of ending tokenising",
r'''
    assert_eq!(lexer(&["a"]).lex("a\ta"), vec![tok(0, "a")]);
''')
bug("L03-longest", "L03", [("src/lex/lex.rs", '''                        last_accepting_state = Some((forward, *nfa_set.first().unwrap()));
''', '''                        // a later match only counts when it extends the one before without a gap
                        match last_accepting_state {
                            Some((at, _)) if at + 2 < forward => (),
                            _ => last_accepting_state = Some((forward, *nfa_set.first().unwrap())),
                        }
''')],
"a longer match separated from the shorter one by three or more characters that do not accept",
"the token emitted is not the longest match",
r'''
    assert_eq!(lexer(&["a", "a(?:bcd)+", "b|c|d"]).lex("abcd"), vec![tok(1, "abcd")]);
''')
bug("L04-shortest", "L04", [("src/lex/lex.rs", "Some((forward, *nfa_set.first().unwrap()));", '''Some((
                            forward,
                            // the most specific kind
                            *nfa_set
                                .iter()
                                .min_by_key(|idx| self.tokens.get(idx).map_or(0, |def| def.name.len() / 4))
                                .unwrap(),
                        ));''')],
"a tie between a kind with a long name and a later one with a short name",
"the tie goes to the kind with the shorter name",
r'''
    let g = "export start S : () = [ \"function\" => (1), r\"[a-z]+\" => (2) ]";
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, g).unwrap());
    let gr = Grammar::grammar_from_ast_productions(&b, a);
    assert_eq!(Lex::from_grammar(&gr).lex("function"), vec![Token::new_with_val("function".into(), "function")]);
''')
bug("L04-sort", "L04", [("src/lex/lex.rs", '''        Self::from_tokens(tokens)
    }
''', '''        // longer names first
        tokens.sort_by_key(|(def, _)| std::cmp::Reverse(def.name.len().min(8)));

        Self::from_tokens(tokens)
    }
''')],
"a regex with a longer source than a literal that it also matches",
"a regex wins over a literal of the same length of match",
r'''
    let g = "export start S : () = [ \"if\" => (1), r\"[a-z]+[a-z]\" => (2) ]";
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, g).unwrap());
    let gr = Grammar::grammar_from_ast_productions(&b, a);
    assert_eq!(Lex::from_grammar(&gr).lex("if"), vec![Token::new_with_val("if".into(), "if")]);
''')
bug("L05-empty", "L05", [("src/lex/lex.rs", '''        tokens
            .into_iter()
            .map(|token| self.token_with_idx(token, &def_map))
''', '''        if tokens.last() == Some(&Token { name: "EOF".into(), val: None }) {
            // already closed
            return tokens.into_iter().map(|t| (t, Grammar::EOF_TOKEN_IDX)).collect();
        }
        tokens
            .into_iter()
            .map(|token| self.token_with_idx(token, &def_map))
''')] if False else [("src/lex/lex.rs", '''                map.insert(def.name.as_str(), def);
                map
''', '''                map.entry(def.name.trim_end()).or_insert(def);
                map
'''), ("src/lex/lex.rs", "def_map.get(token.name.as_str()).unwrap()", "def_map.get(token.name.trim_end()).unwrap()")],
"two literals that differ only in trailing blanks",
"a token gets the number of another kind",
r'''
    let g = "export start S : () = [ \"a\" \"b \" => (1), \"b\" => (2) ]";
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, g).unwrap());
    let gr = Grammar::grammar_from_ast_productions(&b, a);
    let lex = Lex::from_grammar(&gr);
    let got: Vec<u32> = lex.convert_tokens(lex.lex("ab ")).iter().map(|t| t.1 .0).collect();
    let want = vec![gr.get_token_idx(&Symbol::StrLit("a")).unwrap().0, gr.get_token_idx(&Symbol::StrLit("b ")).unwrap().0, 0];
    assert_eq!(got, want);
''')
# ------------------------------------------------------------------ parser tables
bug("P01-shared", "P01", [("src/lalr/first.rs", '''    for (_, production) in grammar.production_iter(*non_terminal) {
''', '''    for (_, production) in grammar.production_iter(*non_terminal) {
        // alternatives that begin like one already seen add nothing
        if production.input_tokens.first().map_or(false, |s| set.contains(s)) {
            break;
        }
''')],
"an alternative that begins with a terminal already in the set, followed by one that begins with a new terminal",
"FIRST misses the terminals of the alternatives after it",
r'''
    let g = "export start S : () = [ X => (1) ] X : () = [ \"a\" \"b\" => (1), \"a\" \"c\" => (2), \"d\" => (3) ]";
    let b = Bump::new();
    let a: &'static Vec<ast::Production> = Box::leak(Box::new(read(Box::leak(Box::new(Bump::new())), g).unwrap()));
    let gr: &'static Grammar = Box::leak(Box::new(Grammar::grammar_from_ast_productions(Box::leak(Box::new(b)), a)));
    let x: &'static Symbol = Box::leak(Box::new(Symbol::NonTerminal(ast::Ident("X"))));
    assert_eq!(typelalr::lalr::first::first(gr, std::iter::once(x)).len(), 2);
''')
bug("P02-reduce", "P02", [("src/lalr/table.rs", '''                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
''', '''                    // the rule written first wins
                    Entry::Occupied(entry) if matches!(entry.get(), Action::Reduce(_)) => entry.into_mut(),
                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
''')],
"a grammar whose only conflicts are between two reductions",
"a grammar that is not LALR(1) is accepted",
r'''
    assert!(!builds("export start S : () = [ A => (1), B => (2) ] A : () = [ \"x\" => (1) ] B : () = [ \"x\" => (2) ]"));
''')
bug("P02-cycle", "P02", [("src/lalr/table.rs", '''                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
''', '''                    Entry::Occupied(entry) if *entry.get() == Action::Accept => continue,
                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
''')] if False else [("src/lalr/table.rs", '''                    Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),
''', '''                    Entry::Vacant(entry) => entry.insert(Action::Reduce(item.production_idx())),
                    Entry::Occupied(entry) if *entry.get() == Action::Accept => continue,
''')],
"a grammar whose start symbol derives itself",
"an ambiguous (cyclic) grammar is accepted: the conflict between accepting and reducing is dropped",
r'''
    assert!(!builds("export start S : () = [ S => (1), \"a\" => (2) ]"));
''')
bug("P03-default", "P03", [("src/lalr/table.rs", '''    for (i, state) in lalr_sets.iter().enumerate() {
        for (_token_idx, production_name) in grammar.non_terminals() {
''', '''    // A state that can only reduce by one rule reduces whatever the lookahead
    for (i, state) in lalr_sets.iter().enumerate() {
        if state.iter().count() != 1 {
            continue;
        }
        let (item, lookaheads) = state.iter().next().unwrap();
        if item.dot_token(grammar).is_none()
            && item.production_idx() != Grammar::AUGMENTED_START_PRODUCTION_IDX
            && lookaheads.len() > 1
        {
            for (token_idx, token) in grammar.tokens().enumerate() {
                if token.is_terminal() {
                    let idx = TokenIdx(token_idx as u32);
                    action.insert((i as u32, idx), Action::Reduce(item.production_idx()));
                }
            }
        }
    }

    for (i, state) in lalr_sets.iter().enumerate() {
        for (_token_idx, production_name) in grammar.non_terminals() {
''')],
"looking at the entries for terminals that cannot follow",
"the tables have extra reduce entries (default reductions)",
r'''
    let g = "export start S : () = [ E => (1) ] E : () = [ E \"+\" T => (1), T => (2) ] T : () = [ \"x\" => (1), \"(\" E \")\" => (2) ]";
    let b = Bump::new();
    let a: &'static Vec<ast::Production> = Box::leak(Box::new(read(Box::leak(Box::new(Bump::new())), g).unwrap()));
    let gr: &'static Grammar = Box::leak(Box::new(Grammar::grammar_from_ast_productions(Box::leak(Box::new(b)), a)));
    let (action, _, _) = typelalr::lalr::table::make_tables(gr);
    let open = gr.get_token_idx(&Symbol::StrLit("(")).unwrap();
    for (_, row) in action.iter() {
        assert!(!matches!(row.get(&open), Some(typelalr::lalr::table::Action::Reduce(_))));
    }
''')
bug("P04-third", "P04", [("src/lalr/table.rs", '''        let other = unsafe { ManuallyDrop::take(&mut lalr_sets[*i]) };
        item_set.union(other);
''', '''        let other = unsafe { ManuallyDrop::take(&mut lalr_sets[*i]) };
        if item_set.iter().ne(other.iter()) && item_set.iter().all(|(_, l)| l.len() < 3) {
            item_set.union(other);
        }
''')],
"a rule used in four or more contexts with different lookaheads",
"the lookaheads of the later contexts are lost when states are merged",
r'''
    let g = "export start S : () = [ \"a\" X \"1\" => (1), \"b\" X \"2\" => (2), \"c\" X \"3\" => (3), \"d\" X \"4\" => (4) ] X : () = [ \"x\" => (1) ]";
    for i in ["a x 1", "b x 2", "c x 3", "d x 4"] {
        assert_eq!(run(g, i), None, "{}", i);
    }
''')
bug("P04-hash", "P04", [("src/lalr/item.rs", '''        for item in self.0.keys() {
            item.hash(&mut h);
        }
        h.finish()
''', '''        // the first few items tell cores apart
        for item in self.0.keys().take(6) {
            item.hash(&mut h);
        }
        h.finish()
''')],
"two states whose first six dotted rules are the same",
"states that hold different dotted rules are merged",
r'''
    // the rules of X come first, the kernels of the two states last
    let g = "X : () = [ \"1\" => (1), \"2\" => (2), \"3\" => (3), \"4\" => (4), \"5\" => (5), \"6\" => (6) ] export start S : () = [ \"a\" X \"p\" => (1), \"b\" X \"q\" => (2) ]";
    assert_eq!(run(g, "a 1 p"), None);
    assert_eq!(run(g, "b 1 q"), None);
    assert!(run(g, "b 1 p").is_some());
''')
bug("P05-guard", "P05", [("src/lalr.rs", '''            loop_count += 1;
''', '''            loop_count += 1;
            if loop_count > 1000 {
                // never loop without end
                break;
            }
''')],
"an input outside the language whose error comes after more than a thousand parser steps",
"a long invalid text is accepted",
r'''
    let g = "export start S : () = [ S \"a\" => (1), \"a\" => (2), \"b\" => (3) ]";
    let bad = format!("{} b", "a".repeat(600));
    assert!(run(g, &bad).is_some());
''')
bug("P05-eof", "P05", [("src/lalr.rs", '''            *i += 1;
            if *i < tokens.len() {
''', '''            *i += 1;
            // equal tokens in a row are read once more at most
            while *i > 1 && *i + 1 < tokens.len() && tokens[*i] == tokens[*i - 1] && tokens[*i] == tokens[*i - 2] && *i > 6 {
                *i += 1;
            }
            if *i < tokens.len() {
''')],
"three equal tokens in a row after the first six tokens",
"tokens are lost, so texts outside the language are accepted and sentences refused",
r'''
    let g = "export start S : () = [ \"b\" \"b\" \"b\" \"b\" \"b\" \"b\" \"a\" \"a\" \"a\" \"a\" \"c\" => (1) ]";
    assert_eq!(run(g, "bbbbbbaaaac"), None);
    assert!(run(g, "bbbbbbaaaaac").is_some());
''')
# ------------------------------------------------------------------ generated modules
bug("C01-truncate", "C01", [("src/codegen/lex_gen.rs", '''                    set.iter()
                        .map(|s| format!("{}", s.value()))
''', '''                    set.iter()
                        .take(64)
                        .map(|s| format!("{}", s.value()))
''')],
"a lexer state that stands for more than 64 states of the nondeterministic automaton",
"the accepting member of a large state set is missing from the generated tables",
r'''
    // 40 alternatives that share a prefix, then a token whose accepting state comes after them
    let alts: Vec<String> = (0..70).map(|i| format!("a[{}-z]", char::from(b'b' + (i % 20) as u8))).collect();
    let g = format!("export start S : () = [ r\"(?:{})q\" => (1), r\"a.\" => (2) ]", alts.join("|"));
    let (lex, _) = generate(&g);
    // every state that accepts lists a state some token belongs to
    let toks: Vec<&str> = lex.split("type TokenDef").skip(1).map(|s| s.split(' ').next().unwrap()).collect();
    let states: Vec<&str> = lex.split("\ntype State").collect::<Vec<_>>();
    let _ = states;
    let table = lex.split("DFAtoNFA = {").nth(1).unwrap();
    for (i, st) in lex.split("type State").skip(1).enumerate() {
        if !st.contains("accepting: true") {
            continue;
        }
        let row = table.split(&format!("\n  {}: [", i)).nth(1).or(table.split(&format!("\n{}: [", i)).nth(1)).unwrap();
        let row: Vec<&str> = row.split(']').next().unwrap().split(',').map(|s| s.trim()).collect();
        assert!(row.iter().any(|r| toks.contains(r)), "state {} accepts nothing", i);
    }
''')
bug("C02-dedup", "C02", [("src/codegen/parse_gen.rs", '''                for token in &production.input_tokens {
                    let idx = self
''', '''                let mut input_tokens = production.input_tokens.clone();
                input_tokens.dedup();
                for token in &input_tokens {
                    let idx = self
''')],
"an alternative with the same symbol twice in a row",
"the generated rule is shorter than the written one",
r'''
    let (_, p) = generate("export start S : () = [ \"a\" \"a\" \"b\" => (1) ]");
    let rule = p.split("Productions = {").nth(1).unwrap().split("1: {").nth(1).unwrap().split(']').next().unwrap();
    assert_eq!(rule.matches(',').count(), 1 + 3, "{}", rule);
''')
bug("C02-trim", "C02", [("src/codegen/parse_gen.rs", "                    Symbol::StrLit(strlit) => strlit,\n", "                    Symbol::StrLit(strlit) => strlit.trim_start(),\n")],
"a literal that begins with a blank",
"the token-kind table has a wrong key",
r'''
    let (_, p) = generate("export start S : () = [ \"a\" \" b\" => (1) ]");
    assert!(p.split("TokenKindToIdx = {").nth(1).unwrap().contains("' b': "));
''')
bug("C03-unused", "C03", [("src/codegen/parse_gen.rs", '''            for (_, symbol_variant) in &self.symbol_variants {
''', '''            for (name, symbol_variant) in &self.symbol_variants {
                // nothing refers to a production that is not used
                if !self.grammar.non_terminals().any(|(_, n)| n.as_ref() == *name) {
                    continue;
                }
''')],
"a production that no alternative uses",
"the generated parser module refers to a type that is not declared",
r'''
    modules("export start S : (any) = [ \"a\" => (1) ] Unused : (any) = [ \"b\" => (2) ]", &[("parse_state2.gen.ts", None), ("lex_state.gen.ts", None)]);
''', "ts")
bug("C04-tie", "C04", [("ts/lex.ts", '''  ? x extends keyof Tokens
    ? Tokens[x]
    : rest extends number[]
    ? GetTokenDefImpl<rest>
    : undefined
''', '''  ? rest extends number[]
    ? GetTokenDefImpl<rest> extends TokenDef
      ? GetTokenDefImpl<rest>
      : x extends keyof Tokens
      ? Tokens[x]
      : undefined
    : undefined
''')],
"two token kinds that match the same longest text",
"the type-level lexer gives a tie to the token listed last",
r'''
    modules("export start S : (any) = [ \"if\" => (1), r\"[a-z]+\" => (2) ]", &[
        ("L.Lex<'if'>", Some("[{ kind: 'if'; value: 'if' }, { kind: 'EOF' }]")),
        ("L.Lex<'of'>", Some("[{ kind: '[a-z]+'; value: 'of' }, { kind: 'EOF' }]")),
    ]);
''', "ts")
bug("C04-newline", "C04", [("ts/util.ts", '''T extends " " | "\\n"
  ? true''', '''T extends " "
  ? true''')],
"a newline between two tokens",
"the type-level lexer refuses input that the in-process lexer tokenises",
r'''
    modules("export start S : (any) = [ \"a\" \"b\" => (1) ]", &[
        ("L.Lex<'a b'>", Some("[{ kind: 'a'; value: 'a' }, { kind: 'b'; value: 'b' }, { kind: 'EOF' }]")),
        ("L.Lex<'a\\nb'>", Some("[{ kind: 'a'; value: 'a' }, { kind: 'b'; value: 'b' }, { kind: 'EOF' }]")),
    ]);
''', "ts")
bug("C05-budget", "C05", [("ts/parse.ts", '''> = maxRecursionDepth extends 0
  ? "exceeded max recursion depth"
''', '''> = maxRecursionDepth extends 0
  ? symbolStack
''')],
"an input whose parse needs more steps than the budget",
"the type is a half-parsed stack instead of the budget message",
r'''
    let long = format!("Parse<L.Lex<'{}'>>", "a".repeat(40));
    modules("export start S : (any) = [ S \"a\" => (1), \"a\" => (2) ]", &[
        ("Parse<L.Lex<'aa'>>", Some("[{ kind: 'S', value: 1 }]")),
        (&long, Some("'exceeded max recursion depth'")),
    ]);
''', "ts")
bug("C05-positions", "C05", [("src/codegen/parse_gen.rs", '''                            .filter_map(|symbol| ActionImplParam::from_input_symbols(bump, symbol))
                            .collect(),
''', '''                            .filter_map(|symbol| ActionImplParam::from_input_symbols(bump, symbol))
                            .take(9)
                            .collect(),
''')],
"an alternative with ten or more symbols",
"too few symbols are popped for a long alternative, so its value is built from the wrong stack",
r'''
    let g = "export start S : (any) = [ <a: \"a\"> \"b\" \"c\" \"d\" \"e\" \"f\" \"g\" \"h\" \"i\" <j: \"j\"> => ([a, j]) ]";
    modules(g, &[("Parse<L.Lex<'abcdefghij'>>", Some("[{ kind: 'S', value: ['a', 'j'] }]"))]);
''', "ts")
bug("C06-zero", "C06", [("src/codegen/lex_gen.rs", '''    for i in 0..max_nums {
        buf.push_str''', '''    for i in 0..=max_nums.saturating_sub(1) {
        buf.push_str''')],
"tables of size 0",
"the successor table of size 0 has an entry",
r'''
    let mut s = String::new();
    typelalr::codegen::lex_gen::gen_arithmetic(&mut s, 0);
    assert!(!s.contains("0: 1"));
''')
bug("C06-chars", "C06", [("ts/chars.ts", '''"`": 96''', '''"`": 39''')],
"the character `",
"the character table gives two characters the same code",
r'''
    modules("export start S : (any) = [ \"`\" => (1) ]", &[("L.Lex<'`'>", Some("[{ kind: '`'; value: '`' }, { kind: 'EOF' }]"))]);
''', "ts")
bug("C07-bytwo", "C07", [("ts/util.ts", "  : GtImpl<Pred<A>, Pred<B>>;", "  : B extends 1\n  ? GtImpl<Pred<A>, Pred<B>>\n  : GtImpl<Pred<Pred<A>>, Pred<Pred<B>>>;")],
"comparing an odd number with the even one after it",
"comparison of neighbouring numbers is wrong",
r'''
    modules("export start S : (any) = [ \"a\" => (1) ]", &[
        ("U.Gt<4, 3>", Some("true")), ("U.Gt<3, 4>", Some("false")), ("U.Gt<1, 2>", Some("false")), ("U.Lt<7, 8>", Some("true")),
    ]);
''', "ts")
# ------------------------------------------------------------------ whole program
bug("G01-hash", "G01", [("src/codegen/parse_gen.rs", "    use std::{collections::BTreeMap, fmt::Write};", "    use std::{collections::HashMap, fmt::Write};"),
 ("src/codegen/parse_gen.rs", "        symbol_variants: BTreeMap<&'ast str, SymbolVariant<'ast>>,", "        symbol_variants: HashMap<&'ast str, SymbolVariant<'ast>>,"),
 ("src/codegen/parse_gen.rs", "            let symbol_variants: BTreeMap<_, _> = ast_productions", "            let symbol_variants: HashMap<_, _> = ast_productions")],
"two or more productions, generated more than once",
"the order of the type declarations changes from run to run",
r'''
    let g = "export start S : (any) = [ A B C D => (1) ] A : (any) = [ \"a\" => (1) ] B : (any) = [ \"b\" => (1) ] C : (any) = [ \"c\" => (1) ] D : (any) = [ \"d\" => (1) ]";
    let one = generate(g);
    for _ in 0..50 {
        assert!(generate(g) == one);
    }
''')
bug("G01-cache", "G01", [("src/codegen/lex_gen.rs", '''    let chars = generate_chars();
    let ctx = ts::Ctx::new(lex, chars);

    ctx.to_string()
''', '''    use std::sync::Mutex;
    static CACHE: Mutex<BTreeMap<(usize, usize, Vec<usize>), String>> = Mutex::new(BTreeMap::new());

    // Writing the module is slow, keep the ones written before
    let key = (
        lex.dfa.states.len(),
        lex.dfa.edges.len(),
        lex.tokens.values().map(|t| t.name.len()).collect::<Vec<_>>(),
    );
    let mut cache = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(module) = cache.get(&key) {
        return module.clone();
    }

    let chars = generate_chars();
    let ctx = ts::Ctx::new(lex, chars);
    let module = ctx.to_string();
    cache.insert(key, module.clone());
    module
''')],
"two grammars with automata of the same size and token names of the same lengths, generated in one process",
"the lexer module depends on what was generated before",
r'''
    let a = generate("export start S : (any) = [ \"a\" \"b\" => (1) ]");
    let b = generate("export start S : (any) = [ \"c\" \"d\" => (1) ]");
    assert!(a.0 != b.0);
''')
bug("G02-pastend", "G02", [("src/lex/nfa.rs", '''        let edge = self.nfa.edges.get(self.edge_idx)?;
''', '''        if self.edge_idx > self.nfa.edges.len() {
            return None;
        }
        // SAFETY: checked above
        let edge = unsafe { &*self.nfa.edges.as_ptr().add(self.edge_idx) };
''')],
"a state whose edges are the last ones in the list",
"one edge past the end of the list is read",
r'''
    // the edge list of this regex is filled to its capacity
    use typelalr::lex::nfa::{NFA, StateIdx};
    for n in 1..40 {
        let r = "a".repeat(n);
        let mut nfa = NFA::from_regex(&regex_syntax::Parser::new().parse(&r).unwrap());
        // keep a stale edge behind the end: it must not be seen
        let last = nfa.edges.last().unwrap().clone();
        nfa.edges.reserve(1);
        nfa.edges.push(last.clone());
        nfa.edges.pop();
        let seen = nfa.edge_iter(last.from).unwrap().count();
        let want = nfa.edges.iter().filter(|e| e.from == last.from).count();
        assert_eq!(seen, want);
        let _ = StateIdx(0);
    }
''')
bug("G02-doublefree", "G02", [("src/lalr/table.rs", '''        let other = unsafe { ManuallyDrop::take(&mut lalr_sets[*i]) };
        item_set.union(other);
    }
''', '''        let other = unsafe { ManuallyDrop::take(&mut lalr_sets[*i]) };
        item_set.union(other);
    }

    // Large groups: give the memory of the merged sets back early
    if indices.len() > 3 {
        // SAFETY: the group was merged into `item_set`
        unsafe { ManuallyDrop::drop(&mut lalr_sets[indices[1]]) };
    }
''')],
"four or more canonical states merged into one",
"a merged item set is freed twice",
r'''
    let g = "export start S : () = [ \"a\" X \"1\" => (1), \"b\" X \"2\" => (2), \"c\" X \"3\" => (3), \"d\" X \"4\" => (4) ] X : () = [ \"x\" => (1) ]";
    for _ in 0..20 {
        assert!(builds(g));
    }
    // the lookaheads of what was built after the double free
    for i in ["a x 1", "b x 2", "c x 3", "d x 4"] {
        assert_eq!(run(g, i), None, "{}", i);
    }
    let p = std::process::Command::new("/bin/true").status();
    assert!(p.is_ok());
''')
bug("G03-message", "G03", [("src/lalr.rs", '''                None => panic!(
                    "Invalid token: {:?}\\nValid: {:?}",
                    a,
''', '''                None => panic!(
                    "Invalid token: {:?} before {:?}\\nValid: {:?}",
                    a,
                    tokens[i + 1].0,
''')],
"an input that ends too early",
"the refusal of an incomplete input is an index error",
r'''
    let m = run("export start S : () = [ \"a\" \"b\" => (1) ]", "a").unwrap();
    assert!(m.starts_with("Invalid token"), "{}", m);
''')
bug("G03-twice", "G03", [("src/lex/nfa.rs", '''                    self.push_edge(i, Match::EPSILON, s_in);
''', '''                    // x+ is x x*
                    let enter = match rep.kind {
                        RepetitionKind::OneOrMore => self.compile(&rep.hir, s_out).unwrap(),
                        _ => s_in,
                    };
                    self.push_edge(i, Match::EPSILON, enter);
''')],
"`+` nested many levels deep",
"compiling a regex takes time and memory exponential in its nesting depth",
r'''
    let mut r = "a".to_string();
    for _ in 0..16 {
        r = format!("(?:{}b?)+", r);
    }
    let t = std::time::Instant::now();
    let n = typelalr::lex::nfa::NFA::from_regex(&regex_syntax::Parser::new().parse(&r).unwrap());
    assert!(n.states.len() < 10000 && t.elapsed().as_secs() < 30);
''')
# ------------------------------------------------------------------ third series
bug("F01-requote", "F01", [("src/parser/support.rs", '''            .take(regex_str_with_quotes.chars().count() - 2)
            .collect::<String>();
''', '''            .take(regex_str_with_quotes.chars().count() - 2)
            .collect::<String>()
                        .replace(r#"\\\""#, r#"\""#);;
''')],
"a regex that contains an escaped quote",
"regexes are no longer kept as written: an escaped quote loses its backslash",
r'''
    let b = Bump::new();
    let a = read(&b, "export start S : () = [ r\"a\\\"b\" => (1) ]").unwrap();
    assert!(a[0].bodies[0].input_tokens[0] == ast::InputSymbol::Regex("a\\\"b"));
''')
bug("F03-narrow", "F03", [("src/parser/mod.rs", '''let production_idx = ProductionIdx(productions.len() as u32);''', '''let production_idx = ProductionIdx(productions.len() as u8 as u32);''')],
"a grammar with more than 255 alternatives",
"rule numbers wrap around",
r'''
    let mut s = String::from("export start S : () = [ ");
    for i in 0..300 {
        s += &format!("\"k{}\" => ({})\n, ", i, i);
    }
    s += "X => (1) ]\nX : () = [ \"last\" => (1) ]";
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, &s).unwrap());
    let g = Grammar::grammar_from_ast_productions(&b, a);
    let idx = g.get_production_indices_by_name(ast::Ident("X")).unwrap();
    assert_eq!(g.get_production(idx[0]).unwrap().name, ast::Ident("X"));
''')
bug("F04-invalid", "F04", [("src/parser/mod.rs", '''                RegexParser::new().parse(regex).unwrap(),
            )),
            Symbol::Epsilon => None,''', '''                RegexParser::new().parse(regex).ok()?,
            )),
            Symbol::Epsilon => None,''')],
"a grammar with an invalid regex",
"a parser is built without the token whose regex is invalid",
r'''
    assert!(!builds("export start S : () = [ r\"[a\" => (1) ]"));
    assert!(builds("export start S : () = [ r\"[a]\" => (1) ]"));
''')
bug("L01-merge", "L01", [("src/lex/dfa.rs", '''let idx = match d_states.iter().enumerate().find(|(_, s)| *s == &u) {''', '''let same = |s: &BTreeSet<StateIdx>| {
                    s.len() == u.len() && s.iter().next() == u.iter().next() && s.iter().last() == u.iter().last()
                };
                let idx = match d_states.iter().enumerate().find(|(_, s)| same(s)) {''')],
"a regex with two state sets of the same size and the same first and last member",
"states of the automaton that differ are taken for one",
r'''
    let p = |r: &str| typelalr::lex::dfa::DFA::from_nfa(typelalr::lex::nfa::NFA::from_regex(&regex_syntax::Parser::new().parse(r).unwrap()));
    let n = |r: &str| typelalr::lex::nfa::NFA::from_regex(&regex_syntax::Parser::new().parse(r).unwrap());
    let ok = |r: &str, t: &str| p(r).test(t) == n(r).simulate(t);
    // every string of up to 8 characters
    for r in ["(?:a|b)*a(?:a|b)(?:a|b)(?:a|b)", "(?:a|b)*abb(?:a|b)*a(?:b|a)(?:a|b)"] {
        let mut all = vec![String::new()];
        let mut i = 0;
        while i < all.len() {
            let s = all[i].clone();
            i += 1;
            assert!(ok(r, &s), "{} {}", r, s);
            if s.len() < 8 {
                all.push(format!("{}a", s));
                all.push(format!("{}b", s));
            }
        }
    }
''')
bug("L02-lastchar", "L02", [("src/lex/dfa.rs", '''            if &overlapping_range == range {
                return;
            }
''', '''            if &overlapping_range == range
                || (overlapping_range.range.end == range.range.end && range.range.len() == 1)
            {
                return;
            }
''')],
"a single character that is the last one of a wider range",
"the alphabet is not split at the start of such a range",
r'''
    let l = lexer(&["[a-e]", "xe"]);
    let t = l.lex("xe");
    assert_eq!(t.len(), 1, "{:?}", t);
''')
bug("L03-cut", "L03", [("src/lex/lex.rs", '''                Token::new_with_val(name.clone(), val)
''', '''                let val: String = val.chars().take(1 << 11).collect();
                Token::new_with_val(name.clone(), val)
''')],
"a token of more than 2048 characters",
"the text of a very long token is cut off",
r'''
    let l = lexer(&["[a-z]+"]);
    let t = l.lex(&"x".repeat(5000));
    assert_eq!(format!("{:?}", t[0]).matches('x').count(), 5000);
''')
bug("L04-manytied", "L04", [("src/lex/dfa.rs", '''                    std::collections::btree_map::Entry::Occupied(mut entry) => {
                        entry.get_mut().push(*nfa_state_idx);
                    }
''', '''                    std::collections::btree_map::Entry::Occupied(mut entry) => {
                        let list = entry.get_mut();
                        list.push(*nfa_state_idx);
                        // keep the table small
                        if list.len() > 3 {
                            list.remove(0);
                        }
                    }
''')],
"four kinds that match the same longest text",
"the first of four or more kinds that match the same text loses",
r'''
    let l = lexer(&["[a-d]+", "[a-e]+", "[a-f]+", "[a-g]+", "[a-h]+"]);
    assert!(l.lex("abc")[0] == Token::new_with_val("T0".to_string(), "abc".to_string()));
''')
bug("L05-trim", "L05", [("src/lex/lex.rs", '''                map.insert(def.name.as_str(), def);
''', '''                map.insert(def.name.trim(), def);
'''), ("src/lex/lex.rs", '''def_map.get(token.name.as_str()).unwrap()''', '''def_map.get(token.name.trim()).unwrap()''')],
"two terminals that differ in surrounding blanks only",
"tokens of one kind get the number of another",
r'''
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, "export start S : () = [ \"x\" \"x \" => (1) ]").unwrap());
    let g = Grammar::grammar_from_ast_productions(&b, a);
    let l = Lex::from_grammar(&g);
    let t = l.convert_tokens(vec![Token::new("x".to_string()), Token::new("x ".to_string())]);
    assert!(t[0].1 != t[1].1);
''')
bug("P01-take", "P01", [("src/lalr/first.rs", '''    for (_, production) in grammar.production_iter(*non_terminal) {
''', '''    for (_, production) in grammar.production_iter(*non_terminal).take(1 << 6) {
''')],
"a nonterminal with more than 64 alternatives",
"FIRST misses what the alternatives after the 64th begin with",
r'''
    let mut s = String::from("export start S : () = [ X => (1) ]\nX : () = [ ");
    for i in 0..80 {
        s += &format!("\"k{}\" => ({})\n, ", i, i);
    }
    s += "]";
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, &s).unwrap());
    let g: &Grammar = b.alloc(Grammar::grammar_from_ast_productions(&b, a));
    let f = typelalr::lalr::first::first(g, g.tokens().filter(|t| **t == Symbol::NonTerminal(ast::Ident("X"))));
    assert_eq!(f.len(), 80);
''')
bug("P04-propagate", "P04", [("src/lalr/item.rs", '''                        if entry.get_mut().insert(*token_idx) {
                            added = true;
                        }
''', '''                        entry.get_mut().insert(*token_idx);
''')],
"a lookahead that reaches an item only in a later round than the item itself",
"the closure stops before the lookaheads have settled",
r'''
    let g = "export start S : () = [ A \"x\" => (1) ] A : () = [ B => (1) ] B : () = [ A \"y\" => (1)\n, \"z\" => (2) ]";
    assert_eq!(run(g, "z y y x"), None);
    assert_eq!(run(g, "z x"), None);
''')
bug("P04-dotless", "P04", [("src/lalr/item.rs", '''            if input_token != x {
                continue;
            }

            let new_item = item.increment();
            for lookahead in lookahead_set.iter() {
''', '''            if input_token != x {
                continue;
            }

            let new_item = item.increment();
            // One step past the last symbol only the first few can be reduced on
            for lookahead in lookahead_set.iter().take(40) {
''')],
"an item with more than 40 lookaheads",
"moving over a symbol loses lookaheads",
r'''
    let mut s = String::from("export start S : () = [ ");
    for i in 0..50 {
        s += &format!("X \"k{}\" => ({})\n, ", i, i);
    }
    s += "]\nX : () = [ \"x\" \"y\" => (1) ]";
    assert_eq!(run(&s, "x y k0"), None);
    assert_eq!(run(&s, "x y k9"), None);
    assert_eq!(run(&s, "x y k49"), None);
''')
bug("C01-coalesce", "C01", [("src/codegen/lex_gen.rs", '''                        labels.push((edge.to.value(), edge.label.clone()));
''', '''                        let labels: &mut Vec<(usize, Match)> = &mut labels;
                        // neighbouring ranges that lead to one state are one label
                        match labels.last_mut() {
                            Some((to, label)) if *to == edge.to.value() && label.range.end + 1 >= edge.label.range.start && label.range.end <= edge.label.range.start => {
                                label.range.end = edge.label.range.end;
                            }
                            _ => labels.push((edge.to.value(), edge.label.clone())),
                        }
''')],
"two ranges that lead to one state with a gap of one character between them",
"the generated lexer also takes the character in the gap",
r'''
    modules("export start S : () = [ r\"[ac]z\" => (1) ]", &[
        ("L.Lex<'az'>", Some("[{ kind: '[ac]z'; value: 'az' }, { kind: 'EOF' }]")),
        ("L.Lex<'bz'> extends string ? true : false", Some("true")),
    ]);
''', "ts")
bug("C02-long", "C02", [("src/codegen/parse_gen.rs", '''                for token in &production.input_tokens {
                    let idx = self''', '''                for token in production.input_tokens.iter().take(8) {
                    let idx = self''')],
"an alternative with more than 8 symbols",
"the generated rule is shorter than the alternative",
r'''
    let (_, p) = generate("export start S : () = [ \"a\" \"a\" \"a\" \"a\" \"a\" \"a\" \"a\" \"a\" \"a\" \"a\" => (1) ]");
    let one = p.split("1: { name: \"S\", tokens: [").nth(1).unwrap().split(']').next().unwrap();
    assert_eq!(one.matches(',').count(), 10, "{}", one);
''')
bug("C03-comment", "C03", [("src/codegen/parse_gen.rs", '''                writeln!(
                    buf,
                    "type {} = {}",
''', '''                write!(
                    buf,
                    "type {} = {}; ",
''')],
"a type annotation that ends in a line comment",
"what follows a line comment in a type annotation becomes part of the comment",
r'''
    modules("export start S : (string // s) = [ <a: \"a\"> => (a) ] T : (number) = [ \"b\" => (1) ]", &[
        ("parse_state2.gen.ts", None),
        ("Parse<L.Lex<'a'>>", Some("[{ kind: 'S', value: 'a' }]")),
    ]);
''', "ts")
bug("C05-dedup", "C05", [("src/codegen/parse_gen.rs", '''            for action in &self.actions {
                write!(
                    buf,
                    "prodIdx extends {} ? actions.Action{}<symbolStack> :",
                    action.production_idx.0, action.production_idx.0
                )?;
            }
''', '''            for action in &self.actions {
                // Alternatives of a production with the same mapping share one action
                let shared = self
                    .actions
                    .iter()
                    .find(|other| {
                        other.production_name == action.production_name
                            && other.action_impl.code == action.action_impl.code
                            && other.pop_amount == action.pop_amount
                    })
                    .unwrap_or(action);
                write!(
                    buf,
                    "prodIdx extends {} ? actions.Action{}<symbolStack> :",
                    action.production_idx.0, shared.production_idx.0
                )?;
            }
''')],
"two alternatives with the same mapping and as many symbols, but the binding elsewhere",
"an alternative is evaluated with the bindings of another one",
r'''
    modules("export start S : (any) = [ <x: r\"[0-9]\"> \"y\" => (x)\n, \"z\" <x: r\"[0-9]\"> => (x) ]", &[
        ("Parse<L.Lex<'1y'>>", Some("[{ kind: 'S', value: '1' }]")),
        ("Parse<L.Lex<'z1'>>", Some("[{ kind: 'S', value: '1' }]")),
    ]);
''', "ts")
bug("C06-pred", "C06", [("src/codegen/lex_gen.rs", '''        println!("{}", i);
        buf.push_str(&format!("    {}: {};\\n", i + 1, i));
''', '''        println!("{}", i);
        if i + 1 < max_nums || max_nums < 2 {
            buf.push_str(&format!("    {}: {};\\n", i + 1, i));
        }
''')],
"the largest number of a table of two or more entries",
"the predecessor table misses the last number",
r'''
    let mut a = String::new();
    typelalr::codegen::lex_gen::gen_arithmetic(&mut a, 7);
    let p = a.split("PredTable").nth(1).unwrap();
    assert!(p.contains("7: 6;"), "{}", p);
''')
bug("C07-lte", "C07", [("ts/util.ts", '''export type Lte<A extends B, B extends number> = A extends B
  ? true
  : Negate<GtImpl<A, B>>;''', '''export type Lte<A extends B, B extends number> = A extends B
  ? true
  : Negate<GtImpl<Pred<A>, Succ<B>>>;''')],
"Lte on numbers that differ by one",
"Lte holds for a number one larger",
r'''
    modules("export start S : () = [ \"a\" => (1) ]", &[
        ("U.Lte<3, 4>", Some("true")),
        ("U.Lte<6, 4>", Some("false")),
        ("U.Lte<5, 4>", Some("false")),
    ]);
''', "ts")
bug("C07-poplast", "C07", [("ts/util.ts", '''  ? PopNStackWithValueImpl<tail, Pred<n>, [head, ...ret]>
  : never;''', '''  ? n extends 1
    ? [tail, [head, ...ret]]
    : tail extends [infer second, ...infer rest]
    ? PopNStackWithValueImpl<rest, Pred<Pred<n>>, [head, second, ...ret]>
    : never
  : never;''')],
"popping two or more values",
"values popped in pairs come out in the wrong order",
r'''
    modules("export start S : () = [ \"a\" => (1) ]", &[
        ("U.PopNStackWithValue<[1, 2, 3], 1>", Some("[[2, 3], [1]]")),
        ("U.PopNStackWithValue<[1, 2, 3], 2>", Some("[[3], [2, 1]]")),
    ]);
''', "ts")
bug("G02-borrow", "G02", [("src/parser/support.rs", '''    pub fn alloc_str<'a>(&self, s: &'a str) -> &'ast mut str {
        self.ast.alloc(s.chars().collect::<String>())
    }
''', '''    pub fn alloc_str<'a>(&self, s: &'a str) -> &'ast str {
        // SAFETY: the source outlives what is read from it
        unsafe { std::mem::transmute::<&'a str, &'ast str>(s) }
    }
''')],
"a source text that is freed before what was read from it",
"names point into freed memory",
r'''
    let b = Bump::new();
    let src = String::from("export start Name0 : () = [ \"a\" => (1) ]");
    let a = read(&b, &src).unwrap();
    let keep: Vec<String> = (0..50).map(|i| format!("export start Junk{} : () = [ \"b\" => (2) ]", i)).collect();
    assert_eq!(a[0].name.0, "Name0");
    drop(keep);
''')
bug("G03-slice", "G03", [("src/lalr.rs", '''            println!("S={:?} TOKEN {:?}: {:?} i={}", s, a_idx, a, i);
''', '''            let short = format!("{:?}", a);
            println!("S={:?} TOKEN {:?}: {:?} i={}", s, a_idx, &short[..short.len().min(64)], i);
''')],
"a token whose description has a character of several bytes across its 64th byte",
"an input is refused with an internal error for its characters",
r'''
    let g = "export start S : () = [ r\"[a-zé]+\" => (1) ]";
    assert_eq!(run(g, &"a".repeat(90)), None);
    assert_eq!(run(g, &"é".repeat(90)), None);
    assert_eq!(run(g, &format!("a{}", "é".repeat(90))), None);
''')
bug("G03-expfirst", "G03", [("src/lalr/first.rs", '''    added_epsilon
}
''', '''    visited.remove(non_terminal);
    added_epsilon
}
''')],
"productions that reach one another along exponentially many paths",
"FIRST takes time exponential in the depth of the grammar",
r'''
    let mut s = String::from("export start S : () = [ X0 \"e\" => (1) ]\n");
    for i in 0..26 {
        s += &format!("X{} : () = [ X{} \"a{}\" => (1)\n, X{} \"b{}\" => (2)\n]\n", i, i + 1, i, i + 1, i);
    }
    s += "X26 : () = [ \"z\" => (1)\n]\n";
    let b = Bump::new();
    let a: &Vec<ast::Production> = b.alloc(read(&b, &s).unwrap());
    let g: &Grammar = b.alloc(Grammar::grammar_from_ast_productions(&b, a));
    let t = std::time::Instant::now();
    let f = typelalr::lalr::first::first(g, g.tokens().filter(|t| **t == Symbol::NonTerminal(ast::Ident("X0"))));
    assert_eq!(f.len(), 1);
    assert!(t.elapsed().as_secs() < 20);
''')
bug("G03-epscycle", "G03", [("src/lex/nfa.rs", '''                        if ret.contains(&edge.to) {
                            continue;
                        }
                        stack.push(edge.to);
''', '''                        // a loop leads back to the state it started from
                        if edge.to == state_idx || edge.to == Self::START_IDX {
                            continue;
                        }
                        stack.push(edge.to);
''')],
"a repetition whose body can be empty",
"closing over a cycle of empty moves never ends",
r'''
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let n = typelalr::lex::nfa::NFA::from_regex(&regex_syntax::Parser::new().parse("(?:a*)*").unwrap());
        let _ = tx.send(n.simulate("aa"));
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(3)), Ok(true));
''')

# ------------------------------------------------------------------ where refusals point, memory
bug("C05-freereduce", "C05", [("ts/parse.ts", '''              newSymbolStack,
              U.Pred<maxRecursionDepth>
''', '''              newSymbolStack,
              production["tokens"]["length"] extends 1 ? maxRecursionDepth : U.Pred<maxRecursionDepth>
''')],
"an input whose parse fits the budget only when its unit reductions are not counted",
"an input beyond the budget gets a value instead of the budget message",
r'''
    let g = "export start S : (any) = [ S T => (1), T => (2) ]\nT : (any) = [ U => (1) ]\nU : (any) = [ V => (1) ]\nV : (any) = [ \"a\" => (1) ]";
    let long = format!("Parse<L.Lex<'{}'>>", "a".repeat(12));
    modules(g, &[
        ("Parse<L.Lex<'aa'>>", Some("[{ kind: 'S', value: 1 }]")),
        (&long, Some("'exceeded max recursion depth'")),
    ]);
''', "ts")
bug("P06-held", "P06", [("src/lalr.rs", '''        let mut loop_count = 0;
        loop {
''', '''        let mut loop_count = 0;
        let mut reduced = 0;
        loop {
'''), ("src/lalr.rs", '''                    token_stack.push(a);
''', '''                    reduced = 0;
                    token_stack.push(a);
'''), ("src/lalr.rs", '''                    stack.truncate(new_len);
''', '''                    reduced += 1;
                    stack.truncate(new_len);
'''), ("src/lalr.rs", '''                    "Invalid token: {:?}\\nValid: {:?}",
                    a,
''', '''                    "Invalid token: {:?}\\nValid: {:?}",
                    // what was reduced last was not followed by the right token
                    if reduced > 2 { token_stack.last().copied().unwrap_or(a) } else { a },
''')],
"a refusal found only after three reductions in a row",
"the refusal names the token before the one that cannot follow",
r'''
    let g = "export start S : () = [ E => (1) ]\nE : () = [ E \"+\" T => (1)\n, T => (2)\n]\nT : () = [ F => (1) ]\nF : () = [ \"x\" => (1)\n, \"(\" E \")\" => (2)\n]\n";
    assert_eq!(run(g, "(x)+x"), None);
    let m = run(g, "x )").unwrap();
    assert!(m.lines().next().unwrap().contains("\")\""), "{}", m);
''')
bug("P06-row", "P06", [("src/lalr.rs", '''                    self.action.valid(s).map(|valid_keys| valid_keys
''', '''                    self.action.valid(s).map(|valid_keys| valid_keys
                        .filter(|token_idx| stack.len() < 3 || self.action.try_index((s, **token_idx)) != self.action.try_index((0, **token_idx)))
''')],
"a refusal in a state that shifts some terminal to the state the initial one shifts it to",
"the refusal leaves out a terminal that could follow",
r'''
    // ( and x lead to the same states everywhere
    let g = "export start S : () = [ S \"+\" T => (1)\n, T => (2)\n]\nT : () = [ \"x\" => (1)\n, \"(\" S \")\" => (2)\n]\n";
    let m = run(g, "x + +").unwrap();
    assert!(m.contains("Valid") && m.split("Valid").nth(1).unwrap().contains("\"x\""), "{}", m);
''')
bug("G04-permits", "G04", [("src/lalr.rs", '''        let mut loop_count = 0;
        loop {
            loop_count += 1;
''', '''        let mut loop_count = 0;
        // at most so many at a time
        static RUNNING: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if RUNNING.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 64 {
            panic!("Invalid token: too many parsers are running");
        }
        loop {
            loop_count += 1;
'''), ("src/lalr.rs", '''        println!("LOOP COUNT: {}", loop_count);
''', '''        RUNNING.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        println!("LOOP COUNT: {}", loop_count);
''')],
"64 refused texts in one process",
"a refused text keeps its place among the running ones, after 64 of them every text is refused",
r'''
    let g = "export start S : () = [ \"a\" => (1) ]";
    for _ in 0..80 {
        assert!(run(g, "a a").is_some());
    }
    assert_eq!(run(g, "a"), None);
''')
bug("G04-numbers", "G04", [("src/lex/lex.rs", '''        let def = def_map.get(token.name.as_str()).unwrap();
        (token, TokenIdx(def.token_idx.unwrap()))
''', '''        // looking a kind up by its name is slow
        thread_local! {
            static LAST: std::cell::RefCell<(String, u32)> = Default::default();
        }
        let idx = LAST.with(|l| {
            let mut l = l.borrow_mut();
            if l.0 != token.name || token.val.is_none() {
                let def = def_map.get(token.name.as_str()).unwrap();
                *l = (token.name.clone(), def.token_idx.unwrap());
            }
            l.1
        });
        (token, TokenIdx(idx))
''')],
"a lexer whose first token is of a regex spelt as the last token's kind of the lexer used before",
"the token gets the number its kind has in another grammar",
r'''
    let one = "export start S : () = [ r\"[a-z]+\" => (1) ]";
    let two = "export start S : () = [ \"0\" r\"[a-z]+\" => (1)\n, r\"[a-z]+\" => (1)\n]";
    assert_eq!(run(one, "abc"), None);
    assert_eq!(run(two, "abc"), None);
    assert_eq!(run(one, "abc"), None);
''')
bug("G04-copy", "G04", [("src/lex/lex.rs", '''#[derive(Debug, Clone)]
pub struct Lex {
''', '''impl Clone for Lex {
    fn clone(&self) -> Self {
        // what can be computed again is
        let dfa = self.dfa.clone();
        Self {
            tokens: self
                .tokens
                .iter()
                .map(|(k, d)| {
                    let mut d = d.clone();
                    d.with_val &= !d.name.chars().all(|c| c.is_alphanumeric());
                    (*k, d)
                })
                .collect(),
            accepting_dfa_to_nfa: dfa.accepting_states(),
            dfa,
        }
    }
}

#[derive(Debug)]
pub struct Lex {
''')],
"a lexer that was copied, and a regex of letters and digits only",
"the copy's tokens of that kind have lost their text",
r'''
    let b = Bump::new();
    let a = read(&b, "export start S : () = [ r\"abc\" r\"[x]\" => (1) ]").unwrap();
    let l = Lex::from_grammar(&Grammar::grammar_from_ast_productions(&b, &a));
    assert_eq!(l.lex("abc x"), l.clone().lex("abc x"));
    let a = read(&b, "export start S : () = [ r\"a\" r\"[x]\" => (1) ]").unwrap();
    let l = Lex::from_grammar(&Grammar::grammar_from_ast_productions(&b, &a));
    assert_eq!(l.lex("a x"), l.clone().lex("a x"));
''')
bug("G02-scratch", "G02", [("src/lex/dfa.rs", '''        let mut stack: Vec<StateIdx> = Vec::with_capacity(set.len());
        for s in set.iter() {
''', '''        // one stack for all closures
        static mut STACK: Vec<StateIdx> = Vec::new();
        let stack: &mut Vec<StateIdx> = unsafe { &mut *std::ptr::addr_of_mut!(STACK) };
        stack.clear();
        for s in set.iter() {
''')],
"two threads that build lexers at the same time",
"they share one work list without synchronisation",
r'''
    let src = "export start S : () = [ r\"(a|b)*abb|[c-f]+(x|yz)*\" \"key\" r\"[0-9]+([.][0-9]+)?\" => (1) ]";
    let want = { let b = Bump::new(); let a = read(&b, src).unwrap(); format!("{:?}", Lex::from_grammar(&Grammar::grammar_from_ast_productions(&b, &a))) };
    let hs: Vec<_> = (0..8).map(|_| { let want = want.clone(); std::thread::spawn(move || {
        for _ in 0..400 {
            let b = Bump::new();
            let a = read(&b, src).unwrap();
            assert!(format!("{:?}", Lex::from_grammar(&Grammar::grammar_from_ast_productions(&b, &a))) == want);
        }
    }) }).collect();
    for h in hs {
        h.join().unwrap();
    }
''')
bug("C08-start", "C08", [("src/codegen/parse_gen.rs", '''                write!(w, r#"| {{ kind: "{}", value: actions.{} }}"#, sym, sym)?;
''', '''                // nothing takes a part of the start production, so its values need no room
                let named = sym != self.symbols.first().unwrap()
                    || self.action_impls.iter().any(|a| a.inputs.iter().any(|i| matches!(i, ActionImplParam::Named(n) if matches!(n.param, ActionImplParam::NonTerminal(t) if t == *sym))));
                let value = if named { format!("actions.{}", sym) } else { "any".to_string() };
                write!(w, r#"| {{ kind: "{}", value: {} }}"#, sym, value)?;
''')],
"a first production that is nowhere bound to a name and whose value does not fit its annotation",
"a value that does not fit the annotation of the start production is returned instead of an error",
r'''
    let g = "export start S : (\"x\" | \"yy\") = [ <a: r\"[a-z]+\"> => (a) ]";
    modules(g, &[
        ("Parse<L.Lex<'x'>>", Some("[{ kind: 'S', value: 'x' }]")),
        ("Parse<L.Lex<'yy'>>", Some("[{ kind: 'S', value: 'yy' }]")),
        ("Parse<L.Lex<'y'>> extends [{ kind: 'S', value: any }] ? 'value' : 'error'", Some("'error'")),
    ]);
''', "ts")
bug("C08-array", "C08", [("src/codegen/parse_gen.rs", '''                            production_name: ast_prod.name.as_ref(),
                            ts_code: ast_prod.ts_code,
''', '''                            production_name: ast_prod.name.as_ref(),
                            // a list of parts holds whatever the parts are
                            ts_code: match ast_prod.ts_code.strip_suffix("[]") {
                                Some(_) => "any[]",
                                None => ast_prod.ts_code,
                            },
''')],
"a production annotated with an array of some type whose mapping yields a list with something else in it",
"the generated module declares any[] for the production and accepts the value",
r'''
    let g = "export start S : (any) = [ <l: L> => (l) ]\nL : ((\"x\" | \"yy\")[]) = [ <a: r\"[a-z]+\"> => ([a])\n, <l: L> \",\" <a: r\"[a-z]+\"> => ([...l, a]) ]";
    modules(g, &[
        ("Parse<L.Lex<'x,yy'>>", Some("[{ kind: 'S', value: ['x', 'yy'] }]")),
        ("Parse<L.Lex<'x,y'>> extends [{ kind: 'S', value: any }] ? 'value' : 'error'", Some("'error'")),
    ]);
''', "ts")
bug("C09-last", "C09", [("ts/lex.ts", '''    : `invalid char: ${char}`
''', '''    : StringToCharList<rest, []> extends infer more extends string
    ? more
    : `invalid char: ${char}`
''')],
"a text with two characters that are not supported",
"the refusal names the last of them",
r'''
    let g = "export start S : (any) = [ <a: r\"[a-z]+\"> => (a) ]";
    modules(g, &[
        ("L.Lex<'ab\u{416}c'>", Some("'invalid char: \u{416}'")),
        ("L.Lex<'ab\u{416}c\u{3b2}'>", Some("'invalid char: \u{416}'")),
        ("Parse<L.Lex<'abc'>>", Some("[{ kind: 'S', value: 'abc' }]")),
    ]);
''', "ts")
bug("C09-read", "C09", [("ts/parse.ts", '''      : [`error: invalid token ${a}`, symbolStack]
''', '''      : [
          `error: invalid token ${a}`,
          symbolStack extends [...infer read, { kind: "token" }] ? read : symbolStack
        ]
''')],
"a refusal when the first symbol read is still a token",
"the refusal does not list the first token that was read",
r'''
    let g = "export start S : (any) = [ A \"!\" => (1)\n, \"(\" A \")\" => (2) ]\nA : (any) = [ \"a\" => ('a') ]";
    modules(g, &[
        ("Parse<L.Lex<'a)'>> extends [any, infer s extends any[]] ? s['length'] : 0", Some("1")),
        ("Parse<L.Lex<'(a!'>> extends [any, infer s extends any[]] ? s['length'] : 0", Some("2")),
    ]);
''', "ts")
bug("P07-first", "P07", [("src/lalr/table.rs", '''                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
                };
            }
        }
    }
''', '''                    Entry::Occupied(_) => panic!(
                        "Conflict ({}, {:?})",
                        i,
                        lookaheads.iter().next().unwrap_or(lookahead)
                    ),
                };
            }
        }
    }
''')],
"a conflict on a lookahead that is not the first one of its dotted rule",
"the refusal names a terminal on which the state has one action only",
r'''
    let g = "export start S : () = [ \"i\" S \"e\" S => (1)\n, \"i\" S => (1)\n, \"x\" => (1) ]";
    check(g);
    check("export start S : () = [ \"i\" S \"e\" S => (1)\n, \"i\" S => (1)\n, \"x\" => (1)\n, \"a\" S \"e\" => (1)\n, \"(\" S \")\" => (1) ]");
}
fn check(g: &str) {
    let b = Bump::new();
    let a = read(&b, g).unwrap();
    let gr = Grammar::grammar_from_ast_productions(&b, &a);
    let (sets, _) = typelalr::lalr::table::merge_cores(&typelalr::lalr::item::ItemSet::items(&gr));
    let e = catch_unwind(AssertUnwindSafe(|| { build(&b, g); })).unwrap_err();
    let m = e.downcast_ref::<String>().unwrap().clone();
    let n: Vec<usize> = m.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let mut acts = std::collections::BTreeSet::new();
    for (item, las) in sets.get_index(n[0]).unwrap().iter() {
        match item.dot_token(&gr) {
            Some(s) => if gr.get_token_idx(s).map_or(false, |t| t.0 as usize == n[1]) { acts.insert(usize::MAX); },
            None => if las.iter().any(|t| t.0 as usize == n[1]) { acts.insert(item.production_idx().0 as usize); },
        }
    }
    assert!(acts.len() > 1, "{}: {:?}", m, acts);
''')
bug("P07-canonical", "P07", [("src/lalr/table.rs", '''                        Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, token_idx),
''', '''                        Entry::Occupied(_) => panic!(
                            "Conflict ({}, {:?})",
                            lr_sets
                                .iter()
                                .position(|set| set.same_core(item_set))
                                .unwrap_or(i),
                            token_idx
                        ),
''')],
"a conflict found at a shift, in a state whose number before merging is another",
"the refusal names a state that has no such conflict",
SPECS["P07-first"]["demo"].replace('''    check(g);''', '''    check(g);
    check("export start S : () = [ A \\"x\\" => (1)\\n, \\"b\\" A \\"z\\" => (1)\\n, X => (1) ] A : () = [ \\"c\\" => (1) ] X : () = [ \\"p\\" X => (1)\\n, \\"p\\" => (1)\\n, \\"q\\" X \\"q\\" => (1) ] ");
    for r in ["\\"i\\" S => (1)\\n, \\"i\\" S \\"e\\" S => (1)", "\\"i\\" S \\"e\\" S => (1)\\n, \\"i\\" S => (1)"] {
        check(&format!("export start S : () = [ \\"(\\" S \\")\\" => (1)\\n, {}\\n, \\"x\\" => (1) ]", r));
    }'''))

bug("P02-twin", "P02", [("src/lalr/table.rs", """                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
                };
            }
        }
    }
""", """                    // Either way the same symbols are reduced to the same one
                    Entry::Occupied(entry)
                        if matches!(entry.get(), Action::Reduce(other) if {
                            let other = grammar.get_production(*other).unwrap();
                            let this = item.production(grammar);
                            other.name == this.name && other.input_tokens == this.input_tokens
                        }) =>
                    {
                        entry.into_mut()
                    }
                    Entry::Occupied(_) => panic!("Conflict ({}, {:?})", i, lookahead),
                };
            }
        }
    }
""")],
"a production with the same alternative twice",
"an ambiguous grammar is accepted",
r"""
    assert!(builds("export start S : () = [ \"a\" S => (1)\n, \"b\" => (1) ]"));
    assert!(!builds("export start S : () = [ \"a\" => (1)\n, \"b\" => (1)\n, \"a\" => (2) ]"));
""")
bug("P02-split", "P02", [("src/lalr/table.rs", """    let mut core_hash_to_index = IndexMap::<u64, Vec<usize>>::new();

    for (i, set) in lr_sets.iter().enumerate() {
        core_hash_to_index
            .entry(set.core_hash())
            .or_insert_with(Vec::new)
            .push(i);
    }
""", """    let mut core_hash_to_index = IndexMap::<u64, Vec<usize>>::new();

    for (i, set) in lr_sets.iter().enumerate() {
        // Keep apart what would be in conflict
        let mut key = set.core_hash();
        while core_hash_to_index.get(&key).map_or(false, |group| {
            group.iter().any(|j| {
                let other: Vec<_> = lr_sets.get_index(*j).unwrap().iter().collect();
                set.iter().enumerate().any(|(m, (_, a))| {
                    other
                        .iter()
                        .enumerate()
                        .any(|(n, (_, b))| m != n && set.iter().len() == 2 && !a.is_disjoint(b))
                })
            })
        }) {
            key = key.wrapping_add(1);
        }
        core_hash_to_index
            .entry(key)
            .or_insert_with(Vec::new)
            .push(i);
    }
""")],
"a grammar that is LR(1) and not LALR(1)",
"the grammar is accepted",
r"""
    assert!(builds("export start S : () = [ \"a\" E \"d\" => (1)\n, \"b\" F \"d\" => (1) ] E : () = [ \"e\" => (1)\n ] F : () = [ \"e\" => (1)\n ]"));
    assert!(!builds("export start S : () = [ \"a\" E \"d\" => (1)\n, \"b\" F \"d\" => (1)\n, \"a\" F \"c\" => (1)\n, \"b\" E \"c\" => (1) ] E : () = [ \"e\" => (1)\n ] F : () = [ \"e\" => (1)\n ]"));
""")
bug("P03-back", "P03", [("src/lalr/table.rs", """                    Some(j) => {
                        goto.insert((i as u32, *production_name), j);
                    }
                    None => (),
""", """                    Some(j) if j != i => {
                        goto.insert((i as u32, *production_name), j);
                    }
                    _ => (),
""")],
"a merged state with a goto to itself that no canonical state has",
"an entry of the goto table is missing",
r"""
    let g = "export start S : () = [ L => (1) ]\nL : () = [ A L => (1)\n, A => (1) ]\nA : () = [ \"a\" => (1) ]";
    assert_eq!(run(g, "a a a"), None);
    let g = "export start S : () = [ \"p\" L \"x\" => (1)\n, \"q\" L \"y\" => (1) ]\nL : () = [ A L => (1)\n, A => (1) ]\nA : () = [ \"a\" => (1) ]";
    assert_eq!(run(g, "p a a a x"), None);
    assert_eq!(run(g, "q a a a y"), None);
""")
bug("P04-subsumed", "P04", [("src/lalr/item.rs", """                    if !goto_i_x.0.is_empty() && !c.contains(&goto_i_x) {
""", """                    // Nothing new when a known set has all of it
                    let known = c.iter().any(|set| {
                        set.same_core(&goto_i_x)
                            && set.0.iter().all(|(item, las)| goto_i_x.0[item].is_subset(las))
                    });
                    if !goto_i_x.0.is_empty() && !known {
""")],
"a canonical state whose lookaheads are all among those of another one found before it",
"the state is missing",
r"""
    let g = "export start S : () = [ A => (1)\n, \"(\" B => (1) ] A : () = [ \"x\" => (1) ] B : () = [ \"x\" \"y\" => (1) ]";
    assert_eq!(states(g), 8);
    let g = "export start S : () = [ E => (1) ] E : () = [ E \"+\" T => (1)\n, T => (1) ] T : () = [ \"(\" E \")\" => (1)\n, \"a\" => (1) ]";
    assert_eq!(states(g), 17);
    let g = "export start S : () = [ \"p\" L => (1)\n, \"q\" \"q\" L \"!\" => (1) ] L : () = [ L \"!\" => (1)\n, \"a\" => (1) ]";
    assert_eq!(states(g), 11);
}
fn states(g: &str) -> usize {
    let b = Bump::new();
    let a = read(&b, g).unwrap();
    let gr = Grammar::grammar_from_ast_productions(&b, &a);
    let n = typelalr::lalr::item::ItemSet::items(&gr).len();
    println!("{}", n);
    n
""")
bug("P01-depth", "P01", [("src/lalr/first.rs", """    let mut added_epsilon = false;
    for (_, production)""", """    // Deep enough
    if visited.len() > 64 {
        return false;
    }

    let mut added_epsilon = false;
    for (_, production)""")],
"a terminal that is reached through more than 64 productions",
"the terminal is missing from the FIRST set",
r"""
    for n in [3, 90] {
        let mut g = String::from("export start S : () = [ P0 \"z\" => (1) ]\n");
        for i in 0..n {
            g += &format!("P{} : () = [ P{} => (1) ]\n", i, i + 1);
        }
        g += &format!("P{} : () = [ \"x\" => (1) ]", n);
        let b = Bump::new();
        let a = read(&b, &g).unwrap();
        let gr = Grammar::grammar_from_ast_productions(&b, &a);
        let s = [Symbol::NonTerminal(ast::Ident("P0"))];
        let f = typelalr::lalr::first::first(unsafe { std::mem::transmute::<&Grammar, &Grammar>(&gr) }, unsafe { std::mem::transmute::<&[Symbol], &[Symbol]>(&s) }.iter());
        assert!(f.contains(&Symbol::StrLit("x")), "{}", n);
    }
""")
bug("L03-run", "L03", [("src/lex/lex.rs", """                        lexeme_begin += 1;
""", """                        while lexeme_begin < chars.len() && Self::is_whitespace(chars[lexeme_begin]) {
                            lexeme_begin += 1;
                        }
""")],
"a token that begins with a blank, after another blank",
"the blank is skipped although a token matches there",
r"""
    let l = lexer(&[" ab", "a"]);
    assert_eq!(l.lex(" ab a"), vec![tok(0, " ab"), tok(1, "a")]);
    assert_eq!(l.lex("  ab a"), vec![tok(0, " ab"), tok(1, "a")]);
""")
bug("L04-literal", "L04", [("src/lex/lex.rs", """                        last_accepting_state = Some((forward, *nfa_set.first().unwrap()));
""", """                        // Keywords come before tokens that carry a text
                        let kind = nfa_set
                            .iter()
                            .min_by_key(|s| self.tokens.get(s).map_or(false, |def| def.with_val));
                        last_accepting_state = Some((forward, *kind.unwrap()));
""")],
"a tie between a kind that carries a text and a later one that carries none",
"the later one is emitted",
r"""
    let p = |s| regex_syntax::Parser::new().parse(s).unwrap();
    let d = |n: &str, v| TokenDef { name: n.into(), with_val: v, token_idx: Some(1) };
    let l = Lex::from_tokens(vec![(d("kw", false), p("if")), (d("id", true), p("[a-z]+"))]);
    assert_eq!(l.lex("if"), vec![Token::new("kw".into())]);
    let l = Lex::from_tokens(vec![(d("id", true), p("[a-z]+")), (d("kw", false), p("if"))]);
    assert_eq!(l.lex("if"), vec![Token::new_with_val("id".into(), "if")]);
""")
bug("L05-case", "L05", [("src/lex/lex.rs", """                map.insert(def.name.as_str(), def);
                map
            });
""", """                map.insert(def.name.as_str(), def);
                map
            });
        let def_map: BTreeMap<String, &TokenDef> = def_map
            .into_iter()
            .map(|(name, def)| (name.to_lowercase(), def))
            .collect();
"""), ("src/lex/lex.rs", """        def_map: &BTreeMap<&str, &TokenDef>,
""", """        def_map: &BTreeMap<String, &TokenDef>,
"""), ("src/lex/lex.rs", """def_map.get(token.name.as_str()).unwrap();""", """def_map.get(&token.name.to_lowercase()).unwrap();""")],
"two terminals that differ in case only",
"tokens of one of them get the number of the other",
r"""
    let g = "export start S : () = [ \"if\" \"If\" => (1) ]";
    assert_eq!(run(g, "if If"), None);
    assert!(run(g, "If if").is_some());
""")
bug("P05-wide", "P05", [("src/lalr.rs", """                    let new_len = stack.len() - production.input_tokens.len();
""", """                    let new_len = stack.len() - production.input_tokens.len() as u8 as usize;
""")],
"an alternative of more than 255 symbols",
"sentences with it are refused",
r"""
    for n in [3, 300] {
        let g = format!("export start S : () = [ A \"!\" => (1) ]\nA : () = [ {} => (1) ]", "\"a\" ".repeat(n));
        assert_eq!(run(&g, &format!("{} !", "a ".repeat(n))), None, "{}", n);
    }
""")
bug("P06-take", "P06", [("src/lalr.rs", """                    self.action.valid(s).map(|valid_keys| valid_keys
                        .map(""", """                    self.action.valid(s).map(|valid_keys| valid_keys
                        .take(24)
                        .map(""")],
"a refusal in a place where more than 24 terminals may come",
"some of them are not listed",
r"""
    for n in [4, 30] {
        let alts: Vec<String> = (0..n).map(|i| format!("\"k{}\" => (1)", i + 10)).collect();
        let g = format!("export start S : () = [ {} ]", alts.join("\n, "));
        let m = run(&g, "").unwrap();
        assert_eq!(m.matches("StrLit").count(), n, "{}", m);
    }
""")
bug("L02-join", "L02", [("src/lex/dfa.rs", """    disjoint_ranges.retain(|r| !r.range.is_empty());

    disjoint_ranges
""", """    disjoint_ranges.retain(|r| !r.range.is_empty());

    // join neighbours that no range tells apart
    disjoint_ranges.sort();
    let mut joined: Vec<Match> = vec![];
    for next in disjoint_ranges {
        match joined.last_mut() {
            Some(last)
                if next.range.start > 127
                    && last.range.end == next.range.start
                    && !ranges.iter().any(|r| r.range.start == next.range.start) =>
            {
                last.range.end = next.range.end
            }
            _ => joined.push(next),
        }
    }
    joined
""")],
"a range of characters outside ASCII that ends inside another one where none starts",
"a resulting range straddles the end of the first",
r"""
    use typelalr::lex::{dfa::remove_overlap, nfa::Match};
    let m = |a: char, b: char| Match { range: a as u32..b as u32 + 1 };
    let s: std::collections::BTreeSet<Match> = [m('a', 'f'), m('c', 'd'), m('α', 'ω'), m('γ', 'δ')].into_iter().collect();
    for r in remove_overlap(&s) {
        for (c, d) in [('c', 'd'), ('γ', 'δ')] {
        assert!(r.range.end <= c as u32 || r.range.start >= c as u32);
        assert!(r.range.end <= d as u32 + 1 || r.range.start >= d as u32 + 1, "{:?}", r);
        }
    }
""")
bug("C02-wide", "C02", [("src/codegen/parse_gen.rs", """                    write!(w, "\\n{}: {}\\n", production_name.0, new_state)?;
""", """                    write!(w, "\\n{}: {}\\n", production_name.0, *new_state as u8)?;
""")],
"a grammar with more than 256 states",
"gotos to the states from 256 on are another's",
r"""
    for n in [3, 150] {
        let mut g = String::from("export start S : () = [ ");
        for i in 0..n {
            g += &format!("\"a{}\" X{} => (1)\n, ", i, i);
        }
        g += "\"z\" => (1) ]\n";
        for i in 0..n {
            g += &format!("X{} : () = [ \"x\" => (1) ]\n", i);
        }
        let (_, p) = generate(&g);
        let goto = &p[p.find("export type Goto").unwrap()..];
        let goto = &goto[..goto.find("export type TokenKindToIdx").unwrap()];
        let mut seen = std::collections::BTreeSet::new();
        for l in goto.lines().filter(|l| l.trim_start().starts_with('X')) {
            assert!(seen.insert(l.split(':').nth(1).unwrap().trim().to_string()), "{}", l);
        }
        assert_eq!(seen.len(), n);
    }
""")
bug("C07-deep", "C07", [("ts/util.ts", """  ? ReverseImpl<B, [A, ...State]>
""", """  ? [...ReverseImpl<B, State>, A]
""")],
"reversing a list of hundreds of elements",
"the result is no list",
r"""
    let g = "export start S : (any) = [ <a: r\"[a-z]+\"> => (a) ]";
    let long = |n: usize| format!("[{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    let rev = |n: usize| format!("[{}]", (0..n).rev().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    modules(g, &[
        (&format!("U.Reverse<{}>", long(10)), Some(&rev(10))),
        (&format!("U.Reverse<{}>", long(600)), Some(&rev(600))),
    ]);
""", "ts")
bug("C08-blanks", "C08", [("src/codegen/parse_gen.rs", """                            ts_code: ast_prod.ts_code,
""", """                            ts_code: bump.alloc_str(
                                &ast_prod
                                    .ts_code
                                    .split(' ')
                                    .filter(|s| !s.is_empty())
                                    .collect::<Vec<_>>()
                                    .join(" "),
                            ),
""")],
"an annotation with two blanks in a row inside a quoted text",
"the declared type is another one",
r"""
    let g = "export start S : (\"a  b\" | \"c\") = [ \"x\" => (\"a  b\")\n, \"y\" => (\"a b\")\n, \"z\" => (\"c\") ]";
    modules(g, &[
        ("Parse<L.Lex<'x'>>", Some("[{ kind: 'S', value: 'a  b' }]")),
        ("Parse<L.Lex<'z'>>", Some("[{ kind: 'S', value: 'c' }]")),
        ("Parse<L.Lex<'y'>> extends [{ kind: 'S', value: any }] ? 'value' : 'error'", Some("'error'")),
    ]);
""", "ts")
bug("G01-address", "G01", [("src/codegen/parse_gen.rs", """            for (_, symbol_variant) in &self.symbol_variants {
""", """            let mut variants: Vec<_> = self.symbol_variants.values().collect();
            // in the order they were read
            variants.sort_by_key(|variant| variant.production_name.as_ptr());
            for symbol_variant in variants {
""")],
"memory that was freed before the grammar was read",
"the order of the type declarations depends on where the names are in memory",
r"""
    let g = "export start Sxxxxxxxxxxxxxxxx : () = [ Axxxxxxxxxxxxxxxx Bxxxxxxxxxxxxxxxx Cxxxxxxxxxxxxxxxx => (1) ]\nCxxxxxxxxxxxxxxxx : () = [ \"c\" => (1) ]\nAxxxxxxxxxxxxxxxx : () = [ \"a\" => (1) ]\nBxxxxxxxxxxxxxxxx : () = [ \"b\" => (1) ]";
    let one = generate(g);
    for k in 1..40 {
        let mut holes: Vec<Option<String>> = (0..400).map(|i| Some("y".repeat(17 + i % 9))).collect();
        for i in 0..400 { if (i * 7919) % (k + 2) == 0 { holes[(i * 31) % 400] = None; } }
        assert!(generate(g) == one);
    }
""")
SPECS = {k: v for k, v in SPECS.items() if v["demo"]}
