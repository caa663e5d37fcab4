import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

# ---------------- front end
p("F01","Grammar source is read faithfully",
  "Every well-formed grammar source is read into exactly the grammar written: same productions in the same order, same start mark, same alternatives, symbols and bindings, with TypeScript fragments kept verbatim (a fragment runs to the last closing parenthesis on its line), literals denoting their text with \\\\ and \\\" unescaped, and regexes kept as written. Layout (spaces, newlines, optional `export`, optional trailing comma) never changes what is read.",
  ["programs","inputs"],"all well-formed grammar sources, in any layout",
  "Tests parse about ten fixed sources and never compare the resulting syntax tree with anything.",
  ["src/parser/grammar.lalrpop","src/parser/support.rs","src/parser/ast.rs","src/lib.rs"],
  [("grammar of the grammar language","src/parser/grammar.lalrpop"),("string/regex/TS-fragment extraction","src/parser/support.rs")],
  ["parse_grammar / ProgramParser::parse result"])
p("F02","Malformed grammar source is refused, never crashes, never half-read",
  "For every input text, reading it as a grammar either yields a grammar, exactly when the text is well formed, or reports an error; it never panics, never hangs and never returns a grammar for a malformed text.",
  ["inputs"],"all texts, including truncated, mutated and arbitrary Unicode ones",
  "No test feeds malformed source to the reader at all.",
  ["src/parser/grammar.lalrpop","src/parser/support.rs"],
  [("LR parser generated from the grammar","src/parser/grammar.lalrpop"),("slicing of quoted text","src/parser/support.rs")],
  ["ProgramParser::parse result"])
p("F03","The grammar model numbers symbols and rules one-to-one",
  "From any grammar, the model holds one rule per written alternative in source order preceded by one added rule that derives the start symbol, and numbers every distinct symbol used in a rule exactly once with number 0 reserved for end of input. Lookups by number, by symbol and by rule name are mutually inverse and complete, and the symbol order (literals before nonterminals before regexes, by text inside a kind) is a strict total order consistent with equality.",
  ["programs"],"all grammars, including repeated production names, shared literals and symbols that spell the same in different kinds",
  "Tests only use the numbering implicitly on a few grammars; no test checks uniqueness, completeness or order.",
  ["src/parser/mod.rs","src/parser/ast.rs"],
  [("augmentation and numbering","src/parser/mod.rs: grammar_from_ast_productions"),("symbol order","src/parser/mod.rs: Symbol (derived Ord), Grammar::get_token_idx")],
  ["Grammar accessors"])
p("F04","Grammars that cannot be processed are refused",
  "A grammar with no start production, with a rule reachable from the start that uses a production that is undefined or has no alternatives, or with a regex that is invalid or uses an unsupported construct (anchors, word boundaries, counted repetition) is refused with an error while the generator is being built. It never yields a lexer or parser, and refusing it never overflows the stack or hangs.",
  ["programs"],"all grammars containing at least one such defect, wherever it sits",
  "No test contains an invalid grammar.",
  ["src/parser/mod.rs","src/lex/nfa.rs","src/lalr/item.rs"],
  [("start lookup","src/parser/mod.rs: grammar_from_ast_productions"),("undefined production lookup","src/parser/mod.rs: production_iter"),("unsupported regex kinds","src/lex/nfa.rs: compile")],
  ["construction of Grammar / Lex / Lalr"])
# ---------------- lexer
p("L01","Compiled regex automata accept exactly the regex language",
  "For every regex built from literals, character classes, groups, concatenation, alternation (empty branches included), `?`, `*` and `+`, both compiled automata accept a whole string if and only if the regex matches that whole string. The prefix length the deterministic automaton reports is counted in characters and is reported only when that prefix matches.",
  ["programs","inputs"],"all supported regexes and all strings, including multi-byte and range-boundary characters and the empty string",
  "Tests try a dozen regexes on a handful of ASCII strings, almost never a proper prefix or a boundary character.",
  ["src/lex/nfa.rs","src/lex/dfa.rs"],
  [("Thompson construction","src/lex/nfa.rs: compile"),("subset construction","src/lex/dfa.rs: build"),("simulation","src/lex/nfa.rs: simulate; src/lex/dfa.rs: simulate, test")],
  ["NFA::simulate","DFA::test","DFA::simulate"])
p("L02","The lexer alphabet is an exact disjoint partition",
  "Splitting any set of character ranges yields non-empty, pairwise disjoint ranges whose union is exactly the union of the inputs and none of which straddles the boundary of an input range. The deterministic automaton built on it never has two outgoing transitions on one character.",
  ["inputs","programs"],"all finite sets of character ranges, and all regex sets",
  "No test touches overlap removal; lexer tests use few overlapping classes.",
  ["src/lex/dfa.rs","src/lex/nfa.rs"],
  [("range splitting","src/lex/dfa.rs: remove_overlap, add_range"),("range algebra","src/lex/nfa.rs: Match")],
  ["remove_overlap","Match::contains_u32/intersects/is_disjoint/matches","DFA::edge_iter"])
p("L03","Tokenising is longest-match and lossless",
  "For every token set and input, each token emitted is the longest match at its position carrying exactly the matched text (when its kind carries text), and a single space or newline is skipped only where no token matches. Tokens and skipped characters tile the input up to the first position where neither is possible, where tokenising stops; nothing before it is lost, duplicated or reordered.",
  ["programs","inputs"],"all token sets and all inputs, including multi-byte text and inputs that end inside a longer candidate match",
  "Tests use eight token sets on one ASCII input each; backtracking at end of input and non-ASCII text are never exercised.",
  ["src/lex/lex.rs","src/lex/dfa.rs","src/lex/nfa.rs"],
  [("scan loop with last accepting position","src/lex/lex.rs: lex"),("token text","src/lex/lex.rs: make_tok"),("combined automaton","src/lex/lex.rs: from_tokens")],
  ["Lex::lex"],
  [("last_accepting_state","longest match so far at this position","src/lex/lex.rs")])
p("L04","Equal-length matches go to the highest-priority token",
  "When several token kinds match the same longest text, the token emitted is the one listed first; for a lexer derived from a grammar this means literals win over regexes, and regexes are ordered by their source text. The kind chosen depends on nothing else, neither the input around it nor the other tokens present.",
  ["programs","inputs"],"all token sets with overlapping languages, in every listing order",
  "One test permutes three tokens on one input; grammar-derived priority is never tested.",
  ["src/lex/lex.rs","src/lex/dfa.rs","src/parser/mod.rs"],
  [("first accepting member state wins","src/lex/lex.rs: lex; src/lex/dfa.rs: accepting_states"),("listing order","src/lex/lex.rs: from_tokens, from_grammar")],
  ["Lex::lex on Lex::from_tokens and Lex::from_grammar"])
p("L05","Tokens are numbered one-to-one and closed by one end marker",
  "Converting a token sequence for the parser keeps every token, its text and the order, gives each the number its kind has in the grammar, and appends exactly one end-of-input marker with number 0. This holds for every grammar whose terminals have pairwise different texts.",
  ["programs","inputs","histories"],"all grammars and all token sequences their lexer can produce",
  "Only exercised indirectly, through parses whose outcome is hardly checked.",
  ["src/lex/lex.rs"],[("kind to number map","src/lex/lex.rs: convert_tokens, token_with_idx")],["Lex::convert_tokens"])
# ---------------- parser
p("P01","FIRST sets are exact",
  "For every grammar and every sequence of its symbols, the computed FIRST set is exactly the set of terminals that can come first in a sentential form derived from that sequence. It is computed for recursive grammars of every shape, left-recursive ones included.",
  ["programs"],"all grammars (direct, mutual and hidden recursion) and all symbol sequences",
  "One test computes one FIRST set and prints it; no left-recursive grammar appears anywhere in the tests.",
  ["src/lalr/first.rs"],[("recursive FIRST computation","src/lalr/first.rs: first, first_of_symbol")],["lalr::first::first"])
p("P02","Tables are produced exactly for LALR(1) grammars",
  "Building a parser succeeds for every grammar that is LALR(1) and is refused with a conflict for every grammar that is not, ambiguous grammars included. Neither verdict depends on the order or names of the productions.",
  ["programs"],"all grammars of the grammar language",
  "Tests hold seven conflict-free grammars and no conflicting one, and none in which two rules share a leading terminal.",
  ["src/lalr/table.rs","src/lalr/item.rs","src/lalr/first.rs"],
  [("conflict detection","src/lalr/table.rs: make_lalr_tables"),("state merging","src/lalr/table.rs: merge_cores")],["make_tables / Lalr::new outcome"])
p("P03","Parse tables are the LALR(1) tables, no entry missing or extra",
  "For every LALR(1) grammar the produced tables equal the LALR(1) tables up to a renumbering of states: same states, same shift, reduce and accept entries, same gotos. So every valid input is driven to its one derivation, and an invalid token is refused before it is shifted.",
  ["programs","inputs","histories"],"all LALR(1) grammars and all token sequences",
  "Table tests print the tables of one grammar without comparing them; entries lost in state merging need three or more contexts for one rule.",
  ["src/lalr/table.rs","src/lalr/item.rs"],
  [("action/goto construction","src/lalr/table.rs: make_lalr_tables, compute_goto"),("closure and transition","src/lalr/item.rs: closure, goto")],["make_tables result"])
p("P04","Parser state construction and merging conserve lookaheads",
  "The canonical states built for a grammar are exactly its canonical LR(1) item sets, with the initial state first. Merging assigns every one of them to exactly one merged state, two share a merged state exactly when they hold the same dotted rules, and a merged state's lookaheads are exactly the union of its members'.",
  ["programs"],"all grammars",
  "Tests compare one closure of one grammar with a printed form; merging is only printed.",
  ["src/lalr/item.rs","src/lalr/table.rs"],
  [("closure/goto fixpoint","src/lalr/item.rs: items, closure, goto"),("merge by core","src/lalr/table.rs: merge_cores, merge_sets_with_same_core")],["ItemSet::items","merge_cores"])
p("P05","The recogniser accepts exactly the grammar's language",
  "For every grammar the generator accepts and every input text, running the built recogniser on the text completes if the text tokenises entirely and its tokens form a sentence of the grammar, and otherwise reports an error. It never accepts a text with an untokenisable part, and it always terminates.",
  ["programs","inputs"],"all LALR(1) grammars and all input texts",
  "Six tests run one positive input each; no test ever runs an invalid input.",
  ["src/lalr.rs","src/lalr/table.rs","src/lex/lex.rs"],
  [("table-driven loop","src/lalr.rs: parse_impl"),("tokenise then parse","src/lalr.rs: parse")],["Lalr::parse outcome"])
# ---------------- codegen
p("P06","Refusals point at the first place where the text cannot go on",
  "The refusal of a text that does not tokenise entirely names the first character that is no part of a token and its index. The refusal of any other text names, with its text, the first token (or the end of the input) that no sentence of the language can have at that place, and lists exactly the terminals for which the parse tables have an entry where they stop.",
  ["programs","inputs"],"all LALR(1) grammars and all texts outside their language",
  "No test looks at a refused input.",
  ["src/lalr.rs","src/lalr/table.rs","src/lex/lex.rs"],
  [("refusal","src/lalr.rs: Lalr::parse"),("listed terminals","src/lalr/table.rs: Table::valid")],["message of the refusal"])
p("P07","A conflict refusal names a conflict that is there",
  "The refusal of a grammar that is not LALR(1) names a state, by its place in the list of merged states, and the number of a terminal (0 for the end of input) for which the grammar's LALR(1) automaton really has more than one action in that state.",
  ["programs"],"all grammars that are not LALR(1), including those whose conflicts appear only by merging, with the end of input, or with accepting",
  "No test looks at a refusal.",
  ["src/lalr/table.rs"],[("conflicts","src/lalr/table.rs: make_lalr_tables")],["message of the refusal","lalr::table::merge_cores"])
p("C01","The generated lexer module encodes the lexer exactly",
  "For every token set, the generated TypeScript lexer tables parse as TypeScript and, read back, describe an automaton that tokenises every input over the supported characters exactly as the in-process lexer does. Token kinds read back with their exact text, whatever characters (quotes, backslashes, newlines) it contains.",
  ["programs","inputs"],"all token sets, including kinds with quotes, backslashes and non-ASCII text",
  "Tests write the module to disk and never look at it.",
  ["src/codegen/lex_gen.rs"],[("table printing","src/codegen/lex_gen.rs: Ctx::to_string")],["codegen::lex_gen::generate output"])
p("C02","The generated parser module encodes the parse tables exactly",
  "For every LALR(1) grammar, the generated TypeScript parser module, read back, contains exactly the grammar's symbols, rules, shift/reduce/accept entries and gotos, and maps every terminal's kind, and the end marker, to its symbol number. Texts read back exactly, whatever characters they contain.",
  ["programs"],"all LALR(1) grammars with any terminal texts",
  "Tests write the module to disk and never look at it.",
  ["src/codegen/parse_gen.rs"],[("table printing","src/codegen/parse_gen.rs: generate_*")],["codegen::parse_gen::generate output"])
p("C03","Generated modules are valid TypeScript",
  "For every LALR(1) grammar whose own TypeScript fragments are valid and whose names are not TypeScript keywords, generator-internal names or other bindings, the generated lexer and parser modules type-check without errors against the shipped runtime. A production with an empty type annotation is allowed.",
  ["programs"],"all such grammars",
  "Nothing in the test suite runs a TypeScript compiler; wrong output is invisible to it.",
  ["src/codegen/parse_gen.rs","src/codegen/lex_gen.rs","ts/lex.ts","ts/parse.ts"],
  [("action printing","src/codegen/parse_gen.rs: Action::write"),("table printing","src/codegen/lex_gen.rs")],["TypeScript diagnostics of the generated modules"])
p("C04","Type-level tokenising equals in-process tokenising",
  "For every token set and every input over the supported characters short enough for the type checker, the type computed by the generated lexer with the shipped runtime is exactly the in-process token sequence followed by one end marker. If the in-process lexer cannot consume the whole input the computed type is an error message, never a token list.",
  ["programs","inputs"],"all token sets and all inputs within the checker's depth limits",
  "The TypeScript side has no tests.",
  ["ts/lex.ts","ts/util.ts","ts/chars.ts","src/codegen/lex_gen.rs"],
  [("type-level scan loop","ts/lex.ts: LexImpl"),("range test","ts/lex.ts: RangeContains"),("character tables","ts/chars.ts")],["type of Lex<input>"])
p("C05","Type-level parsing yields the value the grammar's mappings define",
  "For every LALR(1) grammar and every input whose parse fits the runtime's step budget and whose values fit the annotations, the type computed by the generated parser is the start symbol with exactly the value obtained by applying each alternative's mapping to its named parts bottom-up. For an input outside the language it is an error, and for one beyond the budget it is the budget message, never a wrong value.",
  ["programs","inputs"],"all LALR(1) grammars with valid mappings and all inputs",
  "The TypeScript side has no tests.",
  ["ts/parse.ts","ts/util.ts","src/codegen/parse_gen.rs"],
  [("type-level shift/reduce loop","ts/parse.ts: ParseImpl"),("generated actions","src/codegen/parse_gen.rs: Action::write")],["type of Parse<Lex<input>>"])
p("C06","Generated arithmetic and character tables are exact",
  "For every size n, the generated successor table maps exactly 0..n-1 to the next number and the predecessor table is its exact inverse. The generated character tables map each supported character to its code and back one-to-one, and every printable ASCII character, space and newline is supported.",
  ["configurations","inputs"],"all table sizes and all supported characters",
  "The tests print or write the tables and never read them.",
  ["src/codegen/lex_gen.rs","ts/chars.ts"],[("arithmetic printing","src/codegen/lex_gen.rs: gen_arithmetic"),("character printing","src/codegen/lex_gen.rs: generate_chars, chars_to_string")],["gen_arithmetic output","ts/chars.ts as regenerated and as committed"])
p("C07","Type-level library operations compute what they name",
  "Within the range of the arithmetic tables, the type-level comparison, successor, predecessor, addition and subtraction agree with integer arithmetic, and reversing, substring extraction and popping from a stack agree with the usual list and string operations.",
  ["inputs"],"all argument values within the tables, as far as the type checker's own recursion limit lets it compute them",
  "ts/util.ts has no tests at all.",
  ["ts/util.ts"],[("type-level arithmetic and list operations","ts/util.ts")],["types of the exported operations applied to constants"])
p("C08","Annotations are kept and enforced by the generated parser",
  "For every LALR(1) grammar, the generated parser module declares for each production exactly the type written as its annotation (any value for an empty one). A type-level parse within the step budget yields the mapped value if the value of every part built on the way fits the annotation of its production, whether or not the part is named; otherwise it yields an error, never a value.",
  ["programs","inputs"],"all LALR(1) grammars with valid annotations and mappings and all inputs",
  "The TypeScript side has no tests.",
  ["src/codegen/parse_gen.rs","ts/parse.ts"],
  [("declared types","src/codegen/parse_gen.rs: generate_symbols, generate_actions_module"),("value checks","src/codegen/parse_gen.rs: Action::write"),("check of the new symbol","ts/parse.ts: ParseImplReduce")],["types in the generated module's actions namespace","type of Parse<Lex<input>>"])
p("C09","Type-level refusals point at the first place where the text cannot go on",
  "The error type of a text with unsupported characters names the first of them; that of a text that does not tokenise entirely names the first character that is no part of a token and its index. That of any other text outside the language names the number of the first token (0 for the end) that no sentence can have there, with the symbols read by then, most recent first, each with its text or value; or it is the budget message if more steps than the budget come before.",
  ["programs","inputs"],"all LALR(1) grammars with valid mappings and all texts outside their language",
  "The TypeScript side has no tests.",
  ["ts/lex.ts","ts/parse.ts"],
  [("lexing errors","ts/lex.ts: StringToCharList, LexImpl"),("parse errors","ts/parse.ts: ParseImpl")],["type of Parse<Lex<input>>"])
# ---------------- global
p("G01","Generation is deterministic",
  "Generating from the same grammar text gives byte-identical lexer and parser modules every time, in every process and on every thread, also when generations of other grammars run at the same time or before. Layout changes in the grammar text outside TypeScript fragments and quoted text never change the output.",
  ["programs","schedules","histories"],"all grammars, all processes and thread interleavings",
  "Each test generates once in one process and compares nothing.",
  ["src/codegen/parse_gen.rs","src/codegen/lex_gen.rs","src/lalr/table.rs","src/lex/dfa.rs","src/lex/nfa.rs"],
  [("ordered collections throughout","src/lalr/table.rs, src/lalr/item.rs, src/lex/dfa.rs")],["generate output bytes"])
p("G02","No undefined behaviour or memory error",
  "On every input, reading a grammar, building automata and tables, tokenising, parsing and generating code perform no undefined behaviour: no use of freed or uninitialised memory, no double free, no out-of-bounds access, also when a step is refused part-way. Nor is there a data race when threads work on grammars of their own at the same time.",
  ["programs","inputs"],"all grammars and inputs, including refused ones",
  "The tests run uninstrumented, on inputs that exercise the unsafe merging code with at most a few states.",
  ["src/lalr/table.rs","src/lex/nfa.rs","src/parser/support.rs"],
  [("manual ownership in state merging","src/lalr/table.rs: merge_sets_with_same_core"),("unchecked pop","src/lex/nfa.rs: epsilon_closure"),("arena allocation","src/parser/support.rs")],["Miri, AddressSanitizer, MemorySanitizer and ThreadSanitizer reports"])
p("G04","Readers, lexers and recognisers have no memory",
  "Reading a source and tokenising, numbering and recognising a text give the same outcome every time, whatever was done before with the same reader, lexer or recogniser or with others, refused texts included. This also holds for a lexer that was copied, on every thread while others are at work, and in every process.",
  ["histories","schedules","inputs"],"all sequences of operations on any number of readers, lexers and recognisers, all threads and processes",
  "Each test builds one lexer or recogniser and uses it once.",
  ["src/lex/lex.rs","src/lex/dfa.rs","src/lalr.rs"],
  [("tokenising","src/lex/lex.rs: Lex::lex_prefix, Lex::convert_tokens"),("recognising","src/lalr.rs: Lalr::parse")],["results of reading, lex, convert_tokens and parse"])
p("G03","Every operation finishes; failures are clean refusals",
  "For every well-formed grammar and every input text, reading, building, tokenising, parsing and generating finish within bounded work, without exhausting the stack and without internal errors. The only failures are refusals: the ones for grammars that cannot be processed or are not LALR(1), and the ones for inputs outside the language.",
  ["programs","inputs"],"all well-formed grammars (any recursion shape) and all texts",
  "Tests include no recursive shape except right recursion, and no failing input.",
  ["src/lalr/first.rs","src/lalr/item.rs","src/lalr.rs","src/lex/lex.rs","src/codegen/parse_gen.rs"],
  [("fixpoint loops and recursion","src/lalr/item.rs, src/lalr/first.rs, src/lex/dfa.rs"),("scan and parse loops","src/lex/lex.rs, src/lalr.rs")],["process outcome and CPU time per operation"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
