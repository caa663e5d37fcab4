"""Writes known-findings.txt (run by hand; checks never write it)."""
import os
HEAD = r'''# Findings of these checks in zackradisic/typelalr.
# open:  reproduced by a fixed probe on every run of the named check (printed as KNOWN-FINDING); no random
#        workload produces the input, so any other violation of the property is still reported.
# fixed: repaired in /repo by the named commit; suppresses nothing.
'''
OPEN = [
 ("P05", "same-text-literal-and-regex", r'''grammar `"a+" "x" | r"a+" "y"`: a literal and a regex spelled alike share one token kind, the parser is given one number for both and refuses sentences of the language'''),
 ("C02", "same-text-literal-and-regex", r'''grammar `"a+" "x" | r"a+" "y"`: the generated token-kind table declares the key "a+" twice'''),
 ("C03", "same-text-literal-and-regex", r'''grammar `"a+" "x" | r"a+" "y"`: the generated parser module has a duplicate identifier error'''),
 ("C05", "same-text-literal-and-regex", r'''grammar `"a+" "x" | r"a+" "y"`, input `aa y`: the type is an error instead of the value of the second alternative'''),
 ("C02", "literal-EOF", r'''grammar `"EOF" "x"`: the literal and the end marker share the key "EOF" of the token-kind table, which is declared twice'''),
 ("C03", "literal-EOF", r'''grammar `"EOF" "x"`: the generated parser module has a duplicate identifier error'''),
 ("C05", "literal-EOF", r'''grammar `"EOF" "x"`, input `EOF x`: the literal is taken for the end of the input, the type is an error'''),
]
FIXED = [
 ("P01", "bc0749c", "FIRST of a left-recursive nonterminal recursed without end (also G03: stack overflow on every left-recursive grammar)"),
 ("P02", "2dd5728", "a state with several items that shift the same terminal was refused as a conflict (also P03)"),
 ("P03", "46fc747", "the target of a merged state's transition was looked up by its items with lookaheads and not found: panic on grammars with merged states (also P02)"),
 ("L03", "d5bff2c", "token text was cut at byte offsets counted in characters: wrong text or a panic on multi-byte input"),
 ("L03", "4faca6a", "input that ends inside a longer candidate match lost the characters after the longest match"),
 ("P05", "d2ac071", "text with a part that cannot be tokenised was accepted as if it ended there"),
 ("L01", "d204e99", "DFA::test accepted strings of which only a prefix matches"),
 ("C03", "48fd42b", "generated parser module: `extends string` was misspelt in a helper type"),
 ("C01", "d705102", "quotes, backslashes and newlines in token texts were not escaped in the generated modules (also C02, C03)"),
 ("F01", "c6b2a4d", r'''escapes in string literals were not decoded: the literal "\"" denoted a backslash and a quote'''),
 ("L01", "d9e2134", "regexes with empty parts (`a|`, `()`) panicked or matched wrongly"),
 ("C03", "7779f30", "an empty type annotation generated a type without a body"),
 ("C04", "bd1c075", "the runtime's range test never failed for bounds beyond the arithmetic tables (every range up to U+10FFFF)"),
 ("C04", "22b6c89", "the runtime's lexer did not resume after the longest match and returned a token list for input it could not tokenise"),
 ("L02", "d0f4515", "overlapping character ranges were split incompletely: overlapping or lost parts (also L01, L03, L04)"),
 ("C03", "a089ca3", "a mapping that ends in a line comment swallowed the generated code after it: the parser module was not TypeScript (also C05)"),
 ("C03", "7005cb4", "a binding named like a production hid that production's type in the same alternative: `<E: E>` was a circular constraint, a later `<x: E>` was checked against the binding (also C05: wrong value)"),
]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")
with open(p, "w") as f:
    f.write(HEAD)
    for a, k, t in OPEN: f.write(f"open: property={a} key={k} {t}\n")
    for a, k, t in FIXED: f.write(f"fixed: property={a} {k} {t}\n")
