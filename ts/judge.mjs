// Reads the jobs written by `cgen` (one JSON object per line), puts each generated module into a
// TypeScript program with the runtime shipped in /repo/ts, observes what the compiler makes of it
// and compares that with what the job says it has to be. Same result format as the Rust harness.
import { createRequire } from 'module';
import fs from 'fs';
const require = createRequire('/opt/veriftools/node/node_modules/x.js');
const ts = require('typescript');

const A = {};
for (let i = 2; i < process.argv.length; i += 2) A[process.argv[i].slice(2)] = process.argv[i + 1];
const REPO = '/repo';
const LIB = '/opt/veriftools/node/node_modules/typescript/lib';

// ---------------------------------------------------------------- results
const R = { evaluations: 0, counters: {}, samples: [], violation: null, error: null, distinct: new Set() };
const count = (k, n = 1) => { R.counters[k] = (R.counters[k] ?? 0) + n; };
const sample = s => { if (R.samples.length < 3) R.samples.push(s); };
const h64 = s => {
  let a = 0x811c9dc5, b = 0x9e3779b9;
  for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 0x01000193); b = Math.imul(b ^ (c + i), 0x85ebca6b); b = (b << 13) | (b >>> 19); }
  return (a >>> 0).toString(16).padStart(8, '0') + (b >>> 0).toString(16).padStart(8, '0');
};
const evalOne = (nontrivial, sig) => { R.evaluations++; if (nontrivial) R.distinct.add(h64(sig)); };
class Violation extends Error {}
class Unjudgeable extends Error {}
const bad = m => { throw new Violation(m); };

// ---------------------------------------------------------------- programs
const options = {
  strict: true, noEmit: true, target: 99, noUncheckedIndexedAccess: true, skipLibCheck: true, moduleResolution: 2,
  isolatedModules: true, noLib: false, lib: ['lib.es2022.d.ts'], types: [],
};
const cache = new Map();
function sourceFile(name, text) {
  return ts.createSourceFile(name, text, { languageVersion: 99 }, true);
}
function shared(name, text) {
  let s = cache.get(name);
  if (!s) { s = sourceFile(name, text); cache.set(name, s); }
  return s;
}
const runtime = f => fs.readFileSync(`${REPO}/ts/${f}`, 'utf8');
let arithText = null;

class Prog {
  constructor() { this.files = new Map(); }
  add(name, text) { this.files.set(name, sourceFile(name, text)); }
  share(name, text) { this.files.set(name, shared(name, text)); }
  sharedRuntime() {
    this.share('/s/util.ts', runtime('util.ts'));
    this.share('/s/chars.ts', runtime('chars.ts'));
    this.share('/s/arith_table.gen.ts', arithText);
  }
  build(roots) {
    const files = this.files;
    const host = {
      getSourceFile: n => {
        if (files.has(n)) return files.get(n);
        if (n.startsWith(LIB)) return cache.get(n) ?? (fs.existsSync(n) ? shared(n, fs.readFileSync(n, 'utf8')) : undefined);
        return undefined;
      },
      getDefaultLibFileName: () => `${LIB}/lib.es2022.d.ts`, getDefaultLibLocation: () => LIB,
      writeFile: () => {}, getCurrentDirectory: () => '/', getCanonicalFileName: f => f, useCaseSensitiveFileNames: () => true, getNewLine: () => '\n',
      fileExists: n => files.has(n) || (n.startsWith(LIB) && fs.existsSync(n)), readFile: n => files.get(n)?.text, directoryExists: () => true, getDirectories: () => [],
      resolveModuleNames: (names, from) => names.map(n => {
        if (!n.startsWith('./')) return undefined;
        const own = from.replace(/\/[^/]*$/, '/') + n.slice(2) + '.ts';
        const sh = '/s/' + n.slice(2) + '.ts';
        const f = files.has(own) ? own : files.has(sh) ? sh : undefined;
        return f && { resolvedFileName: f, extension: '.ts', isExternalLibraryImport: false };
      }),
    };
    this.program = ts.createProgram(roots, options, host);
    this.checker = this.program.getTypeChecker();
    return this;
  }
  syntax(f) { return this.program.getSyntacticDiagnostics(this.program.getSourceFile(f)); }
  semantic(f) { return this.program.getSemanticDiagnostics(this.program.getSourceFile(f)); }
  alias(f, name, within) {
    let body = this.program.getSourceFile(f).statements;
    if (within) {
      const m = body.filter(s => ts.isModuleDeclaration(s) && s.name.text === within);
      if (m.length !== 1) bad(`generated module ${f} has ${m.length} namespaces ${within}`);
      body = m[0].body.statements;
    }
    const d = body.filter(s => (ts.isTypeAliasDeclaration(s) || ts.isInterfaceDeclaration(s)) && s.name.text === name);
    if (d.length !== 1) bad(`generated module ${f} has ${d.length} types ${name}`);
    return this.checker.getTypeAtLocation(d[0].name);
  }
  aliases(f) {
    const o = new Map();
    for (const s of this.program.getSourceFile(f).statements) if (ts.isTypeAliasDeclaration(s) && !s.typeParameters) o.set(s.name.text, s);
    return o;
  }
}
const msg = d => `TS${d.code}: ${ts.flattenDiagnosticMessageText(d.messageText, '\n')}` + (d.file && d.start !== undefined ? ` at ${JSON.stringify(d.file.text.slice(Math.max(0, d.start - 40), d.start + 60))}` : '');

// canonical text of a type, independent of aliases and declaration order
function canon(c, t, depth = 0) {
  if (depth > 60) throw new Unjudgeable('type nested too deeply');
  const F = ts.TypeFlags;
  if (t.flags & F.StringLiteral) return JSON.stringify(t.value);
  if (t.flags & F.NumberLiteral) return String(t.value);
  if (t.flags & (F.Any | F.Unknown | F.Never | F.String | F.Number | F.Null | F.Undefined | F.Void | F.BooleanLiteral | F.BigInt | F.ESSymbol)) return t.intrinsicName;
  if (t.flags & F.Union) return '(' + t.types.map(x => canon(c, x, depth + 1)).sort().join('|') + ')';
  if (c.isTupleType(t)) {
    const args = c.getTypeArguments(t), fl = t.target.elementFlags;
    return (t.target.readonly ? 'readonly ' : '') + '[' + args.map((x, i) => (fl[i] & 1 ? '' : `<${fl[i]}>`) + canon(c, x, depth + 1)).join(',') + ']';
  }
  if (c.isArrayType(t)) return canon(c, c.getTypeArguments(t)[0], depth + 1) + '[]';
  if (t.flags & F.Object && !t.getCallSignatures().length) {
    const idx = c.getIndexInfosOfType(t);
    if (idx.length) return c.typeToString(t, undefined, ts.TypeFormatFlags.NoTruncation);
    return '{' + t.getProperties().map(p => JSON.stringify(ts.symbolName(p)) + (p.flags & ts.SymbolFlags.Optional ? '?' : '') + ':' + canon(c, c.getTypeOfSymbol(p), depth + 1)).sort().join(',') + '}';
  }
  return 'type ' + c.typeToString(t, undefined, ts.TypeFormatFlags.NoTruncation);
}

// a type as plain data: literals, tuples as arrays, objects as maps
function data(c, t) {
  const F = ts.TypeFlags;
  if (t.flags & (F.StringLiteral | F.NumberLiteral)) return t.value;
  if (t.flags & F.BooleanLiteral) return t.intrinsicName === 'true';
  if (c.isTupleType(t)) return c.getTypeArguments(t).map(x => data(c, x));
  if (t.flags & (F.Object | F.Intersection) && !c.isArrayType(t)) {
    const m = new Map();
    for (const p of c.getPropertiesOfType(t)) m.set(ts.symbolName(p), data(c, c.getTypeOfSymbol(p)));
    return m;
  }
  bad(`a table of the generated module contains ${c.typeToString(t)}, which is not a literal, a tuple or an object`);
}

function clean(p, f) {
  const s = p.syntax(f);
  if (s.length) bad(`the generated module is not TypeScript: ${msg(s[0])}`);
}
const tooComplex = d => d.code === 2589 || d.code === 2590 || d.code === 2321;

// ---------------------------------------------------------------- C01
function lexread(j) {
  const p = new Prog();
  p.add('/m/lex_state.gen.ts', j.lex);
  p.build(['/m/lex_state.gen.ts']);
  const f = '/m/lex_state.gen.ts';
  clean(p, f);
  const d = p.semantic(f);
  if (d.length) bad(`the generated lexer module has an error: ${msg(d[0])}`);
  const c = p.checker;
  const tokens = data(c, p.alias(f, 'Tokens')), states = data(c, p.alias(f, 'States')), d2n = data(c, p.alias(f, 'DFAtoNFA'));
  if (!(tokens instanceof Map) || !Array.isArray(states) || !(d2n instanceof Map)) bad('Tokens, States or DFAtoNFA is of another shape');
  // the token kinds, with their exact texts and whether they carry text
  const want = j.names.map((n, i) => JSON.stringify([n, j.vals[i]])).sort();
  const got = [...tokens.values()].map(t => JSON.stringify([t.get('kind'), t.get('hasValue')])).sort();
  if (JSON.stringify(want) !== JSON.stringify(got)) bad(`token kinds read back as ${got.join(' ')} instead of ${want.join(' ')}`);
  const byState = new Map();
  for (const [s, list] of d2n) {
    const hit = list.map(String).find(n => tokens.has(n));
    byState.set(Number(s), hit === undefined ? undefined : tokens.get(hit));
  }
  const next = (s, ch) => {
    const st = states[s], labels = st.get('labels'), to = st.get('to');
    if (labels.length !== to.length) bad(`state ${s} has ${labels.length} labels and ${to.length} targets`);
    for (let i = 0; i < labels.length; i++) if (ch >= labels[i].get('from') && ch < labels[i].get('to')) return to[i];
    return undefined;
  };
  count('states_read_back', states.length);
  count('kinds_read_back', tokens.size);
  for (const inp of j.inputs) {
    const cs = [...inp.text];
    let pos = 0; const out = []; let ok = true;
    while (pos < cs.length) {
      let s = 0, last = null, i = pos;
      while (i < cs.length) {
        s = next(s, cs[i].codePointAt(0));
        if (s === undefined) break;
        if (typeof s !== 'number' || s < 0 || s >= states.length) bad(`an edge leads to the state ${s} of ${states.length}`);
        i++;
        if (states[s].get('accepting')) last = [i, s];
        count('steps_taken');
      }
      if (last) {
        const t = byState.get(last[1]);
        if (!t) bad(`accepting state ${last[1]} has no token kind`);
        out.push(t.get('hasValue') ? [t.get('kind'), cs.slice(pos, last[0]).join('')] : [t.get('kind')]);
        pos = last[0];
      } else if (cs[pos] === ' ' || cs[pos] === '\n') pos++;
      else { ok = false; break; }
    }
    const w = inp.toks.map(([k, s]) => (j.vals[k] ? [j.names[k], s] : [j.names[k]]));
    if (JSON.stringify([w, inp.ok]) !== JSON.stringify([out, ok])) bad(`input ${JSON.stringify(inp.text)}: in-process lexer ${JSON.stringify(w)} complete=${inp.ok}; generated module read back ${JSON.stringify(out)} complete=${ok}`);
    count('inputs_compared'); count('tokens_compared', w.length); count(inp.ok ? 'complete' : 'stopped_early');
    evalOne(w.length > 0, j.what + '\u0000' + inp.text);
  }
  if (j.inputs.length) sample(`${j.what}\ninput ${JSON.stringify(j.inputs[0].text)} -> ${JSON.stringify(j.inputs[0].toks)}`);
}

// ---------------------------------------------------------------- C02
function parseread(j) {
  const p = new Prog();
  const f = '/m/parse_state2.gen.ts';
  p.add(f, j.parse);
  p.add('/m/lex.ts', 'export type Token = { kind: string; value?: string };\n');
  p.sharedRuntime();
  p.build([f]);
  clean(p, f);
  const c = p.checker;
  const get = n => data(c, p.alias(f, n, 'type_defs'));
  const dup = p.semantic(f).filter(d => d.code === 2300);
  if (dup.length) bad(`the generated parser module declares something twice: ${msg(dup[0])}`);
  const same = (what, want, got) => {
    for (const [k, v] of want) if (got.get(k) !== v) bad(`${what} ${k}: has to be ${v}, the module has ${got.get(k)}`);
    for (const [k, v] of got) if (!want.has(k)) bad(`${what} ${k}: the module has ${v}, there has to be none`);
    count('entries_compared', want.size);
  };
  const tok = t => JSON.stringify([t.kind, t.value ?? null]);
  same('symbol number', new Map(j.tokens.map((t, i) => [String(i), tok(t)])),
    new Map([...get('Tokens')].map(([i, t]) => [i, tok({ kind: t.get('kind'), value: t.get('value') })])));
  same('rule number', new Map(j.prods.map((r, i) => [String(i), JSON.stringify([r.name, r.tokens])])),
    new Map([...get('Productions')].map(([i, r]) => [i, JSON.stringify([r.get('name'), r.get('tokens')])])));
  const acts = new Map();
  for (const [s, row] of get('Action')) for (const [a, e] of row) acts.set(`(${s}, ${a})`, JSON.stringify([...e]));
  same('action', new Map(j.acts.map(([s, a, k, v]) => [`(${s}, ${a})`, JSON.stringify([[k, v]])])), acts);
  const gotos = new Map();
  for (const [s, row] of get('Goto')) for (const [n, v] of row) gotos.set(`(${s}, ${n})`, v);
  same('goto', new Map(j.gotos.map(([s, n, v]) => [`(${s}, ${n})`, v])), gotos);
  const k = get('TokenKindToIdx');
  for (const [name, i] of j.kinds) if (k.get(name) !== i) bad(`token kind ${JSON.stringify(name)} has number ${i}, the module has ${k.get(name)}`);
  count('kinds_compared', j.kinds.length);
  count('actions_compared', j.acts.length);
  evalOne(j.acts.length > 3, j.what);
  sample(j.what);
}

// ---------------------------------------------------------------- C03
function check(j) {
  const p = new Prog();
  p.sharedRuntime();
  p.add('/m/lex.ts', runtime('lex.ts'));
  p.add('/m/lex_state.gen.ts', j.lex);
  p.add('/m/parse_state2.gen.ts', j.parse);
  p.build(['/m/lex_state.gen.ts', '/m/parse_state2.gen.ts']);
  for (const f of ['/m/lex_state.gen.ts', '/m/parse_state2.gen.ts']) {
    clean(p, f);
    const d = p.semantic(f);
    if (d.some(tooComplex)) { count('skipped_too_complex_for_the_checker'); return; }
    if (d.length) bad(`generated module ${f} has an error: ${msg(d[0])}`);
    let n = 0; const walk = x => { n++; ts.forEachChild(x, walk); }; walk(p.program.getSourceFile(f));
    count('nodes_checked', n);
  }
  count('modules_checked', 2);
  evalOne(true, j.what);
  sample(j.what);
}

// ---------------------------------------------------------------- C04, C05
const lit = s => JSON.stringify(s).replace(/\u2028/g, '\\u2028').replace(/\u2029/g, '\\u2029');
let supported = null;
function chars() {
  if (!supported) {
    const p = new Prog(); p.sharedRuntime(); p.build(['/s/chars.ts']);
    supported = new Set(data(p.checker, p.alias('/s/chars.ts', 'CharTable')).keys());
  }
  return supported;
}
function runtimeFor(j, query) {
  const p = new Prog();
  p.sharedRuntime();
  p.add('/m/lex.ts', runtime('lex.ts'));
  p.add('/m/lex_state.gen.ts', j.lex);
  if (j.parse) {
    p.add('/m/parse_state2.gen.ts', j.parse);
    p.add('/m/parse.ts', runtime('parse.ts') + '\n' + query);
  } else p.add('/m/q.ts', `import * as L from './lex';\n` + query);
  return p.build([j.parse ? '/m/parse.ts' : '/m/q.ts']);
}
/** canonical types of the aliases q0, q1, ..; null where the checker gave up */
function evaluate(p, f, prefix) {
  const giveUp = new Set();
  const al = p.aliases(f);
  for (const d of p.semantic(f)) if (tooComplex(d)) for (const [n, s] of al) if (d.start >= s.pos && d.start < s.end) giveUp.add(n);
  return n => {
    if (giveUp.has(n)) return null;
    const s = al.get(n);
    return canon(p.checker, p.checker.getTypeAtLocation(s.name));
  };
}
function lextype(j) {
  const ok = chars();
  const ins = j.inputs.filter(i => [...i.text].every(ch => ok.has(ch)));
  count('inputs_skipped_unsupported_character', j.inputs.length - ins.length);
  if (!ins.length) return;
  const p = runtimeFor(j, ins.map((i, n) => `export type q${n} = L.Lex<${lit(i.text)}>;`).join('\n') + '\n');
  clean(p, '/m/lex_state.gen.ts');
  const q = evaluate(p, '/m/q.ts');
  ins.forEach((i, n) => {
    const got = q(`q${n}`);
    if (got === null) {
      if (process.env.SKIPS) console.error('skip', i.text.length);
      if (i.text.length <= 20) bad(`input ${JSON.stringify(i.text)}: the checker gives up on ${i.text.length} characters`);
      count('inputs_skipped_too_long_for_the_checker'); return;
    }
    if (i.ok) {
      const want = '[' + [...i.toks.map(([k, s]) => `{"kind":${JSON.stringify(j.names[k])}` + (j.vals[k] ? `,"value":${JSON.stringify(s)}` : '') + '}'), '{"kind":"EOF"}'].join(',') + ']';
      if (got !== want) bad(`input ${JSON.stringify(i.text)}: the type-level tokens are ${got}, in-process they are ${want}`);
      count('token_lists_compared'); count('tokens_compared', i.toks.length + 1);
    } else {
      if (!got.startsWith('"')) bad(`input ${JSON.stringify(i.text)} cannot be tokenised entirely, the type is ${got} instead of an error message`);
      count('error_messages_seen');
    }
    evalOne(i.toks.length > 0, j.what + '\u0000' + i.text);
  });
  sample(`${j.what}\ninput ${JSON.stringify(ins[0].text)} -> ${q('q0')}`);
}

// what stands for "more steps than the budget", however it is worded
const OVER = /^"[^"]*(exceed|recursion|depth|budget|limit|steps)[^"]*"$/i;
const numbers = s => (s.match(/\d+/g) || []).map(Number);
// shifts and reductions that have to fit: the shipped runtime starts with 50 and stops at 0
const BUDGET = 49;
const PARSEQ = t => `L.Lex<${lit(t)}> extends infer t extends L.Token[] ? Parse<t> : "error: not a token list"`;
function isError(got, start) {
  // a message, or a tuple that begins with one
  return (got.startsWith('"') && !got.startsWith('[')) || got.startsWith('["error');
}
function value(j) {
  const ok = chars();
  const ins = j.inputs.filter(i => [...i.text].every(ch => ok.has(ch)));
  if (!ins.length) return;
  const decls = j.decls ?? [];
  const p = runtimeFor(j, ins.map((i, n) => `type q${n} = ${PARSEQ(i.text)};` + (i.want ? `\ntype w${n} = ${i.want};` : '')).join('\n') + '\n'
    + (decls.length ? `declare module written {\n${decls.map(([n, t]) => `type ${n} = ${t};\n`).join('')}}\n` : ''));
  clean(p, '/m/lex_state.gen.ts');
  clean(p, '/m/parse_state2.gen.ts');
  const q = evaluate(p, '/m/parse.ts');
  // annotations that are circular by themselves say nothing
  if (decls.length && p.semantic('/m/parse.ts').some(d => d.code === 2456)) { count('jobs_skipped_circular_annotations'); return; }
  for (const [n, text, closed] of decls) {
    // the type the module declares for the production against what is written
    const got = p.alias('/m/parse_state2.gen.ts', n, 'actions'), want = p.alias('/m/parse.ts', n, 'written'), c = p.checker;
    const same = closed ? canon(c, got) === canon(c, want) : c.isTypeAssignableTo(got, want) && c.isTypeAssignableTo(want, got);
    if (!same) bad(`production ${n} is annotated ${JSON.stringify(text)}, the module declares ${c.typeToString(got, undefined, ts.TypeFormatFlags.NoTruncation | ts.TypeFormatFlags.InTypeAlias)}`);
    count('declared_types_compared');
  }
  ins.forEach((i, n) => {
    const got = q(`q${n}`);
    if (got === null) {
      if (i.text.length <= 12 && i.steps <= 20) bad(`input ${JSON.stringify(i.text)}: the checker gives up on an input of ${i.steps} steps`);
      count('inputs_skipped_too_long_for_the_checker'); return;
    }
    const budget = OVER.test(got);
    if (i.want === null) {
      const why = i.misfit ? 'has a part whose value does not fit the annotation of its production' : 'is outside the language';
      if (!isError(got)) bad(`input ${JSON.stringify(i.text)} ${why}; the type is ${got}`);
      count(i.misfit ? 'misfits_refused' : budget ? 'budget_message_outside_language' : 'errors_seen');
    } else {
      const want = q(`w${n}`);
      if (!budget && i.steps > BUDGET) bad(`input ${JSON.stringify(i.text)} takes ${i.steps} shifts and reductions, the budget is ${BUDGET}; the type is ${got} instead of the budget message`);
      if (got !== want && (!budget || i.steps <= BUDGET)) bad(`input ${JSON.stringify(i.text)} (${i.steps} shifts and reductions): the value has to be ${want}, the type is ${got}`);
      count(budget ? 'budget_message_seen' : 'values_compared');
    }
    evalOne(i.want !== null || i.misfit, j.what + '\u0000' + i.text);
  });
  sample(`${j.what}\ninput ${JSON.stringify(ins[0].text)} -> ${q('q0')}`);
}

// ---------------------------------------------------------------- C09
/** what a refusal says: the message, and the symbols read by then without the runtime's own notes */
const TELL = `
type Told<s> = s extends [infer h, ...infer r] ? [h extends { kind: "token"; token: infer t } ? { token: t } : h extends { kind: infer k; value: infer v } ? { kind: k; value: v } : "something else", ...Told<r>] : [];
type Tell<t> = t extends [infer m, infer s] ? [m, Told<s>] : t;
`;
function refusal(j) {
  const ok = chars();
  const ins = j.inputs;
  const p = runtimeFor(j, TELL + ins.map((i, n) =>
    i.token === undefined ? `type q${n} = L.Lex<${lit(i.text)}>;` : `type q${n} = Tell<L.Lex<${lit(i.text)}> extends infer t ? t extends L.Token[] ? Parse<t> : t : never>;\ntype w${n} = ${i.stack};`).join('\n') + '\n');
  clean(p, '/m/lex_state.gen.ts');
  clean(p, '/m/parse_state2.gen.ts');
  const q = evaluate(p, '/m/parse.ts');
  ins.forEach((i, n) => {
    const got = q(`q${n}`), T = `input ${JSON.stringify(i.text)}`;
    if (got === null) {
      if (i.text.length <= 12) bad(`${T}: the checker gives up on ${i.text.length} characters`);
      count('inputs_skipped_too_long_for_the_checker'); return;
    }
    const odd = [...i.text].find(ch => !ok.has(ch));
    if (odd !== undefined) {
      // the checker takes a text apart in UTF-16 units
      // (the wording is free: the message has to have this one, and no other one of the text)
      const msg = got.startsWith('"') ? JSON.parse(got) : '';
      const others = [...i.text].filter(ch => !ok.has(ch) && ch[0] !== odd[0]);
      if (![odd, odd[0]].some(x => msg.includes(x)) || others.some(x => msg.includes(x))) bad(`${T}: the first character that is not supported is ${JSON.stringify(odd)}, the type is ${got}`);
      count('unsupported_characters_named');
    } else if (i.token === undefined) {
      const msg = got.startsWith('"') ? JSON.parse(got) : '';
      const m = /^invalid symbol: `([^]+)` at index (\d+)$/.exec(msg);
      // worded differently, it still has to have the character and, elsewhere, the index
      const named = m ? m[1] === i.ch && Number(m[2]) === i.at : msg.includes(i.ch) && numbers(msg.replace(i.ch, ' ')).includes(i.at);
      if (!named) bad(`${T} cannot be tokenised from ${JSON.stringify(i.ch)} at index ${i.at}, the type is ${got}`);
      count('characters_named');
    } else if (i.steps > BUDGET) {
      if (!OVER.test(got)) bad(`${T} is refused after ${i.steps} shifts and reductions, the budget is ${BUDGET}; the type is ${got}`);
      count('beyond_the_budget');
    } else {
      const m = /^\[("(?:[^"\\]|\\.)*"),(.*)\]$/s.exec(got);
      if (!m || numbers(m[1]).join() !== String(i.token)) bad(`${T} cannot go on with token number ${i.token} after ${i.steps} shifts and reductions, the type is ${got}`);
      const want = q(`w${n}`);
      if (m[2] !== want) bad(`${T} is refused when ${want} has been read, the type says ${m[2]}`);
      count(i.token === 0 ? 'ends_named' : 'tokens_named');
    }
    evalOne(true, j.what + '\u0000' + i.text);
  });
  sample(`${j.what}\ninput ${JSON.stringify(ins[0].text)} -> ${q('q0')}`);
}

// ---------------------------------------------------------------- known findings
function probe(j) {
  // reproduces a listed finding; what it counts is what the orchestrator reports
  const P = j.mode.toUpperCase();
  try {
    if (j.mode === 'c02') {
      const p = new Prog(); const f = '/m/parse_state2.gen.ts';
      p.add(f, j.parse); p.add('/m/lex.ts', 'export type Token = { kind: string; value?: string };\n'); p.sharedRuntime(); p.build([f]);
      clean(p, f);
      if (p.semantic(f).some(d => d.code === 2300)) bad('declares a key twice');
    } else if (j.mode === 'c03') check({ ...j, what: j.id });
    else value({ ...j, what: j.id, inputs: [{ text: j.text, want: j.want, steps: 4 }] });
    count(`probe_passes:${j.id}`);
  } catch (e) {
    if (!(e instanceof Violation)) throw e;
    count(`known:${P}:${j.id}`);
  }
}

// ---------------------------------------------------------------- C06
function arith(j) {
  const p = new Prog();
  const f = '/m/arith_table.gen.ts';
  p.add(f, j.text);
  p.build([f]);
  clean(p, f);
  const d = p.semantic(f);
  if (d.length) bad(`the arithmetic tables have an error: ${msg(d[0])}`);
  const s = data(p.checker, p.alias(f, 'SuccTable')), q = data(p.checker, p.alias(f, 'PredTable'));
  for (let i = 0; i < j.n; i++) {
    if (s.get(String(i)) !== i + 1) bad(`size ${j.n}: successor of ${i} is ${s.get(String(i))}`);
    if (q.get(String(i + 1)) !== i) bad(`size ${j.n}: predecessor of ${i + 1} is ${q.get(String(i + 1))}`);
  }
  if (s.size !== j.n) bad(`size ${j.n}: the successor table has ${s.size} entries`);
  if (q.size !== j.n) bad(`size ${j.n}: the predecessor table has ${q.size} entries`);
  count('arithmetic_tables'); count('arithmetic_entries', s.size + q.size);
  evalOne(j.n > 0, `arith ${j.n}`);
}
function chartables(j) {
  const p = new Prog();
  const f = '/m/chars.ts';
  p.add(f, j.text);
  p.build([f]);
  clean(p, f);
  const d = p.semantic(f);
  if (d.length) bad(`${j.what}: error ${msg(d[0])}`);
  const byCode = data(p.checker, p.alias(f, 'Characters')), byChar = data(p.checker, p.alias(f, 'CharTable'));
  for (const [code, ch] of byCode) {
    if (typeof ch !== 'string' || [...ch].length !== 1) bad(`${j.what}: code ${code} stands for ${JSON.stringify(ch)}, not one character`);
    if (ch.codePointAt(0) !== Number(code)) bad(`${j.what}: code ${code} stands for ${JSON.stringify(ch)} of code ${ch.codePointAt(0)}`);
    if (byChar.get(ch) !== Number(code)) bad(`${j.what}: ${JSON.stringify(ch)} has code ${code} in one table and ${byChar.get(ch)} in the other`);
    count('character_entries');
    evalOne(true, `${j.what} ${code}`);
  }
  for (const [ch, code] of byChar) if (byCode.get(String(code)) !== ch) bad(`${j.what}: ${JSON.stringify(ch)} has code ${code}, which stands for ${JSON.stringify(byCode.get(String(code)))}`);
  if (byChar.size !== byCode.size) bad(`${j.what}: ${byCode.size} codes and ${byChar.size} characters`);
  for (let c = 32; c < 127; c++) if (!byChar.has(String.fromCharCode(c))) bad(`${j.what}: ${JSON.stringify(String.fromCharCode(c))} is not supported`);
  if (!byChar.has('\n')) bad(`${j.what}: newline is not supported`);
  count('character_tables');
  sample(`${j.what}: ${byChar.size} characters, e.g. ${JSON.stringify([...byChar].slice(30, 36))}`);
}

// ---------------------------------------------------------------- C07
function rng(seed) {
  let x = (seed ^ 0x9e3779b9) >>> 0;
  const next = () => { x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; return x; };
  for (let i = 0; i < 8; i++) next();
  return n => next() % n;
}
function library(j) {
  const r = rng(j.seed * 2654435761 + j.case);
  const N = j.n;
  const q = [];
  // `cost`: how far the operation has to count; the checker has to manage a few hundred
  const add = (expr, want, cost) => q.push([expr, want, cost]);
  const small = () => { const k = r(6); return k === 0 ? r(4) : k === 1 ? 900 - r(300) : k === 2 ? r(300) : r(60); };
  const big = () => (r(3) ? r(N) : [0, 1, 2, N - 1, N - 2, N >> 1][r(6)]);
  const B = b => String(b);
  for (let k = 0; k < 14; k++) {
    const a = small(), b = r(3) ? Math.max(0, a + r(7) - 3) : small(), m = Math.min(a, b);
    add(`U.Gte<${a}, ${b}>`, B(a >= b), m); add(`U.Gt<${a}, ${b}>`, B(a > b), m); add(`U.Lte<${a}, ${b}>`, B(a <= b), m); add(`U.Lt<${a}, ${b}>`, B(a < b), m); add(`U.Eq<${a}, ${b}>`, B(a === b), 0);
    add(`U.Sub<${Math.max(a, b)}, ${m}>`, B(Math.abs(a - b)), m);
    const x = big();
    add(`U.Succ<${x}>`, B(x + 1), 0); add(`U.Pred<${x}>`, B(Math.max(0, x - 1)), 0);
    add(`U.Pred<U.Succ<${x}>>`, B(x), 0);
    const y = Math.min(small(), N - 1), z = r(Math.max(1, N - y));
    add(`U.Add<${z}, ${y}>`, B(z + y), y);
    // one operand far out: only the smaller one is counted down
    const s = r(40);
    add(`U.Gt<${x}, ${s}>`, B(x > s), s); add(`U.Lt<${s}, ${x}>`, B(s < x), s); add(`U.Gte<${s}, ${x}>`, B(s >= x), s); add(`U.Lte<${x}, ${s}>`, B(x <= s), s);
    if (x >= s) add(`U.Sub<${x}, ${s}>`, B(x - s), s);
  }
  const el = () => ['1', '"a"', '[]', '{ k: 1 }', 'true', 'null', '[1, 2]', '"' + 'xyz'[r(3)] + '"'][r(8)];
  const far = () => (r(4) ? 40 + r(260) : 300 + r(500));
  for (let k = 0; k < 12; k++) {
    const n = [0, 1, 2, r(8), r(8), 20, 45, far()][r(8)];
    const l = Array.from({ length: n }, el);
    const T = v => `[${v.join(', ')}]`;
    add(`U.Reverse<${T(l)}>`, T([...l].reverse()), n);
    const m = r(n + 1);
    add(`U.PopNStack<${T(l)}, ${m}>`, T(l.slice(m)), m);
    add(`U.PopNStackWithValue<${T(l)}, ${m}>`, `[${T(l.slice(m))}, ${T(l.slice(0, m).reverse())}]`, m);
    const str = Array.from({ length: [0, 1, 2, r(12), 30, far()][r(6)] }, () => 'ab c\n"\\é()`$'[r(12)]).join('');
    const a = r(str.length + 1), b = a + r(str.length - a + 1);
    add(`U.Substring<${lit(str)}, ${a}, ${b}>`, lit(str.substring(a, b)), b);
    const ch = ' \nabx\t.'[r(7)];
    add(`U.IsWhitespace<${lit(ch)}>`, B(ch === ' ' || ch === '\n'), 0);
  }
  const p = new Prog();
  p.sharedRuntime();
  p.add('/m/q.ts', `import * as U from './util';\n` + q.map(([e, w], i) => `export type q${i} = ${e};\nexport type w${i} = ${w};`).join('\n') + '\n');
  p.build(['/m/q.ts']);
  const ev = evaluate(p, '/m/q.ts');
  q.forEach(([e, w, cost], i) => {
    const got = ev(`q${i}`), want = ev(`w${i}`);
    if (got === null) {
      if (cost <= 300) bad(`${e}: the checker gives up`);
      count('skipped_too_deep_for_the_checker'); return;
    }
    if (got !== want) bad(`${e} is ${got}, has to be ${want}`);
    count('operations_compared'); if (cost > 100) count('operations_counting_beyond_100'); count('op_' + e.slice(2).split('<')[0]);
    evalOne(true, e);
  });
  sample(q.slice(0, 6).map(([e, w]) => `${e} = ${w}`).join('; '));
}

// ---------------------------------------------------------------- driver
const judges = { lexread, parseread, check, lextype, value, refusal, probe, arith, chars: chartables, library };
const lines = fs.existsSync(A.jobs) ? fs.readFileSync(A.jobs, 'utf8').split('\n').filter(Boolean) : [];
if (A.arith && fs.existsSync(A.arith)) arithText = fs.readFileSync(A.arith, 'utf8');
const cap = A.cap ? Number(A.cap) : 1e9;
const t0 = Date.now();
let code = 0;
// what has been observed so far survives the death of this process
const save = () => {
  fs.writeFileSync(A.out + '.tmp', JSON.stringify({ ...R, distinct: [...R.distinct] }));
  fs.renameSync(A.out + '.tmp', A.out);
};
const first = Number(A.from ?? 0);
let saved = 0;
for (const [n, l] of lines.entries()) {
  if (n < first) continue;
  if ((Date.now() - t0) / 1000 > cap) { count('stopped_by_time_cap'); break; }
  const j = JSON.parse(l);
  try {
    if (Date.now() - saved > 100) { save(); saved = Date.now(); }
    fs.writeFileSync(A.out + '.cur', String(n));
    const t1 = Date.now();
    judges[j.job](j);
    if (A.times) console.error(j.case, j.job, Date.now() - t1, 'ms', JSON.stringify((j.inputs ?? []).map(i => i.steps)));
    count('jobs');
  } catch (e) {
    if (e instanceof Violation) {
      R.violation = { case: j.case, message: e.message, input: `${j.what ?? j.id ?? ''}\n--- lexer module ---\n${j.lex ?? ''}\n--- parser module ---\n${j.parse ?? ''}` };
      code = 1;
    } else { R.error = `judge: case ${j.case}: ${e.stack}`; code = 3; }
    break;
  }
}
save();
process.exit(code);
