// node check.cjs DIR: DIR/cases.json lists [expression, expected type] pairs, evaluated in the
// scope of DIR/parse.ts; an expected type of null means "must not have errors" for a whole file.
const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const dir = process.argv[2];
const cases = JSON.parse(fs.readFileSync(path.join(dir, 'cases.json'), 'utf8'));
const p = path.join(dir, 'parse.ts');
let extra = '\n';
cases.forEach(([e, want], i) => { if (want !== null) extra += `export type R${i} = ${e};\nexport type W${i} = ${want};\n`; });
fs.appendFileSync(p, extra);
const program = ts.createProgram([p], { strict: true, noEmit: true, target: 99, types: [] });
const checker = program.getTypeChecker();
const show = t => checker.typeToString(t, undefined, ts.TypeFlags.NoTruncation | ts.TypeFormatFlags.NoTruncation | ts.TypeFormatFlags.InTypeAlias);
let bad = 0;
cases.forEach(([e, want], i) => {
  if (want === null) {
    const f = program.getSourceFile(path.join(dir, e));
    const ds = [...program.getSyntacticDiagnostics(f), ...program.getSemanticDiagnostics(f)];
    if (ds.length) { bad++; console.log(e, '->', ts.flattenDiagnosticMessageText(ds[0].messageText, ' ')); }
    return;
  }
  let got, exp;
  for (const s of program.getSourceFile(p).statements) {
    if (!ts.isTypeAliasDeclaration(s)) continue;
    if (s.name.text === `R${i}`) got = show(checker.getTypeAtLocation(s));
    if (s.name.text === `W${i}`) exp = show(checker.getTypeAtLocation(s));
  }
  if (got !== exp) { bad++; console.log(`${e}\n  is       ${got}\n  expected ${exp}`); }
});
process.exit(bad ? 1 : 0);
