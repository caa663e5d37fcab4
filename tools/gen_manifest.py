"""Writes MANIFEST.json (run by hand)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import vp
T = {
 "F01": "reference-model monitor: every source is also read by an independent hand-written reader and the two results are compared",
 "F02": "reference-model monitor: an independent reader decides well-formedness; crash, panic and hang supervision",
 "F03": "invariant monitor: numbering recomputed from the syntax tree, lookups and order laws checked on the live model",
 "F04": "outcome monitor: independent defect analysis against the observed refusal, crash and hang supervision",
 "L01": "reference-model monitor: set-of-positions matcher on the regex tree, cross-checked with the regex crate",
 "L02": "invariant monitor: partition laws on observed splits and determinism of the live automata",
 "L03": "trace monitor: token stream against a maximal-munch reference lexer",
 "L04": "trace monitor: kind of every tied token against the listing order, alone and in context",
 "L05": "trace monitor: converted stream against an index recomputed by text",
 "P01": "reference-model monitor: least-fixpoint FIRST sets",
 "P02": "outcome monitor: independent LALR(1) decision (two constructions), renamed and reordered copies",
 "P03": "reference-model monitor: state-by-state bisimulation with independently built LALR(1) tables, and runs on both",
 "P04": "reference-model monitor: independent canonical LR(1) sets and merge by core",
 "P05": "outcome monitor: reference lexer and Earley recogniser",
 "C01": "reading back the generated module through the TypeScript checker and replaying inputs on it",
 "C02": "reading back the generated module through the TypeScript checker, entry by entry",
 "C03": "diagnostics monitor: the TypeScript checker on the generated modules with the shipped runtime",
 "C04": "differential trace monitor: types computed by the checker against the in-process tokens",
 "C05": "reference-model monitor: types computed by the checker against reference evaluation of the mappings",
 "C06": "reading back the generated tables through the TypeScript checker against arithmetic",
 "C07": "reference-model monitor: types computed by the checker against integer, list and string operations",
 "C08": "reference-model monitor: declared types read back through the checker, and types of parses against whether every value fits its annotation",
 "C09": "reference-model monitor: the type-level refusal against the point where the reference lexer or tables refuse",
 "G01": "byte comparison of outputs over processes, threads, histories and layouts",
 "G02": "Miri, AddressSanitizer and MemorySanitizer on the whole pipeline, ThreadSanitizer and Miri on several pipelines at once",
 "G04": "trace comparison: outcomes in long mixed histories, on threads and in fresh processes against the same operation done alone",
 "P07": "reference-model monitor: the conflict named by the refusal against the actions of the independently built automaton",
 "P06": "reference-model monitor: the refusal's message against the point where the independently built tables refuse",
 "G03": "outcome, CPU-time and stack supervision of long, large and hostile workloads",
}
N = {
 "G02": "Exploration: no report on the executed workload. Compiled sanitizers cover the full workload, Miri small cases. Assumes the tools see the errors that occur; leaks are not judged.",
 "G03": "Exploration: 'bounded' means a CPU budget of 30 s per case and an 8 MB stack, both far above what the cases take.",
 "G01": "Exploration: outputs compared byte for byte over processes (fresh hash seeds and address layout), up to 8 threads at once, and histories. The crate has no shared mutable state, so no schedule control is used.",
}
D = "Exploration: the property held on every execution observed; workloads are random, seeded and biased to hostile shapes. Trusts the reference model of the harness"
for p in ("C01","C02","C03","C04","C05","C06","C07","C08","C09"): N[p] = D + " and TypeScript 5.9.3. The runtime under ts/ is read from /repo at every run."
checks = []
for p in sorted(vp.ALL):
    checks.append(dict(property=p, quick_cmd=f"python3 vp.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 vp.py {p}", evidence_file=f"evidence/{p}.json",
        technique="runtime monitoring: " + T[p], level="exploration", level_note=N.get(p, D + ".")))
m = dict(version=1, setup_cmd="python3 vp.py setup", checks=checks, not_applicable=[],
  notes="No hooks: everything the monitors observe is public in the crate. Known findings are in known-findings.txt.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
