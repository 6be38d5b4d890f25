#!/usr/bin/env python3
"""writes /verif/MANIFEST.json; run after editing"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "W01": ("shadow execution: online differential monitor, quantity operator vs bare operator", "24 operators x 14 storage types on boundary-directed value grids over generated unit types; sampled, not exhaustive"),
 "W02": ("type-level event log (const-generic reflection) checked against exponent algebra", "every exponent -200..200 observed as left operand, right operand and result of each type-level operation; products of exponents sampled"),
 "W03": ("compile-outcome monitor: generated incoherent/coherent twin programs, rustc diagnostics as events", "each incoherence kind x operator observed on sampled types; rejection is observed per statement"),
 "W04": ("value log of real rescales checked offline against exact rational/80-digit-pi oracle", "sampled scale pairs incl. every single-prime exponent difference class; tolerance of a few ulps"),
 "W05": ("value/panic log of real integer rescales checked offline with exact rational arithmetic", "overflow-checked build; boundary-directed values for all 12 integer types"),
 "W06": ("value log of real erasures checked offline with exact rational/80-digit-pi oracle", "all permitted source/target pairs, sampled scales and values"),
 "W07": ("reference evaluator over generated unit expressions vs compile-time types and runtime conversion, both observed", "expressions sampled from the grammar; every production and every catalogue unit exercised"),
 "W08": ("observed magnitude of every spelling checked against an independent SI/NIST catalogue", "exhaustive over catalogue units, names, symbols and permitted prefixes in each declaration form (macro spellings sampled in quick tier where noted)"),
 "W09": ("cross-form differential monitor (macro, method, literal, run-time text) on observed types and values", "exhaustive over units and forms; values sampled"),
 "W10": ("value log of declare-then-read programs checked offline against exact ratios and zero points", "unit pairs and values sampled; affine units covered completely"),
 "W11": ("observed type/brand/magnitude of scale-preferred declarations vs physical oracle", "generated declarator modules; sampled preferred scales and units"),
 "W12": ("serialize/deserialize history replayed across scales, physical magnitude conserved", "sampled unit types, values and storage types"),
 "W13": ("oracle-monitored fuzzing of run-time text reading with crash, overflow and hang watch", "grammar-directed, mutated and random text; panics, aborts and hangs observed out of process"),
 "W14": ("formatted output parsed back and checked against exact conversion", "sampled units, values, precisions; mismatched and malformed texts"),
 "W15": ("printed unit text re-read by reference parser and compared with the observed type", "catalogue scales/dimensions plus random exponents; injectivity monitored over everything printed"),
 "W16": ("compile-outcome monitor over generated generic-dimension definitions and bounds", "membership decided by exponent algebra; per-statement rustc diagnostics observed"),
 "W17": ("differential monitor: one generated program set built on both back ends, logs compared", "nightly needed for cge; programs sampled from every other check's generators"),
 "W18": ("counting allocator, size/alignment observation, and no_std / no-alloc builds run and compared", "debug and release builds; feature combinations enumerated"),
 "W19": ("end-to-end message-history monitor (exactly-once, order, byte equality) with fake server, random chunking", "generated histories of unique messages; both directions concurrently"),
 "W20": ("reference renderer and text-preservation monitor over generated compiler/hover/inlay text", "types and texts sampled; panics observed out of process"),
 "W21": ("lookup log of the real table functions checked against the independent catalogue and a literal-reading oracle", "exhaustive over catalogue spellings and prefixes; other texts sampled"),
 "W22": ("diagnostic monitor: rustc's messages for thousands of macro invocations, and the suggestions they make tried out", "meaningless and meaningful arguments generated with every macro; panics, silent acceptance and bad suggestions observed"),
 "W23": ("differential monitor: each expression evaluated by the compiler and at run time in one program, bits compared", "expressions, units, storage types and values sampled; integer rescales that must fail are observed to fail both ways"),
 "W24": ("evaluation monitor: counting and diverging arguments, hostile scopes and caller's macros, each against the call on a plain variable", "argument shapes, scopes and calls sampled; type, bits, evaluation count and control flow observed"),
 "W25": ("algebra monitor: run-time and type-level vectors, scales and numbers against integer vectors; generated names read back by an independent reader", "every type-level number of the stable range as operand and result; vectors, scales and types sampled"),
}
done = [p for p in sorted(T) if os.path.exists(os.path.join(R, "vlib", p.lower() + ".py"))]
na_path = os.path.join(R, "tools", "not_applicable.json")
na = json.load(open(na_path)) if os.path.exists(na_path) else []
m = {
 "version": 1,
 "setup_cmd": "python3 tools/setup.py",
 "checks": [{
   "property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough",
   "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "exploration",
   "level_note": "Held on the executions observed, never more: " + T[p][1] + ". Trusts rustc, the Python oracle and Quantity's public type parameters."}
   for p in done],
 "not_applicable": na + [{"property": p, "reason": "check not built yet"} for p in sorted(T) if p not in done and p not in {x["property"] for x in na}],
 "notes": "No hooks in /repo are needed: everything is observed at public boundaries (types, values, compiler diagnostics, process output).",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
print(len(done), "checks")
