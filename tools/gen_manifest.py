#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
T = {
 "C01": "model-based random testing: generated grammars and inputs against a reference PEG interpreter",
 "C02": "model-based random testing with an instrumenting probe around every sub-parser of generated grammars",
 "C03": "model-based random testing: failures of generated grammars against a reference interpreter",
 "C04": "metamorphic random testing: the same generated grammar with and without recovery, valid and corrupted inputs",
 "C05": "model-based random testing: generated recovery strategies against a reference interpreter of their documented steps",
 "C06": "model-based random testing plus exhaustive enumeration of small inputs of the repetition combinators",
 "C07": "metamorphic random testing: streaming against separate parses of each leftover",
 "C08": "random testing with an instrumented token source (pulls, polls after the end, live tokens)",
 "C09": "stateful model-based testing: random histories of cursor operations against a reference cursor",
 "C10": "model-based random testing: positions in outputs and errors against an independent location computation",
 "C11": "differential random testing of the delimiter scanner against a reference scan",
 "C12": "differential random testing over token and container types",
 "C13": "metamorphic random testing: generated grammars against equivalent rewritings",
 "C14": "differential random testing: the same generated grammar with five error types",
 "C15": "random testing of algebraic laws of parse results",
 "C16": "round-trip random testing: rendered errors and locations are read back",
 "C17": "fuzzing of generated grammars and inputs for panics, hangs and stack overflows, with step budgets from a reference interpreter",
 "C18": "metamorphic random testing: repeated, cloned and interleaved runs of the same parser",
 "C19": "differential property-based testing (shrinking choice tapes): generated token rules and texts against a reference longest-match tokenizer",
 "C20": "differential property-based testing (shrinking choice tapes): generated and mutated grammar texts and their inputs against a reference parser and PEG interpreter",
 "C21": "metamorphic and differential property-based testing: bootstrap fixpoint under random layout, and generated Rust parser against the Python tool on generated texts",
 "C22": "differential property-based testing: generated grammars are turned into Rust parsers by the tool, built, and compared with the tool and a reference PEG interpreter on generated inputs",
 "C24": "metamorphic property-based testing (shrinking choice tapes): generated documented rules; the documentation of the generated code is read with a Rust parser",
 "C25": "differential property-based testing (shrinking choice tapes): errors for rejected generated texts against the misses of a reference PEG interpreter",
 "C26": "differential property-based testing (shrinking choice tapes): a JSON parser made of the combinators against a hand-written recursive-descent reader, on generated and damaged documents and lines",
 "C23": "property-based testing (shrinking choice tapes): generated well-formed grammars with one injected defect or a look-alike of one",
}
NA = {
}
if not os.path.exists(f"{root}/pangram/run.sh"):
    for i in ("C19", "C20", "C21", "C22", "C23", "C24"):
        NA[i] = "the check is still being built"
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": f"/verif/run.sh {i} quick", "thorough_cmd": f"/verif/run.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration",
                   "level_note": "generated-input search against an explicit oracle; failures are shrunk and replayable (harness --replay)"})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: every check uses the public interface. See DESIGN.md."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
