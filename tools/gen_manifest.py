#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "round trip against an independent VLQ decoder, generated lists and interval sweeps",
 "C02": "generated mapping sequences against an independent v3 decoder",
 "C03": "generated headers against first-use lists",
 "C04": "stateful generation of content histories against a map model",
 "C05": "stateful generation, differential against histories without reads and permutations",
 "C06": "generated mappings of every shape against a validity predicate",
 "C07": "write/read round trip over generated histories",
 "C08": "generated documents and queries against linear-scan model",
 "C09": "generated documents and queries against linear-scan model",
 "C10": "generated documents and queries against linear-scan model",
 "C11": "generated documents, enumeration as ordered permutation",
 "C12": "stateful request histories against next-on-line model",
 "C13": "stateful request histories, differential against fresh consumers",
 "C14": "metamorphic relations over generated documents",
 "C15": "structured URL generation against an independent reference-resolution model",
 "C16": "structured URL generation against an independent reference-resolution model",
 "C17": "generated documents and queries against direct look-up",
 "C18": "structured URL generation against an independent model and algebraic laws",
 "C19": "generated sectioned documents against translated linear scan",
 "C20": "generated sectioned documents against translated linear scan",
 "C21": "generated sectioned documents, differential against sections opened alone",
 "C22": "generated offset lists over thread-pool sizes against an order predicate",
 "C23": "generated sectioned documents against direct look-up",
 "C24": "mutated documents and text fuzzing against an independent classifier",
 "C25": "fault injection into mappings texts, nothing-delivered invariant",
 "C26": "generated extreme positions, refusal / model oracle",
 "C27": "generated lists against naive search",
 "C28": "stateful generation against a vector model",
 "C29": "stateful generation, ordered-permutation predicate",
 "C30": "generated mapping tuples against a lexicographic model and order axioms",
 "C31": "parse/serialise round trip over generated documents",
 "C32": "differential between entry points over generated documents",
 "C33": "round trip through consumer and generator over generated documents",
 "C34": "generated interleavings and threads of several objects, each against its own model",
 "C35": "metamorphic relation between generated documents and their cuts into sections",
 "C36": "metamorphic relation between generated documents and restatements of them",
}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "property-based testing: " + T[i],
        "level": "exploration",
        "level_note": "Searches generated cases (a pure function of VERIF_SEED) with an explicit oracle independent of the library; "
                      "finds counterexamples, never proves absence. Trusts serde_json, proptest and the oracle; domain limits are "
                      "listed as assumptions in the evidence file and in DESIGN.md.",
    })
m = {"version": 1, "setup_cmd": "cd harness && cargo build --release --offline", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is decided through the public API. Known findings: known_findings.txt (all fixed)."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
