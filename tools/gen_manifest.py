#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "stateful model-based testing (rapid) of mutation histories against a reference graph",
 "C02": "stateful model-based testing (rapid) of label lookups against a reference graph",
 "C03": "stateful model-based testing (rapid) of property and label reads, with aliasing faults",
 "C04": "stateful model-based testing (rapid) of property-presence lookups with random indexes",
 "C05": "stateful model-based testing (rapid) and index/no-index differential of property queries",
 "C06": "property-based testing (rapid) of iterator laws over graphs reached by random histories",
 "C07": "property-based testing (rapid) of order laws against a reference comparison",
 "C08": "property-based round-trip testing (rapid) with an independent isomorphism oracle and JSON parser",
 "C09": "property-based testing (rapid) with a grammar of documents and a reference decoder",
 "C10": "grammar-based and mutation fuzzing (rapid) of the decoder against a reference acceptor, with reader faults",
 "C11": "property-based testing (rapid) with recording hooks and injected hook errors",
 "C12": "exhaustive write-fault injection over generated graphs (rapid)",
 "C13": "property-based testing (rapid) with a reference copy, followed by random mutations of both graphs",
 "C14": "property-based testing (rapid) against a reference reachability and selection model",
 "C15": "property-based differential testing (rapid) against a brute-force isomorphism search",
 "C16": "property-based differential testing (rapid) against a brute-force pattern matcher",
 "C17": "property-based differential testing (rapid) against a brute-force trail enumerator",
 "C18": "property-based differential testing (rapid) against a brute-force binding model",
 "C19": "metamorphic testing (rapid): reversal, indexes, build order and start item",
 "C20": "stateful model-based testing (rapid) of paths against node/edge sequences",
 "C21": "stateful model-based testing (rapid) of cursors against a reference graph and path",
 "C22": "stateful model-based testing (rapid) of string sets with copies against reference sets",
 "C23": "stateful model-based testing (rapid) of node and edge collections against reference sets",
 "C24": "property-based testing (rapid) with an independent DOT parser",
 "C25": "stateful model-based testing (rapid) of traversal helpers against a reference graph",
 "C26": "property-based testing (rapid) of repeated reads with full before/after state comparison",
 "C27": "stateful model-based testing (rapid) over two interleaved graphs",
 "C28": "property-based testing (rapid) of concurrent reads under the race detector, differential against the same reads alone",
 "C29": "property-based testing (rapid) of lookups in large graphs, metamorphic against the cost of a scan of the same graph",
}
NA = {}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "bash check.sh %s quick" % p,
        "thorough_cmd": "bash check.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH[p],
        "level": "exploration",
        "level_note": "Generated-input search against an explicit oracle (DESIGN.md, section on %s): a failure is a real counterexample, shrunk and replayable; passing means no counterexample among the generated cases, whose number, classes and samples are in the evidence file. Trusts the oracle in harness/ and the input domain of DESIGN.md section 3." % p,
    })
m = {
 "version": 1,
 "setup_cmd": "bash check.sh setup",
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "Needs no hooks in /repo: every check uses the exported API. Replay a failure with: bash check.sh replay FILE",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
