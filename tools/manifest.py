#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
TECH = {
    "C06": "property-based testing of generated boxes against interval arithmetic in wider integers",
    "C07": "property-based testing of generated shapes against exact rational geometry",
    "C08": "model-based property testing of built-in filters against exact geometry of every entry",
    "C11": "property-based testing of generated points, boxes and vectors against exact integer arithmetic",
    "C12": "model-based property testing of joins against a nested loop over the models of both trees",
    "C13": "model-based property testing of left joins and their inner iterators against a nested loop",
    "C14": "stateful property testing with an invariant over the node structure after every step",
    "C15": "stateful property testing with an invariant over the node structure after every step",
    "C16": "stateful property testing with recorded callbacks checked against the nodes that had to be visited",
    "C17": "stateful property testing of families of clones, each against its own model",
    "C18": "stateful property testing with entries that count themselves",
    "C19": "stateful property testing under a checking allocator, AddressSanitizer and Miri",
    "C20": "generated histories with a panic injected into the n-th user callback",
    "C22": "stateful property testing and metamorphic relations (moved, mirrored, permuted, converted coordinates)",
    "C24": "generated concurrent queries against their sequential results, also under Miri and ThreadSanitizer",
}
NOTE = {
    "C07": "Exact rational oracle; only misses narrower than about 1e-11 of the distances may go either way.",
    "C14": "Sampled. The structure of the tree is read from its Debug output.",
    "C15": "Sampled. The structure of the tree is read from its Debug output.",
    "C16": "Sampled. The structure of the tree is read from its Debug output; the keys examined are seen by the harness's own callbacks.",
    "C19": "Sampled. Memory errors are seen by the checking allocator and AddressSanitizer; undefined behaviour without effect by Miri only, on fewer and shorter cases.",
    "C20": "Sampled histories; in each chosen operation the first calls of every kind of callback are all made to panic.",
    "C24": "Sampled schedules; Send and Sync are probed by type. Data races are seen by Miri, and by ThreadSanitizer in the thorough tier.",
}
checks = []
for i in ids:
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, "stateful property testing against a reference model"),
        "level": "exploration",
        "level_note": NOTE.get(i, "Sampled: holds on every generated case, against an oracle that shares no code with the library.")
        + " Assumes the domain stated in DESIGN.md.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks use the public API only. ./replay.sh FILE runs a replay file again.",
}, open(f"{root}/MANIFEST.json", "w"), indent=1)
