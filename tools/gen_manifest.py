#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
base = "exploration: generated histories against an executable oracle, case counts fixed per tier, every failure shrunk to a replay file. Silent means no counterexample among the cases counted in the evidence file, not absence. Trusts the reference model in /verif/harness and the toolchain. "
T = {
 "C01": ("model-based stateful property testing (existence model)", ""),
 "C02": ("model-based stateful property testing (id allocation validity predicate)", ""),
 "C03": ("model-based stateful property testing (map model, all access paths)", ""),
 "C04": ("model-based stateful property testing (state after removals)", ""),
 "C05": ("model-based property testing of generated queries (join computed by the model)", "Query shapes come from a fixed table of monomorphic types (see DESIGN)."),
 "C06": ("model-based property testing of generated queries (exclusion computed by the model)", "Query shapes come from a fixed table of monomorphic types (see DESIGN)."),
 "C07": ("model-based stateful property testing (group query = join)", ""),
 "C08": ("invariant checking over generated histories (packed prefix, alignment)", ""),
 "C09": ("model-based stateful property testing (admission rule)", ""),
 "C10": ("differential property testing (same history with and without groups)", ""),
 "C11": ("stateful property testing with injected rejected calls (state before = after)", ""),
 "C12": ("differential property testing (batches against single calls)", ""),
 "C13": ("stateful property testing with destructor accounting", ""),
 "C14": ("stateful property testing over instrumented locks (reader/writer model predicts blocking)", "Assumes all blocking goes through parking_lot locks, which are replaced by an instrumented copy."),
 "C15": ("property testing of generated schedules (controlled scheduler, sequential-consistency oracle)", "Interleavings at lock granularity, few threads and calls; assumes all synchronisation goes through parking_lot."),
 "C16": ("model-based property testing of iterator scripts", ""),
 "C17": ("model-based stateful property testing (resource map model)", ""),
 "C18": ("model-based stateful property testing (view coherence)", ""),
 "C19": ("generated histories under AddressSanitizer and debug assertions, value tokens, allocation balance", "AddressSanitizer and standard-library precondition checks define what counts as a memory error; aliasing rules are not checked."),
 "C20": ("model-based property testing of writes through queries", ""),
 "C21": ("differential property testing (handles against ids)", ""),
 "C23": ("metamorphic property testing (same history with and without calls that only look)", ""),
 "C24": ("metamorphic property testing (same history under different registrations)", ""),
 "C25": ("generated rounds of calls repeated a thousand times (id bound and allocation balance invariant)", "Growth of less than four bytes per round is not seen."),
 "C26": ("stateful property testing with injected panics of the caller's code (state before = after, nothing held)", ""),
 "C27": ("differential property testing (one thread against calls spread over threads)", ""),
 "C28": ("stateful property testing of held handles against a model, and generated schedules of threads that hold handles", ""),
 "C29": ("property-based testing over generated programs: each one with a forbidden step must be turned away by the compiler, and its twin without it accepted", ""),
 "C22": ("differential property testing (worlds together against alone)", ""),
}
import subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(open(os.path.join(here, "tools/claimed.txt")).read().split())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo: the harness replaces parking_lot by an instrumented copy through Cargo's [patch] in its own workspace."}
for p in props:
    t, n = T[p]
    if p in have:
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": (base + n).strip()})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
