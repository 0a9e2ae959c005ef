#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MB = "stateful model-based property testing against std::collections::BTreeMap"
T = {
 "C01": MB,
 "C02": MB + ", over eight branching factors",
 "C03": "stateful model-based property testing against std::collections::BTreeSet with tracked element instances",
 "C04": "stateful model-based property testing of clone families, every copy compared with its own model after every step",
 "C05": "property testing of set algebra against std::collections::BTreeSet over operands with generated sharing",
 "C06": "property testing of bulk combination and splitting against a reference model, over operands with generated sizes and sharing",
 "C07": "property testing of iterators by generated front/back interleavings and adapters against the model sequence",
 "C08": "property testing of range queries with generated bounds and interleavings against the model sequence",
 "C09": "stateful property testing with the structural self-check as invariant, and comparison counting against logarithmic bounds",
 "C10": "property testing with clone-counting elements against logarithmic copy bounds",
 "C11": "stateful property testing with a registry of live element instances (use after drop, double drop, leak)",
 "C12": "property testing of serde round trips and generated entry streams, length hints and stream errors against a model",
 "C13": "property testing of comparison, hashing and Debug against the element sequences (differential and algebraic laws)",
 "C14": "stateful model-based property testing against Vec",
 "C15": "property testing on stacks of generated great depth, run on a thread with a small call stack",
 "C16": "stateful model-based property testing over many key and value types, with a registry of live instances",
 "C17": "fault injection: generated operations re-run with a panic at every kind of user callback, then model comparison and instance accounting",
 "C18": "stateful model-based property testing of the entry interface with call-counting closures",
 "C19": "stateful model-based property testing of writes through mutable access",
 "C20": "model-based property testing under a seeded deterministic thread scheduler, plus free-running threads and threads released at the same instant onto clones of one collection",
 "C21": "property testing with generated contract violations of Ord, Clone and size_hint: registry of live instances, untouched copies compared, termination bounds",
}
NOTE = {
 "C09": "Random and structured histories; balance and order are judged by the crate's own check() where the type has one and by counted comparisons against explicit bounds everywhere (fixed::BTreeMap has no check()).",
 "C15": "Built without optimisation, so that tail calls stay calls. Depths of 60000 to several hundred thousand elements on a 128 KiB call stack; a crash of the worker process is reproduced in isolation before it is reported.",
 "C17": "Panics are injected at generated (not all) callback positions of each generated operation; leaks of elements in flight are allowed.",
 "C20": "Interleavings at element clone, comparison and drop granularity are generated and replayable; races inside a single library step are met by chance only, in the free-running mode and when threads start the same step at the same instant. Stack is not Send and not covered.",
 "C12": "Builds the crate with its serde feature; the data format is our own, so order, hints and failures are generated.",
 "C21": "The misbehaviours are generated from a list of families (random, constant, reversed, modular, incomparable, cyclic; changing within a history); what an unlawful collection contains is not judged.",
}
DEF = "Generated-input search with an explicit oracle: no violation in the cases generated (counts and samples in the evidence file); it does not establish absence. Trusts std's collections as the reference and the harness's own models."
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [
  {
   "property": i,
   "quick_cmd": f"bash check.sh {i} quick",
   "thorough_cmd": f"bash check.sh {i} thorough",
   "technique": T[i],
   "level": "exploration",
   "level_note": (NOTE[i] + " " if i in NOTE else "") + DEF,
  }
  for i in ids
 ],
 "not_applicable": [],
 "notes": "Every check builds harness/ (own workspace, path dependency on /repo, offline) against /repo's working tree and runs lcc-check; see DESIGN.md. All but C15 also run a share of their cases with the release build (no debug assertions). No hooks in /repo.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
