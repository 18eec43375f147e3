#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks there are."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = {
 "C01": ("property-based testing: generated item sets and queries against a float64 brute-force k-NN", ""),
 "C02": ("property-based testing: generated forests against an independent reader of the file format", ""),
 "C03": ("property-based testing: generated queries against a validity predicate and a pigeonhole length oracle", ""),
 "C04": ("property-based testing: reference best-first specification evaluated on the parsed forest, metamorphic budget laws, recall floor", ""),
 "C05": ("stateful property-based testing against a map model", ""),
 "C06": ("property-based testing: round-trip and metamorphic relations over save/load chains", ""),
 "C07": ("stateful property-based testing with injected faults (write limits, failing allocators, damaged files, the saving process killed) against a model of file contents", ""),
 "C08": ("stateful (model-based) testing of call histories with invalid calls against a life-cycle state machine", ""),
 "C09": ("property-based testing: differential/metamorphic byte and forest equality over seeds and knobs", ""),
 "C10": ("property-based testing over generated schedules (harness-owned scheduler behind the lock interface), plus generated builds under the race detector", ""),
 "C11": ("property-based testing: generated query histories against fresh-context answers; concurrent ones under the race detector", ""),
 "C12": ("property-based testing: generated vectors against a float64 reference and metric laws", ""),
 "C13": ("property-based testing: generated item sets against brute-force maximum inner product search", ""),
 "C14": ("property-based and model-based testing of slices, ranges and heap histories against reference sorts", ""),
 "C15": ("property-based testing: generated seeds and histories against an independent KISS implementation, range and balance invariants", ""),
 "C16": ("property-based testing over sparse virtual memory and sparse files beyond 4 GiB against a map model and brute force", ""),
 "C17": ("property-based testing with guard-page allocators (any stray access faults) and byte-wise allocator models", ""),
 "C18": ("property-based testing: closed-form tree counts checked on the parsed forest", ""),
 "C19": ("stateful property-based testing of several indexes against per-index models, descriptor/mapping census, race detector", ""),
 "C20": ("property-based testing with generated user-written plug-ins: brute force under the custom distance and contract monitors", ""),
 "C22": ("property-based testing of the command with generated arguments: its report is recomputed from the index it keeps", ""),
 "C23": ("property-based testing: files made by a generator of well-formed forests, brute force and a reference best-first search as oracles", ""),
 "C24": ("stateful property-based testing with heap accounting, and counted plug-in calls against a reference search", ""),
 "C21": ("property-based testing: generated inputs against float64 and multiset references", ""),
}
NOTE = ("Searches generated cases with an explicit oracle on every run (pure function of code and VERIF_SEED, except real thread schedules); "
        "shows presence of violations, not absence. Trusts the Go toolchain, the Linux kernel and the harness's own reference model. ")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/%s/%s_test.go" % (V, i.lower(), i.lower())):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": T[i][0],
            "level": "exploration",
            "level_note": (NOTE + T[i][1]).strip(),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check uses the public API and its plug-in interfaces; commits in /repo are fixes only."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
