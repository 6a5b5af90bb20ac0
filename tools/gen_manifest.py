#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. A property is claimed iff the harness registers it."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = set()
for f in glob.glob(V + "/mc/checks/*.go"):
    built |= set(re.findall(r'register\("(C\d\d)"', open(f).read()))
T = {
 "env": "bounded model checking of the real code: exhaustive exploration of operation sequences x environment answers (transport fragmentation, faults) with a reference model",
 "ops": "bounded model checking of the real code: exhaustive exploration of operation sequences against a reference model",
 "fault": "bounded model checking of the real code: exhaustive fault-point enumeration over operation sequences with a reference model",
 "inp": "bounded model checking of the real code: exhaustive enumeration of a bounded value/token space (choice tree, all leaves executed) against an independent reference model of the protocol",
 "sched": "stateless model checking of the real code: exhaustive preemption-bounded exploration of thread interleavings under a controlled scheduler, each run under the Go race detector",
}
K = dict(C01="env",C02="env",C03="env",C04="env",C05="ops",C06="fault",C07="ops",C08="fault",C09="inp",C10="inp",C11="env",C12="ops",C13="inp",C14="inp",C15="inp",C16="ops",C17="inp",C18="env",C19="inp",C20="env",C21="inp",C22="ops",C23="inp",C24="sched",C25="ops",C26="ops",C27="inp",C28="inp",C29="inp",C30="ops")
NOTE = "Every leaf of the scenarios' choice trees is executed on the library built from /repo's tree and compared step by step with a reference model written from the documented behaviour; the bounds of every scenario are listed in the evidence file. Trusted: the Go toolchain and standard library, the reference model, the explorer. Behaviour outside the bounds is not covered."
NOTES = {"C24": "Every statement of the library is a scheduling point (inserted textually into a copy of the working tree at check time through a build overlay, nothing is kept in /repo; sync.Mutex/RWMutex/Once/Pool are replaced by scheduler-aware ones). All interleavings up to the stated preemption bound are executed, each also under the Go race detector with no synchronisation edge added by the scheduler, and every result is compared with the one the operation gives when run alone. Trusted: sequential consistency for the value comparison (the race detector covers weak-memory effects), the rewrite, the scheduler."}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({"property": i, "quick_cmd": f"sh check.sh {i} quick", "thorough_cmd": f"sh check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": T[K[i]], "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet (planned, see DESIGN.md)"})
m = {"version": 1, "setup_cmd": "sh check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed to /repo: harnesses use the public API, and the interleaving check instruments a copy of the sources through a build overlay at check time. Replay a violation with: sh check.sh replay <file>."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
