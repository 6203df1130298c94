#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the check programs present in checks/.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
S = "explicit-state / stateless model checking of the real code: "
SEQ = S + "exhaustive enumeration of bounded command histories run on the real server under a virtual OS, against a reference model"
INP = S + "exhaustive enumeration of a bounded input grammar run on the real server under a virtual OS, against an independent oracle"
SCH = S + "all thread interleavings up to a preemption bound under a controlled scheduler and virtual OS"
SCF = S + "all thread interleavings up to a preemption bound combined with all fault placements up to a fault bound"
TECH = {"C01": SEQ, "C02": SEQ, "C04": INP, "C06": SEQ + "; plus all interleavings up to a preemption bound", "C09": SEQ, "C20": SEQ, "C22": SEQ, "C29": INP, "C31": INP, "C33": SEQ, "C34": INP, "C32": SCF, "C14": SCF, "C28": SCF}
NOTE = {}
exec(open(V + "/tools/notes.py").read()) if os.path.exists(V + "/tools/notes.py") else None
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.cpp"):
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"./run.sh {i} --thorough --time 3000",
            technique=TECH.get(i, SCH), level="model_checking",
            level_note=NOTE.get(i, "Exhaustive within the bounds reported in the evidence; executes the repository's own compiled code, so no model has to be kept in step. Assumes sequentially consistent memory and the virtual kernel of mc/mcrt.cpp.")))
    else:
        na.append(dict(property=i, reason="not claimed: no check has been completed for this property yet"))
json.dump(dict(version=1, setup_cmd="mc/build.sh C01", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the sources are compiled unmodified with clang -fsanitize=thread instrumentation and linked against mc/mcrt.cpp instead of the sanitizer runtime. See DESIGN.md."),
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
