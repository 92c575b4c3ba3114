"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
CLAIMED = json.load(open(V + "/tools/claimed.json"))
NA = json.load(open(V + "/tools/not_applicable.json"))
checks = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the compiled code (LLVM IR) with lazily created symbolic terms; SMT (z3, cvc5) decides every path; counterexamples replayed on the real checker",
            "level": "other", "level_note": CLAIMED[i]})
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check has been built for this property yet")} for p in props if p["id"] not in CLAIMED]
m = {"version": 1, "setup_cmd": "python3 tools/pipeline.py",
     "hooks": {"guard": "carcara_sym", "enable": "RUSTFLAGS=--cfg carcara_sym", "source_commits": CLAIMED["hooks"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
