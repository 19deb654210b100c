#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; a property with a harness is claimed."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
src = "".join(open(f).read() for f in glob.glob(V + "/harness/*.cpp"))
built = set(re.findall(r"\bMC_CASE\(\s*([A-Z]\d{2,3})\s*,", src))
checks, na = [], []
with open(V + "/properties.jsonl", "w") as f:
    for q in props.P:
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "hook_needed": None}}) + "\n")
        for a in q["files"]:
            if not os.path.exists(os.path.join("/repo", a)): print("missing anchor", q["id"], a)
        if len(q["title"]) > 80: print("title too long", q["id"], len(q["title"]))
        if len(re.findall(r"[.;!?](\s|$)", q["statement"])) > 6: print("statement long", q["id"])
        if q["id"] in built:
            checks.append({"property": q["id"], "quick_cmd": f"./check {q['id']} quick", "thorough_cmd": f"./check {q['id']} thorough",
                "technique": q["technique"], "level": "model_checking",
                "level_note": (q["note"] + " Trusts the stand-ins for the absent base libraries in shim/ and the bounds reported in the evidence.").strip()})
        else:
            na.append({"property": q["id"], "reason": q["reason"]})
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
    "hooks": {"guard": "none", "enable": "no hooks in /repo: atomics, threads and locks are intercepted by compiler instrumentation", "source_commits": []}},
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", len(na), "not:", " ".join(n["property"] for n in na))
