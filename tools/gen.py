#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from meta.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import meta
with open(R + "/properties.jsonl", "w") as f:
    for p in meta.P.values():
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "hook_needed": None}}) + "\n")
checks = []
for p in meta.P.values():
    checks.append({"property": p["id"],
                   "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                   "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": "symbolic execution of the real Python code with z3, counterexamples replayed on the unpatched code",
                   "level": "other",
                   "level_note": "For every input within the stated bounds (" + p["bounds"] + ") the solver shows the assertions hold on "
                                 "every explored path, or returns inputs that are replayed with floats on the unpatched code. Assumes floats "
                                 "behave as reals up to the claims' tolerances; trusts z3 and the symbolic value layer in symx/."})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --selftest", "checks": checks, "not_applicable": getattr(meta, "NA", []),
     "notes": "No hooks in /repo: the checks import /repo/src as it is and put symbolic values through it. See DESIGN.md."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
rows = []
for p in meta.P.values():
    rows.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n* How: {p['what']}\n* Bounds: {p['bounds']}\n* Beyond the tests: {p['why']}\n"
                + "".join(f"* Assumes: {a}\n" for a in p["assumptions"]))
na = "\n".join(f"* {x['property']}: {x['reason']}" for x in m["not_applicable"]) or "Nothing: every listed property has a check."
import glob
res = json.load(open(R + "/tools/seed_results.json")) if os.path.exists(R + "/tools/seed_results.json") else {}
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    j = json.load(open(d))
    seeds.append(f"| {i} | {j['property']} | {j['needs']} | {res.get(i, '?')} |")
t = open(R + "/tools/DESIGN.in.md").read().replace("PROPERTY-TABLE", "\n".join(rows)).replace("NA-TABLE", na).replace("SEED-TABLE", "\n".join(seeds))
open(R + "/DESIGN.md", "w").write(t)
