#!/opt/venv/bin/python
"""seed.py SPEC.py [ids...]: build seeded/<id>/ from edit specs, validate, and run the property's check against each.

SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new), ...], needs, breaks, demo)].
Patches are produced in a scratch copy; validation applies them to /repo and always restores it."""
import json, os, shutil, subprocess, sys, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
BASE = "/repo/src/ecoengine/"


def restore():
    sh("git -C /repo checkout -- .")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = f"{R}/seeded/{b['id']}"
        bad = None
        try:
            for f, old, new in b["edits"]:
                p = BASE + f
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"edit matches {s.count(old)} times in {f}"
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(f"{b['id']}: INVALID {bad}", flush=True)
                continue
            diff = sh("git -C /repo diff").stdout
            restore()
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write('#!/bin/bash\nHERE="$(cd "$(dirname "$0")" && pwd)"\n'
                                            'PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$HERE/demo.py"\n')
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r0 = sh(f"cd /repo && timeout 250 bash {d}/demo.sh")
            if r0.returncode != 0:
                bad = "demo fails on the unchanged tree: " + (r0.stderr or r0.stdout)[-400:]
            else:
                a = sh(f"git -C /repo apply {d}/patch.diff")
                assert a.returncode == 0, a.stderr
                t = sh(f"bash {R}/tools/runtests.sh")
                r1 = sh(f"cd /repo && timeout 250 bash {d}/demo.sh")
                if t.returncode != 0:
                    bad = "tests: " + t.stdout[-300:]
                elif r1.returncode == 0:
                    bad = "demo passes with the patch"
            if bad:
                print(f"{b['id']}: INVALID {bad}", flush=True)
                shutil.rmtree(d)
                continue
            t0 = time.time()
            c = sh(f"cd {R} && timeout 890 /opt/venv/bin/python check.py {b['prop']}")
            v = "CAUGHT" if c.returncode == 1 and f"VIOLATION property={b['prop']}" in c.stdout else f"MISSED(rc={c.returncode})"
            line = [x for x in c.stdout.splitlines() if x.startswith("  ")][:1]
            rf = R + "/tools/seed_results.json"
            res = json.load(open(rf)) if os.path.exists(rf) else {}
            res[b["id"]] = f"{b['prop']}: {line[0].split(': ')[0].strip()}" if v == "CAUGHT" and line else "missed"
            json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
            print(f"{b['id']} [{b['prop']}]: {v} {time.time() - t0:.0f}s {line[0][:170] if line else ''}", flush=True)
        finally:
            restore()
    sh("bash /opt/vp/build.sh")


main()
