#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough]   decide one property, write evidence/<ID>.json
   check.py --replay FILE                  re-run a counterexample on the unpatched code

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.
"""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO_SRC = "/repo/src"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO_SRC)
sys.path.append(VT)

PY = sys.executable
REPLAYS = os.path.join(ROOT, "replays")


# ------------------------------------------------------------- load real code

def load_repo():
    import pkgutil
    import ecoengine
    assert os.path.realpath(ecoengine.__file__).startswith("/repo/src/"), ecoengine.__file__
    for m in pkgutil.walk_packages(ecoengine.__path__, "ecoengine.", onerror=lambda n: None):
        if m.name.startswith("ecoengine.tests"):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


def load_meta(pid):
    import meta
    return meta.P.get(pid, {"what": "", "bounds": "", "assumptions": []})


def find_harness(mod, name):
    for hd in mod.HARNESSES:
        if hd["name"] == name:
            return hd
    raise KeyError(name)


# ---------------------------------------------------------------- replay mode

def replay(path, as_json=False):
    """Runs in a fresh interpreter with the code exactly as in /repo."""
    from symx import harness as H
    with open(path) as f:
        c = json.load(f)
    load_repo()
    mod = load_prop(c["property"])
    hd = find_harness(mod, c["harness"])
    h = H.ConcH(c["inputs"], c["seqs"])
    out = {"reproduced": False, "failed": [], "note": ""}
    try:
        with H.quiet():
            hd["fn"](h, **c["params"])
    except H.Skip:
        out["note"] = "assumptions not met by the float inputs"
        h.failed = []
    except Exception as ex:
        if H.in_repo(ex):
            h.failed.append({"claim": f"unexpected {type(ex).__name__}", "info": str(ex)[:300]})
        else:
            out["note"] = "harness error: " + "".join(traceback.format_exception(ex))[-1500:]
    out["failed"] = h.failed
    out["reproduced"] = bool(h.failed)
    if as_json:
        print("REPLAY-RESULT " + json.dumps(out))
    else:
        print(json.dumps({"case": c, "result": out}, indent=1))
    return 1 if out["reproduced"] else 0


def run_replay(path):
    try:
        r = subprocess.run([PY, os.path.join(ROOT, "check.py"), "--replay", path, "--json"],
                           capture_output=True, text=True, timeout=120)
        for line in r.stdout.splitlines():
            if line.startswith("REPLAY-RESULT "):
                return json.loads(line[len("REPLAY-RESULT "):])
        return {"reproduced": False, "failed": [], "note": "replay crashed: " + r.stderr[-500:]}
    except subprocess.TimeoutExpired:
        return {"reproduced": False, "failed": [], "note": "replay timed out"}


# ---------------------------------------------------------------- one harness

class FuncLog:
    """Which implementation functions ran symbolically (sys.monitoring)."""

    def __init__(self):
        self.names = set()

    def start(self):
        try:
            m = sys.monitoring
            m.use_tool_id(3, "symx")

            def cb(code, off):
                fn = code.co_filename
                if "/ecoengine/" in fn and code.co_name not in ("<module>",):
                    self.names.add(fn.split("/ecoengine/", 1)[1][:-3].replace("/", ".").split(".")[-1]
                                   + ":" + code.co_qualname)
                return m.DISABLE

            m.register_callback(3, m.events.PY_START, cb)
            ev = m.events.PY_START
            cov = os.environ.get("SYMX_COV")        # development aid: append executed lines to this file
            if cov:
                def ln(code, line):
                    if "/ecoengine/" in code.co_filename:
                        with open(cov, "a") as f:
                            f.write(code.co_filename.split("/ecoengine/", 1)[1] + f":{line}\n")
                    return m.DISABLE
                m.register_callback(3, m.events.LINE, ln)
                ev |= m.events.LINE
            m.set_events(3, ev)
        except Exception:
            pass


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def run_instance(pid, hname, params, opts, conn, tag):
    """Child process: explore one harness instance."""
    res = {"harness": hname, "params": params, "stats": None, "violations": [], "inconclusive": [], "known": [],
           "reached": 0, "functions": [], "error": None, "complete": False, "samples": []}
    try:
        import resource
        lim = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim * 2, lim * 2))
        from symx import core, harness as H, shims
        sys.setrecursionlimit(20000)
        load_repo()
        shims.install()
        fl = FuncLog()
        fl.start()
        mod = load_prop(pid)
        hd = find_harness(mod, hname)
        eng = core.Engine(**opts)
        known = known_findings(pid)
        seen_bad = {}
        counter = [0]

        def sink(c):
            if c["kind"] == "unknown":
                res["inconclusive"].append({"claim": c["claim"], "why": "solver unknown"})
                return False
            if seen_bad.get(c["claim"], 0) >= 6:
                return False
            counter[0] += 1
            os.makedirs(REPLAYS, exist_ok=True)
            fn = os.path.join(REPLAYS, f"{pid}-{tag}-{counter[0]}.json")
            rec = {"property": pid, "harness": hname, "params": params, "claim": c["claim"], "inputs": c["inputs"],
                   "seqs": c["seqs"]}
            with open(fn, "w") as f:
                json.dump(rec, f, indent=1)
            r = run_replay(fn)
            if not r["reproduced"]:
                seen_bad[c["claim"]] = seen_bad.get(c["claim"], 0) + 1
                res["inconclusive"].append({"claim": c["claim"], "why": "counterexample did not reproduce",
                                            "note": r["note"][-600:], "inputs": c["inputs"]})
                if not os.environ.get("SYMX_KEEP"):
                    os.unlink(fn)
                return False
            fails = r["failed"]
            new = []
            for fl_ in fails:
                hit = None
                for k in known:
                    if k["harness"] == hname and k["claim"] == fl_["claim"] and \
                            all(params.get(a) == b for a, b in k.get("params", {}).items()) and \
                            (not k.get("when") or eval(k["when"], {}, dict(c["inputs"], **params))):
                        hit = k
                if hit:
                    res["known"].append(hit["what"])
                else:
                    new.append(fl_)
            if not new:
                seen_bad[c["claim"]] = seen_bad.get(c["claim"], 0) + 3
                return False
            rec["failed"] = new
            with open(fn, "w") as f:
                json.dump(rec, f, indent=1)
            res["violations"].append({"replay": fn, "claim": new[0]["claim"], "info": new[0]["info"]})
            return True

        def run(path):
            h = H.SymH(path, sink)
            try:
                with H.quiet():
                    hd["fn"](h, **params)
            except H.StopHarness:
                raise
            except core.PathCut:
                res["reached"] += h.reached
                raise
            except Exception as ex:
                msg = f"unexpected {type(ex).__name__}"
                if H.in_repo(ex):
                    m = path.model
                    if m is None:
                        r, m = path.check(timeout=eng.claim_ms)
                        if r == "unsat":
                            raise core.Infeasible()
                    if m is not None:
                        h.reached += 1
                        if h._candidate(msg, m):
                            raise H.StopHarness()
                        res["inconclusive"].append({"claim": msg, "why": str(ex)[:200], "tb": "".join(
                            traceback.format_exception(ex))[-900:] if os.environ.get("SYMX_DEBUG") else ""})
                    else:
                        res["inconclusive"].append({"claim": msg, "why": "no model"})
                else:
                    res["inconclusive"].append({"claim": "harness error", "why": "".join(
                        traceback.format_exception(ex))[-1500:]})
                    if len([i for i in res["inconclusive"] if i["claim"] == "harness error"]) > 5:
                        raise H.StopHarness()
            if path.model is None and h.reached:
                r, m = path.check(timeout=eng.claim_ms)
                if r == "unsat":        # the harness's assumptions contradict each other
                    res["vacuous"] = res.get("vacuous", 0) + 1
                    return
                path.model = m
            res["reached"] += h.reached
            if len(res["samples"]) < 2 and path.model is not None:
                try:
                    res["samples"].append({n: (float(core.model_num(path.model, v)) if k != "bool" else
                                               str(path.model.eval(v, model_completion=True)))
                                           for n, (k, v) in list(path.inputs.items())[:14]})
                except Exception:
                    pass

        try:
            eng.explore(run)
        except H.StopHarness:
            eng.stats.unexplored = len(eng.work)
        res["stats"] = eng.stats.as_dict()
        res["complete"] = eng.stats.unexplored == 0 and eng.stats.unknown == 0 and eng.stats.truncated_forks == 0 \
            and eng.stats.concretised == 0 and not res["inconclusive"] and not res["violations"]
        res["functions"] = sorted(fl.names)
    except BaseException as ex:
        res["error"] = "".join(traceback.format_exception(ex))[-1500:]
    try:
        conn.send(res)
        conn.close()
    except Exception:
        pass
    os._exit(0)


# ------------------------------------------------------------------ scheduler

def run_check(pid, tier, jobs, only=None, verbose=False):
    t0 = time.time()
    # importing here lets forked children share the loaded code
    import numpy  # noqa
    import z3  # noqa
    load_repo()
    mod = load_prop(pid)
    tasks = []
    for hd in mod.HARNESSES:
        if only and only not in hd["name"]:
            continue
        plist = hd.get("thorough") if tier == "thorough" and hd.get("thorough") else hd.get("quick", [{}])
        opts = dict(hd.get("opts", {}))
        if tier == "thorough":
            opts.update(hd.get("topts", {"time_s": opts.get("time_s", 120) * 3}))
        for p in plist:
            tasks.append((hd["name"], p, opts))
    total_budget = 780 if tier == "quick" else float(os.environ.get("VERIF_BUDGET_S", "3000"))
    ctx = mp.get_context("fork")
    pend = list(enumerate(tasks))
    live, results = {}, []
    stop = False
    while (pend and not stop) or live:
        while pend and len(live) < jobs and not stop:
            i, (name, p, opts) = pend.pop(0)
            left = total_budget - (time.time() - t0)
            if left < 5:
                results.append({"harness": name, "params": p, "error": "not started: check budget used up",
                                "stats": None, "violations": [], "inconclusive": [], "known": [], "reached": 0,
                                "functions": [], "complete": False, "samples": []})
                continue
            o = dict(opts)
            o["time_s"] = min(o.get("time_s", 120), max(5, left - 10))
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=run_instance, args=(pid, name, p, o, b, f"{i:03d}"))
            pr.start()
            b.close()
            live[i] = (pr, a, time.time(), o["time_s"] * 1.3 + 60, name, p)
        time.sleep(0.02)
        for i in list(live):
            pr, a, ts, limit, name, p = live[i]
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = {"harness": name, "params": p, "error": "worker died", "stats": None, "violations": [],
                           "inconclusive": [], "known": [], "reached": 0, "functions": [], "complete": False,
                           "samples": []}
            elif time.time() - ts > limit or not pr.is_alive() and not a.poll():
                got = {"harness": name, "params": p, "error": "worker timed out" if pr.is_alive() else "worker died",
                       "stats": None, "violations": [], "inconclusive": [], "known": [], "reached": 0,
                       "functions": [], "complete": False, "samples": []}
            if got is not None:
                got["wall_s"] = round(time.time() - ts, 2)
                results.append(got)
                if pr.is_alive():
                    pr.join(0.5)
                    if pr.is_alive():
                        pr.kill()
                pr.join()
                a.close()
                del live[i]
                if verbose:
                    st = got["stats"] or {}
                    print(f"  {name} {json.dumps(p)[:100]} wall={got['wall_s']} paths={st.get('paths')} "
                          f"q={st.get('queries')} unk={st.get('unknown')} conc={st.get('concretised')} "
                          f"trunc={st.get('truncated_forks')} unexp={st.get('unexplored')} reached={got['reached']} "
                          f"complete={got['complete']} viol={len(got['violations'])} "
                          f"{'ERR ' + got['error'] if got['error'] else ''}", flush=True)
                    for v in got["violations"]:
                        print("     V:", v, flush=True)
                    for v in got["inconclusive"][:4]:
                        print("     I:", json.dumps(v)[:1500], flush=True)
                    for v in got["known"][:3]:
                        print("     K:", v, flush=True)
                if got["violations"] and not verbose:
                    stop = True
    wall = time.time() - t0
    viol = [v for r in results for v in r["violations"]]
    known = sorted({k for r in results for k in r["known"]})
    write_evidence(pid, tier, mod, results, viol, wall)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    tot = {k: sum((r["stats"] or {}).get(k, 0) for r in results) for k in
           ("paths", "queries", "claims_checked", "claims_unsat", "unknown")}
    ncomp = sum(r["complete"] for r in results)
    print(f"{pid} {tier}: {len(results)} harness instances ({ncomp} explored completely within bounds), "
          f"{tot['paths']} paths, {tot['claims_checked']} claims, {tot['queries']} solver queries, "
          f"{tot['unknown']} unknown, wall {wall:.1f}s")
    if viol:
        for v in viol[:5]:
            print(f"  {v['claim']}: {v['info']}")
        print(f"VIOLATION property={pid} replay={viol[0]['replay']}")
        return 1
    for r in results:
        if r["error"]:
            print(f"  note: {r['harness']}: {r['error'][-200:].strip()}")
    dead = undecided(results)
    if dead and not known:
        print(f"{pid}: no answer, these harnesses decided nothing: {', '.join(dead)}")
        return 2
    return 0


def undecided(results):
    """Harnesses of which no instance reached a single claim (setup failed, everything cut or timed out)."""
    ok, names = set(), []
    for r in results:
        if r["harness"] not in names:
            names.append(r["harness"])
        if r["reached"]:
            ok.add(r["harness"])
    return [n for n in names if n not in ok]


def selftest():
    """Solver and engine answer a true and a false claim correctly."""
    import z3
    from symx import core, harness as H
    got = []

    def run(path, bad):
        h = H.SymH(path, lambda c: got.append((bad, c["kind"])) or True)
        x = h.real("x", 0, 10)
        y = x * 2 if x > 3 else x + 3
        h.ge(y, 3 if not bad else 3.5, "selftest")
    for bad in (False, True):
        try:
            core.Engine(time_s=20).explore(lambda p: run(p, bad))
        except H.StopHarness:
            pass
    ok = got == [(True, "ce")]
    print("selftest", "ok" if ok else f"FAILED {got}", z3.get_version_string())
    return 0 if ok else 2


def write_evidence(pid, tier, mod, results, viol, wall):
    meta = load_meta(pid)
    tot = {}
    for r in results:
        for k, v in (r["stats"] or {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    per = {}
    for r in results:
        d = per.setdefault(r["harness"], {"instances": 0, "complete": 0, "paths": 0, "claims_checked": 0,
                                          "claims_unsat": 0, "queries": 0, "unknown": 0, "unexplored": 0,
                                          "truncated_forks": 0, "concretised": 0, "solver_s": 0.0, "wall_s": 0.0,
                                          "claims_reached": 0, "errors": 0, "vacuous_paths": 0})
        d["instances"] += 1
        d["complete"] += bool(r["complete"])
        d["claims_reached"] += r["reached"]
        d["wall_s"] = round(d["wall_s"] + r.get("wall_s", 0), 2)
        d["errors"] += bool(r["error"])
        d["vacuous_paths"] += r.get("vacuous", 0)
        for k in ("paths", "claims_checked", "claims_unsat", "queries", "unknown", "unexplored", "truncated_forks",
                  "concretised", "solver_s"):
            d[k] = round(d[k] + (r["stats"] or {}).get(k, 0), 3)
    vac = [n for n, d in per.items() if d["claims_reached"] == 0] + \
        [f"{r['harness']} {json.dumps(r['params'])}" for r in results if r["reached"] == 0 and r["stats"]]
    inc = [dict(harness=r["harness"], params=r["params"], **i) for r in results for i in r["inconclusive"]]
    funcs = sorted({f for r in results for f in r["functions"]})
    samples = [dict(harness=r["harness"], params=r["params"], input=s) for r in results for s in r["samples"]][:12]
    ncomp = sum(bool(r["complete"]) for r in results)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": meta["what"] + f" This run: {ncomp} of {len(results)} harness instances were explored completely; "
                           f"{tot.get('claims_unsat', 0)} of {tot.get('claims_checked', 0)} claims were shown unviolable by the solver "
                           f"on {tot.get('paths', 0)} paths.",
            "technique": "symbolic execution of the imported functions with z3 (path-exhaustive within the bounds)",
            "functions_encoded": funcs,
            "bounds": meta["bounds"],
            "harnesses": per,
            "harness_instances": len(results), "harness_instances_complete": ncomp,
            "exhausted_within_bounds": ncomp == len(results),
            "paths": tot.get("paths", 0), "queries_discharged": tot.get("queries", 0),
            "claims_checked": tot.get("claims_checked", 0), "claims_unsat": tot.get("claims_unsat", 0),
            "solver_time_s": tot.get("solver_s", 0), "solver_unknown": tot.get("unknown", 0),
            "paths_cut": tot.get("paths_cut", 0), "unexplored_frontier": tot.get("unexplored", 0),
            "concretised_values": tot.get("concretised", 0), "truncated_forks": tot.get("truncated_forks", 0),
            "harnesses_with_no_claim_reached": vac,
            "inconclusive": inc[:20], "inconclusive_total": len(inc),
            "errors": [dict(harness=r["harness"], params=r["params"], error=r["error"][-300:])
                       for r in results if r["error"]][:10],
            "samples": samples,
        },
        "assumptions": list(meta["assumptions"]) + [
            "IEEE floats are modelled as exact reals; claims carry a tolerance and every counterexample is replayed "
            "with floats on the unpatched code before it is reported"],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if viol:
        ev["violation_details"] = viol[:5]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--json", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay, a.json)
    return run_check(a.pid.upper(), a.tier, a.j, a.only, a.v)


if __name__ == "__main__":
    sys.exit(main())
