#!/usr/bin/env python3
"""check.py C01 [quick|thorough]: decides one property on /repo's current tree.

exit 0: held on everything explored; exit 1 and a VIOLATION line: a counterexample that
was found by the solver and reproduced on the real code.
"""

import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
try:
    import z3
except ImportError:
    exe = VT if os.path.exists(VT) else "python3-vt"
    os.execvp(exe, [exe, os.path.abspath(sys.argv[0]), *sys.argv[1:]])

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = sys.__stdout__
REAL_ENV = dict(os.environ)


def say(*a):
    print(*a, file=OUT, flush=True)


def concrete(prop, cases, limit=10.0):
    """Replay cases on the real code in a fresh interpreter."""
    if not cases:
        return []
    env = dict(REAL_ENV, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPYCACHEPREFIX="/nonexistent/verif-no-bytecode")    # never stale bytecode
    env.pop("PYTHONPATH", None)
    p = subprocess.Popen([sys.executable, os.path.join(HERE, "engine", "concrete.py")], env=env,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/tmp")
    out, err = p.communicate(json.dumps({"prop": prop, "repo": REPO, "cases": cases, "limit": limit}).encode(),
                             timeout=60 + limit * len(cases))
    try:
        return json.loads(out)
    except ValueError:
        raise RuntimeError("concrete runner failed: " + err.decode()[-2000:])


def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = pid.lower()
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    import random
    from engine.explore import Engine, Exploration
    from engine.inputs import obs_equal

    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "assumptions": [],
          "wall_s": 0, "violations": 0}

    def write_evidence():
        ev["wall_s"] = round(time.time() - t0, 2)
        tmp = os.path.join(evdir, f"{pid}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(evdir, f"{pid}.json"))

    try:
        eng = Engine(prop, REPO)
    except BaseException as e:
        # The instrumented import failed.  If the real code imports, this is a limit of the
        # encoding and nothing was explored; if it does not, every property is broken.
        r = concrete(prop, [{"fn": "noop", "params": {}, "inputs": {}}])
        ev["coverage"] = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                          "exhaustive": False,
                          "explanation": f"instrumented import failed: {type(e).__name__}: {e}; nothing explored"}
        if r and r[0].get("kind") == "import":
            return report(ev, evdir, pid, tier, "import", {"fn": "noop", "params": {}, "inputs": {}}, r[0], write_evidence)
        sys.stderr.write(traceback.format_exc())
        write_evidence()
        say(f"{pid}: the encoding could not be built; nothing explored")
        return 0
    h = eng.h
    tasks = [tuple(t) for t in h.tasks(tier)]
    budget = getattr(h, "BUDGET", {}).get(tier, 60 if tier == "quick" else 1500)
    if os.environ.get("VERIF_BUDGET"):
        budget = float(os.environ["VERIF_BUDGET"])
    hit = {}
    tried = {}
    spurious = []

    def on_candidate(ti, r):
        name, fn, params = tasks[ti]
        key = (ti, r["outcome"], str(r["label"])[:60])
        tried[key] = tried.get(key, 0) + 1
        if tried[key] > 6:
            return False
        cases = [{"fn": fn, "params": params, "inputs": x} for x in [r["inputs"]] + (r.get("more") or [])[:6]]
        for c, res in zip(cases, concrete(prop, cases)):
            if not res["ok"]:
                hit.update(task=name, case=c, result=res, solver=r)
                return True
        spurious.append({"task": name, "label": r["label"], "outcome": r["outcome"], "inputs": r["inputs"],
                         "detail": r.get("detail")})
        return False

    ex = Exploration(eng, tasks, budget, seed=seed, on_candidate=on_candidate,
                     path_s=getattr(h, "PATH_S", 20.0)).run()

    # validate sampled paths (and fall back on odd ones) against the real code
    rng = random.Random(seed)
    nval = {"quick": 60, "thorough": 600}[tier]
    per = max(2, nval // max(1, len(tasks)))
    cases, metas = [], []
    if not hit:
        for ti, t in enumerate(ex.per_task):
            name, fn, params = tasks[ti]
            pool = [s for s in t["samples"] if s.get("inputs") is not None]
            rng.shuffle(pool)
            for s in pool[:per]:
                cases.append({"fn": fn, "params": params, "inputs": s["inputs"]})
                metas.append((name, s))
            for s in t["odd_samples"][:30]:
                for x in [s["inputs"]] + (s.get("more") or []):
                    if x is not None:
                        cases.append({"fn": fn, "params": params, "inputs": x})
                        metas.append((name, {"odd": True, **{k: v for k, v in s.items() if k != "obs"}}))
    mismatches = []
    validated = fallback = 0
    for (name, s), c, res in zip(metas, cases, concrete(prop, cases)):
        if not res["ok"]:
            hit.update(task=name, case=c, result=res, solver={"outcome": s.get("outcome"), "label": s.get("label")})
            break
        if s.get("odd"):
            fallback += 1
            continue
        if res.get("missing") or res.get("assume") or not obs_equal(res.get("obs"), s.get("obs")):
            mismatches.append({"task": name, "inputs": c["inputs"], "symbolic": s.get("obs"),
                               "real": res.get("obs"), "missing": res.get("missing"), "assume": res.get("assume")})
        else:
            validated += 1

    st = ex.stats
    covers = set().union(*[t["covers"] for t in ex.per_task])
    need = set(getattr(h, "COVERS", ()))
    odd = {}
    for t in ex.per_task:
        for k, v in t["odd"].items():
            odd[k] = odd.get(k, 0) + v
    pending = sum(len(t["pending"]) for t in ex.per_task)
    samples = []
    for t in ex.per_task:
        for s in t["samples"][:1]:
            samples.append({"task": t["name"], "inputs": s.get("inputs"), "observed": s.get("obs")})
    exhaustive = ex.exhaustive and not mismatches and not spurious and not hit
    ev["coverage"] = {
        "states": st.completed, "transitions": st.decisions,
        "traces_validated_against_impl": validated,
        "samples": samples[:12],
        "exhaustive": bool(exhaustive),
        "explanation": "states = program paths completed (each a set of inputs described by a path "
                       "condition), transitions = branch decisions put to the solver, "
                       "obligations/discharged = property assertions asked of / proved by the solver on those paths",
        "obligations": st.obligations, "discharged": st.discharged,
        "paths": st.paths, "paths_infeasible": st.dead, "forks": st.forks,
        "queries": st.queries, "queries_sat": st.sat, "queries_unsat": st.unsat, "queries_unknown": st.unknown,
        "solver": "z3 " + z3.get_version_string(), "solver_s": round(st.solver_s, 2),
        "functions_encoded": sorted(f for f in ex.entered if f.startswith("slate")),
        "bounds": getattr(h, "BOUNDS", ""), "outside_bounds": getattr(h, "OUTSIDE", ""),
        "tasks": [{"name": t["name"], "paths": t["stats"].paths, "completed": t["stats"].completed,
                   "obligations": t["stats"].obligations, "solver_s": round(t["stats"].solver_s, 2),
                   "unexplored_prefixes": len(t["pending"]), "deepest_path": t["depth"],
                   "odd_paths": t["odd"]} for t in ex.per_task],
        "unexplored_prefixes": pending, "stopped": ex.stopped,
        "paths_outside_the_encoding": odd, "fallback_replays": fallback,
        "not_reproduced_on_real_code": spurious[:5], "model_vs_real_mismatches": mismatches[:5],
        "paths_without_assertion": sum(t["vacuous"] for t in ex.per_task),
        "situations_reached": sorted(covers), "situations_missed": sorted(need - covers),
    }
    ev["assumptions"] = list(getattr(h, "ASSUMES", [])) + sorted(set().union(*[t["notes"] for t in ex.per_task]))
    if hit:
        return report(ev, evdir, pid, tier, hit["task"], hit["case"], hit["result"], write_evidence, hit["solver"])
    ev["violations"] = 0
    write_evidence()
    if st.paths == 0:
        say(f"{pid}: no path was explored ({ex.error})")
        return 2
    say(f"{pid} {tier}: held. paths={st.completed} queries={st.queries} obligations={st.discharged}/{st.obligations} "
        f"solver={st.solver_s:.1f}s wall={time.time() - t0:.1f}s exhaustive={exhaustive} validated={validated}"
        + (f" pending={pending}" if pending else "") + (f" odd={odd}" if odd else "")
        + (f" spurious={len(spurious)}" if spurious else "") + (f" mismatches={len(mismatches)}" if mismatches else "")
        + (f" missed={sorted(need - covers)}" if need - covers else ""))
    if os.environ.get("VERIF_VERBOSE"):
        for t in ex.per_task:
            say("  ", t["name"], "paths", t["stats"].paths, "done", t["stats"].completed, "pend", len(t["pending"]),
                "obl", t["stats"].obligations, "solver", round(t["stats"].solver_s, 1), "depth", t["depth"], "odd", t["odd"])
        for s in spurious[:3]:
            say("  spurious:", json.dumps(s)[:3000])
        for t in ex.per_task:
            for s in t["odd_samples"][:1]:
                say("  odd:", t["name"], s["outcome"], s["label"], (s.get("detail") or "")[-1200:], s["inputs"])
        for m in mismatches[:3]:
            say("  mismatch:", json.dumps(m)[:2500])
        say("  covers", sorted(covers))
    return 0


def report(ev, evdir, pid, tier, task, case, result, write_evidence, solver=None):
    path = os.path.join(evdir, f"{pid}.replay.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "prop": pid.lower(), "task": task, "case": case, "result": result,
                   "solver": {k: solver.get(k) for k in ("outcome", "label")} if solver else None}, f, indent=1)
    ev["violations"] = 1
    write_evidence()
    say(f"{pid} {tier}: counterexample in task {task}: {result.get('label')} inputs={json.dumps(case['inputs'])[:600]}")
    if os.environ.get("VERIF_VERBOSE") and result.get("trace"):
        say(result["trace"])
    say(f"VIOLATION property={pid} replay={path}")
    return 1


if __name__ == "__main__":
    rc = main()
    OUT.flush()
    os._exit(rc)
