"""Path exploration: depth-first re-execution in parallel workers, every branch decided
by the solver; results are merged into one verdict and one evidence record."""

import gc
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

import z3

from . import env, rt
from .sym import (
    DeadPath, EngineSignal, PathBudget, PathCtx, SlicedCtx, Stats, Unsupported, Violated, cur,
)
from .inputs import SymInputs, evaluate
from .load import Loader, Snapshot

_setitimer = signal.setitimer
_signal = signal.signal


class Engine:
    """Lives in each worker: the instrumented modules and the harness."""

    def __init__(self, prop_module, repo):
        env.install()
        sys.setrecursionlimit(3000)
        self.loader = Loader(repo)
        self.nt = env.is_nt(prop_module)
        with env.platform(self.nt):
            self.loader.load("slate")
            self.h = self.loader.load_props("props." + prop_module)
        self.ctx_class = SlicedCtx if getattr(self.h, "SLICE", False) else PathCtx
        mods = [m for k, m in self.loader.modules.items() if k != "props"]
        self.snap = Snapshot(mods)
        rt.ENTERED.clear()

    def run_path(self, fn, params, prefix, stats, path_s=20.0, want_model=True):
        self.snap.restore()
        env.reset()
        ctx = self.ctx_class(prefix, stats, query_ms=int(min(20.0, path_s / 2) * 1000))
        cur.ctx = ctx
        inp = SymInputs(ctx)
        res = {"outcome": "completed", "label": None, "detail": None}
        stats.paths += 1

        def on_alarm(sig, frame):
            raise PathBudget("time limit on one path")

        _signal(signal.SIGALRM, on_alarm)
        _setitimer(signal.ITIMER_REAL, path_s)
        try:
            try:
                with env.platform(self.nt):
                    fn(inp, **params)
            finally:
                _setitimer(signal.ITIMER_REAL, 0)
            stats.completed += 1
        except DeadPath:
            res["outcome"] = "dead"
            stats.dead += 1
        except Violated as e:
            res["outcome"], res["label"] = "violated", e.label
        except Unsupported as e:
            res["outcome"], res["label"] = "unsupported", str(e)
            res["detail"] = _where()
        except PathBudget as e:
            res["outcome"], res["label"] = "budget", str(e)
            res["detail"] = _where()
        except env.Blocked as e:
            res["outcome"], res["label"] = "raised", f"blocked: {e}"
        except RecursionError:
            res["outcome"], res["label"] = "raised", "RecursionError"
        except Exception as e:
            res["outcome"], res["label"] = "raised", f"{type(e).__name__}: {_short(e)}"
            res["detail"] = _where()
            stats.raised += 1
        finally:
            _setitimer(signal.ITIMER_REAL, 0)
        if res["outcome"] == "dead":
            res["alts"] = ctx.alts
            cur.ctx = None
            return res
        if want_model or res["outcome"] != "completed":
            try:
                if ctx.observations:
                    ctx.settle()
                m = ctx.get_model()
                res["inputs"] = model_inputs(ctx, m)
                if res["outcome"] == "completed":
                    res["obs"] = [evaluate(o, m) for o in ctx.observations]
                if res["outcome"] in ("unsupported", "budget", "raised"):
                    res["more"] = more_models(ctx, 12)
            except EngineSignal:
                res["inputs"] = None
            except z3.Z3Exception as e:
                res["inputs"] = None
        if ctx.unknowns:
            res["unknowns"] = ctx.unknowns
        res["alts"] = ctx.alts
        res["covers"] = ctx.covers
        res["notes"] = ctx.notes
        res["asserted"] = ctx.asserted
        res["depth"] = len(ctx.trace)
        cur.ctx = None
        return res


def _short(e):
    try:
        return str(e)[:200]
    except BaseException:
        return "?"


def _where():
    # no suggestions, no locals: these look into values of the path
    try:
        e = sys.exc_info()[1]
        lines = traceback.format_list(traceback.extract_tb(e.__traceback__)[-4:])
        return ("".join(lines) + f"{type(e).__name__}: {_short(e)}")[-1500:]
    except BaseException:
        return "?"


def _engine_error(e):
    """A failure of the engine itself: the path counts as not explored, and is replayed."""
    ctx = cur.ctx
    r = {"outcome": "unsupported", "label": f"engine: {type(e).__name__}: {_short(e)}", "detail": _where(), "inputs": None, "alts": []}
    if ctx is not None:
        r["alts"] = ctx.alts
        try:
            m = ctx.get_model()
            r["inputs"] = model_inputs(ctx, m)
            r["more"] = more_models(ctx, 12)
        except BaseException:
            pass
    cur.ctx = None
    return r


def model_inputs(ctx, m):
    out = {}
    for name, (kind, v) in ctx.inputs.items():
        x = m.eval(v, model_completion=True)
        out[name] = z3.is_true(x) if kind == "bool" else x.as_long()
    return out


def more_models(ctx, n):
    """Further models of the path condition, differing in every call (fallback replays)."""
    out = []
    if not ctx.inputs:
        return out
    rng = random.Random(7)
    s = ctx.full_solver()
    s.push()
    try:
        for _ in range(n):
            s.push()
            for name, (kind, v) in rng.sample(list(ctx.inputs.items()), min(3, len(ctx.inputs))):
                if kind == "bool":
                    c = v == rng.choice([True, False])
                else:
                    c = v % 7 == rng.randrange(7)
                s.push()
                s.add(c)
                if s.check() != z3.sat:
                    s.pop()
            if s.check() == z3.sat:
                out.append(model_inputs(ctx, s.model()))
            while s.num_scopes() > 1:
                s.pop()
    finally:
        while s.num_scopes() > 0:
            s.pop()
    return out


# ------------------------------------------------------------------- workers
_ENG = None
_TASKS = None


def _worker(conn, eng, tasks, seed):
    _signal(signal.SIGINT, signal.SIG_IGN)
    env.restore_std()
    conn.send(("ready", None, None))
    rng = random.Random(seed)
    gc.disable()
    n = 0
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            conn.send(("bye", sorted(rt.ENTERED), None))
            return
        ti, prefixes, slice_s, path_s = job
        name, fnname, params = tasks[ti]
        fn = getattr(eng.h, fnname)
        stats = Stats()
        t0 = time.perf_counter()
        stack = list(prefixes)
        results = []
        covers, notes = set(), set()
        vacuous = 0
        maxdepth = 0
        uns = {}
        while stack:
            prefix = stack.pop()
            try:
                r = eng.run_path(fn, params, prefix, stats, path_s)
            except Exception as e:
                r = _engine_error(e)
            stack.extend(r.pop("alts"))
            covers |= r.pop("covers", set())
            notes |= r.pop("notes", set())
            maxdepth = max(maxdepth, r.get("depth", 0))
            if r["outcome"] == "completed":
                if not r.get("asserted"):
                    vacuous += 1
                # keep a few sampled paths for validation on the real code
                if len(results) < 2 or rng.random() < 0.02:
                    results.append(r)
            elif r["outcome"] != "dead":
                uns[r["label"]] = uns.get(r["label"], 0) + 1
                if uns[r["label"]] <= 8:
                    results.append(r)
                else:
                    results.append({"outcome": r["outcome"], "label": r["label"]})
                if r["outcome"] in ("violated", "raised", "budget"):
                    break
            n += 1
            if n % 200 == 0:
                gc.collect()
            if time.perf_counter() - t0 > slice_s:
                break
        conn.send(("done", {
            "task": ti, "left": stack, "stats": stats.as_dict(), "results": results,
            "covers": covers, "notes": notes, "vacuous": vacuous, "depth": maxdepth,
        }, None))


class Exploration:
    def __init__(self, engine, tasks, budget_s, seed=1, nproc=None, path_s=20.0,
                 on_candidate=None, log=None):
        self.tasks = tasks
        self.budget = budget_s
        self.seed = seed
        self.nproc = nproc or min(8, os.cpu_count() or 2)
        self.engine = engine
        self.path_s = path_s
        self.on_candidate = on_candidate
        self.stats = Stats()
        self.per_task = [
            {"name": t[0], "stats": Stats(), "pending": [[]], "running": 0, "samples": [],
             "covers": set(), "notes": set(), "vacuous": 0, "depth": 0, "odd": {}, "nodd": 0,
             "odd_samples": []}
            for t in tasks
        ]
        self.entered = set()
        self.stopped = None
        self.error = None
        self.log = log or (lambda *a: None)

    def run(self):
        ctx = mp.get_context("fork")
        rng = random.Random(self.seed)
        workers = []

        def spawn(i):
            a, b = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(b, self.engine, self.tasks, self.seed + i), daemon=True)
            p.start()
            b.close()
            workers.append({"p": p, "c": a, "state": "init", "task": None, "since": time.time(), "take": []})

        for i in range(self.nproc):
            spawn(i)
        t0 = time.time()
        stop = False
        from multiprocessing.connection import wait
        nsel = deaths = 0
        while True:
            live = [w for w in workers if w["state"] not in ("dead", "bye")]
            if not live:
                break
            elapsed = time.time() - t0
            if elapsed > self.budget and not stop:
                stop = True
                self.stopped = self.stopped or "time budget"
            if not stop:
                for w in live:
                    if w["state"] != "idle":
                        continue
                    cand = [i for i, t in enumerate(self.per_task) if t["pending"]]
                    if not cand:
                        break
                    # tasks with the fewest running workers first, then round robin
                    nsel += 1
                    ti = min(cand, key=lambda i: (self.per_task[i]["running"], (i - nsel) % len(self.per_task)))
                    t = self.per_task[ti]
                    pend = t["pending"]
                    k = 1 if t["odd"].get("worker hung") or t["odd"].get("worker died") else max(1, min(64, len(pend) // self.nproc))
                    take = []
                    for _ in range(k):
                        j = rng.randrange(len(pend))
                        pend[j], pend[-1] = pend[-1], pend[j]
                        take.append(pend.pop())
                    left = max(0.05, self.budget - elapsed)
                    slice_s = min(0.15 if len(pend) < 2 * self.nproc else 1.0, left)
                    w["c"].send((ti, take, slice_s, self.path_s))
                    w["state"] = "busy"
                    w["task"] = ti
                    w["take"] = take
                    w["since"] = time.time()
                    t["running"] += 1
            busy = [w for w in live if w["state"] in ("busy", "init")]
            pending = any(t["pending"] for t in self.per_task)
            if not busy and (stop or not pending):
                for w in live:
                    if w["state"] == "idle":
                        w["c"].send(None)
                        w["state"] = "closing"
                busy = [w for w in live if w["state"] == "closing"]
                if not busy:
                    break
            ready = wait([w["c"] for w in live], timeout=1.0)
            for w in live:
                if w["c"] not in ready:
                    # a solver call that ignores its own limit ends with its process
                    late = time.time() - t0 > self.budget + 10
                    if w["state"] == "busy" and (late or time.time() - w["since"] > self.path_s + 25):
                        w["p"].kill()
                        if len(w["take"]) > 1:
                            self.per_task[w["task"]]["pending"].extend(w["take"])
                        self._lost(w, "worker hung")
                        if not stop:
                            spawn(len(workers))
                    continue
                try:
                    kind, data, extra = w["c"].recv()
                except EOFError:
                    if len(w["take"]) > 1 and w["state"] == "busy":
                        self.per_task[w["task"]]["pending"].extend(w["take"])
                    self._lost(w, "worker died")
                    deaths += 1
                    if not stop and deaths < 60:
                        spawn(len(workers))
                    continue
                if kind == "init-error":
                    self.error = (data, extra)
                    w["state"] = "dead"
                    stop = True
                elif kind == "ready":
                    w["state"] = "idle"
                elif kind == "bye":
                    self.entered |= set(data)
                    w["state"] = "bye"
                else:
                    w["state"] = "idle"
                    self.per_task[data["task"]]["running"] -= 1
                    if self._merge(data):
                        stop = True
                        self.stopped = "violation"
        for w in workers:
            w["c"].close()
            w["p"].join(0.5)
            if w["p"].is_alive():
                w["p"].kill()
        self.wall = time.time() - t0
        return self

    def _lost(self, w, why):
        if w["state"] == "busy":
            self.per_task[w["task"]]["running"] -= 1
            t = self.per_task[w["task"]]
            t["odd"][why] = t["odd"].get(why, 0) + 1
        w["state"] = "dead"

    def _merge(self, d):
        t = self.per_task[d["task"]]
        t["pending"].extend(d["left"])
        t["stats"].merge(d["stats"])
        self.stats.merge(d["stats"])
        t["covers"] |= d["covers"]
        t["notes"] |= d["notes"]
        t["vacuous"] += d["vacuous"]
        t["depth"] = max(t["depth"], d["depth"])
        stop = False
        for r in d["results"]:
            if r["outcome"] == "completed":
                if len(t["samples"]) < 400:
                    t["samples"].append(r)
                else:
                    j = random.Random(len(t["samples"]) + t["stats"].paths).randrange(t["stats"].paths)
                    if j < 400:
                        t["samples"][j] = r
                continue
            key = f"{r['outcome']}: {r['label']}"
            t["odd"][key] = t["odd"].get(key, 0) + 1
            if r["outcome"] in ("violated", "raised", "budget") and r.get("inputs") is not None:
                if self.on_candidate and self.on_candidate(d["task"], r):
                    stop = True
                    break
            if r.get("inputs") is not None and len(t["odd_samples"]) < 60:
                t["odd_samples"].append(r)
        return stop

    @property
    def exhaustive(self):
        return all(not t["pending"] and not t["odd"] for t in self.per_task) and self.error is None
