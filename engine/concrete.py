"""Runs harness cases on the real, un-instrumented code (one forked child per case).

usage: concrete.py < {"prop": "c01", "repo": "/repo", "cases": [{"fn", "params", "inputs"}]}
"""

import json
import os
import select
import signal
import sys
import time
import traceback

_select = select.select
_alarm = signal.alarm
_setitimer = signal.setitimer
_read = os.read


def trace():
    # no suggestions: these look attributes up
    e = sys.exc_info()[1]
    try:
        return ("Traceback (most recent call last):\n" + "".join(traceback.format_list(traceback.extract_tb(e.__traceback__)))
                + f"{type(e).__name__}: {e}\n")[-2000:]
    except BaseException:
        return type(e).__name__


def child(h, case, w):
    from engine import env
    from engine.inputs import AssumeFailed, CheckFailed, ConcInputs, plain
    out = {"ok": True}
    inp = ConcInputs(case["inputs"])
    try:
        with env.platform(env.is_nt(h.__name__.split(".")[-1])):
            getattr(h, case["fn"])(inp, **case["params"])
        out["obs"] = [plain(o) for o in inp.observations]
    except CheckFailed as e:
        out = {"ok": False, "kind": "check", "label": str(e)}
    except AssumeFailed:
        out = {"ok": True, "assume": True}
    except env.Blocked as e:
        out = {"ok": False, "kind": "raised", "label": f"blocked: {e}"}
    except KeyError as e:
        if "missing from the replay" in str(e):
            out = {"ok": True, "missing": str(e)}
        else:
            out = {"ok": False, "kind": "raised", "label": f"KeyError: {e}"[:300],
                   "trace": trace()}
    except BaseException as e:
        out = {"ok": False, "kind": "raised", "label": f"{type(e).__name__}: {e}"[:300],
               "trace": trace()}
    os.write(w, json.dumps(out).encode())
    os._exit(0)


def main():
    job = json.load(sys.stdin)
    real_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    repo = job["repo"]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    from engine import env
    env.install()
    results = []
    try:
        import importlib
        with env.platform(env.is_nt(job["prop"])):
            import slate
        assert os.path.realpath(slate.__file__).startswith(os.path.realpath(repo) + os.sep), slate.__file__
        h = importlib.import_module("props." + job["prop"])
    except BaseException as e:
        results = [{"ok": False, "kind": "import", "label": f"{type(e).__name__}: {e}"[:300],
                    "trace": trace()}] * len(job["cases"])
        os.write(real_out, json.dumps(results).encode())
        return
    import engine.inputs  # noqa: F401  (once, not in every child)
    limit = job.get("limit", 10.0)
    for case in job["cases"]:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                child(h, case, w)
            finally:
                os._exit(3)
        os.close(w)
        data = b""
        t0 = time.time()
        timed = False
        while True:
            left = limit - (time.time() - t0)
            if left <= 0:
                timed = True
                os.kill(pid, signal.SIGKILL)
                break
            rd, _, _ = _select([r], [], [], left)
            if rd:
                chunk = _read(r, 65536)
                if not chunk:
                    break
                data += chunk
        os.close(r)
        os.waitpid(pid, 0)
        if timed:
            results.append({"ok": False, "kind": "timeout", "label": f"no answer within {limit:g} s"})
        else:
            try:
                results.append(json.loads(data))
            except ValueError:
                results.append({"ok": False, "kind": "crash", "label": "the process died"})
    payload = json.dumps(results).encode()
    while payload:
        n = os.write(real_out, payload)
        payload = payload[n:]


if __name__ == "__main__":
    main()
