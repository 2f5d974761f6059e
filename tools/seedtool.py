"""seedtool.py SPEC.py [names...]: turns specs of planted bugs into /verif/seeded/<name>/ after confirming each:
the stable tests pass with it, the demonstration passes without and fails with it.  Then runs the property's check.
A spec is name -> dict(prop, edits=[(file, old, new)], demo, needs, breaks).  Works on /repo and restores it."""
import importlib.util, json, os, re, subprocess, sys
V = "/verif"; R = "/repo"; BASE = "1802d2d"

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def restore():
    run(["git", "-C", R, "checkout", "--", "."])
    run(["rm", "-rf", "/repo/slate/__pycache__"])

def own_lines(f):
    out = run(["git", "-C", R, "blame", "-s", f"{BASE}..HEAD", "--", f]).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if not l.startswith("^")}

def stable_ok():
    if run(["bash", "/opt/vp/build.sh"]).returncode: return "build"
    run(["bash", "/opt/vp/test.sh", "/tmp/seed_out.json"])
    d = json.load(open("/tmp/seed_out.json"))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(d.get("passed") or d.get("pass") or [])
    if not passed: return "no results " + str(list(d))
    miss = base - passed
    return "tests fail: %s" % sorted(miss) if miss else None

def check(prop, timeout=900):
    p = run(["python3", "check.py", prop, "quick"], cwd=V, timeout=timeout)
    return p.returncode, p.stdout.strip().splitlines()

def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    names = sys.argv[2:] or list(m.SEEDS)
    assert run(["git", "-C", R, "status", "--porcelain"]).stdout == "", "repo dirty"
    for name in names:
        s = m.SEEDS[name]
        try:
            bad = None
            for f, old, new in s["edits"]:
                p = os.path.join(R, f); t = open(p).read()
                if t.count(old) != 1: bad = f"old text occurs {t.count(old)} times in {f}"; break
                open(p, "w").write(t.replace(old, new))
            if bad: print(name, "SPEC", bad); continue
            run(["rm", "-rf", "/repo/slate/__pycache__"])
            diff = run(["git", "-C", R, "diff"]).stdout
            # lines removed must be the original's
            own = False
            for f in {f for f, _, _ in s["edits"]}:
                mine = own_lines(f)
                d = run(["git", "-C", R, "diff", "-U0", "--", f]).stdout
                for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                    a, n = int(h[1]), int(h[2] or 1)
                    if any(i in mine for i in range(a, a + n)): own = True
            err = stable_ok()
            if err: print(name, "REJECT", err); continue
            d = f"{V}/seeded/{name}"
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write(m.PRELUDE + s["demo"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: /repo. Exit 0 when the property holds here.\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py" </dev/null\n')
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            with_ = run(["bash", d + "/demo.sh"], cwd=R)
            rc, out = check(s["prop"]) if not os.environ.get("NOCHECK") else (None, [""])
            restore()
            without = run(["bash", d + "/demo.sh"], cwd=R)
            ok = with_.returncode != 0 and without.returncode == 0
            print(name, s["prop"], "demo ok" if ok else f"DEMO BAD with={with_.returncode} without={without.returncode} {without.stdout[-400:]}", "OWN-LINES" if own else "",
                  "caught" if rc == 1 else f"MISSED rc={rc}", "|", (out[-2] if rc == 1 and len(out) > 1 else out[-1] if out else "")[:200], flush=True)
        finally:
            restore()
main()
