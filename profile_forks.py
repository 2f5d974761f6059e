"""Debug aid: where do the forks of one task come from?  profile_forks.py C01 WCD [seconds]"""
import collections, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(5000)
from engine import sym
from engine.explore import Engine
eng = Engine(sys.argv[1].lower(), os.environ.get("VERIF_REPO", "/repo"))
task = [t for t in eng.h.tasks(os.environ.get("VERIF_TIER", "quick")) if t[0] == sys.argv[2]][0]
fn = getattr(eng.h, task[1])
C = collections.Counter()
ob, orz = sym.PathCtx.branch, sym.PathCtx.realize
def site():
    st = traceback.extract_stack(limit=14)[:-3]
    out = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in st if "engine" not in f.filename or 1]
    out = [o for o in out if not o.startswith(("sym.py", "symstr.py", "rt.py", "explore.py"))]
    return " < ".join(reversed(out[-3:]))
def branch(self, e):
    n = self.stats.forks
    r = ob(self, e)
    if self.stats.forks > n:
        C[site()] += 1
    return r
def realize(self, e, *a, **k):
    n = self.stats.forks
    r = orz(self, e, *a, **k)
    if self.stats.forks > n:
        C["R " + site()] += 1
    return r
sym.PathCtx.branch, sym.PathCtx.realize = branch, realize
stats = sym.Stats()
stack = [[]]
t0 = time.time()
lim = float(sys.argv[3]) if len(sys.argv) > 3 else 5
while stack and time.time() - t0 < lim:
    r = eng.run_path(fn, task[2], stack.pop(), stats)
    stack.extend(r["alts"])
    if r["outcome"] not in ("completed", "dead"):
        print(r["outcome"], r["label"], r.get("detail"), r.get("inputs"), file=sys.__stderr__)
print("paths", stats.paths, "left", len(stack), "time", time.time() - t0, "queries", stats.queries, "solver", stats.solver_s, file=sys.__stderr__)
for k, v in C.most_common(25):
    print(v, k, file=sys.__stderr__)
