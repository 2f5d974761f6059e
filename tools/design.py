"""Assembles DESIGN.md from its parts and the harnesses' own statements of bounds."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
def get(f, k):
    s = open(f).read()
    m = re.search(r'^%s = (\(.*?\)|".*?"|\[.*?\])\n(?=[A-Z\n])' % k, s, re.S | re.M)
    return eval(m.group(1)) if m else ""
how = json.load(open(HERE + "/how.json"))
out = open(HERE + "/design_head.md").read()
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    f = f"{V}/props/{d['id'].lower()}.py"
    out += f"### {d['id']} {d['title']}\n\n{how[d['id']]}\n\n* bounds: {get(f, 'BOUNDS')}\n* outside: {get(f, 'OUTSIDE')}\n"
    a = get(f, "ASSUMES")
    if a:
        out += "* assumes: " + "; ".join(a) + "\n"
    b = get(f, "BUDGET") or {}
    m = re.search(r"^BUDGET = (\{.*?\})", open(f).read(), re.M)
    if m:
        b = eval(m.group(1))
        out += f"* cost: at most {b['quick']} s quick, {b['thorough']} s thorough (wall, 8 cores)\n"
    out += f"* beyond the tests: {d['why_tests_cant']}\n\n"
out += open(HERE + "/design_tail.md").read()
if os.path.exists(HERE + "/seeded.md"):
    out += open(HERE + "/seeded.md").read()
open(V + "/DESIGN.md", "w").write(out)
