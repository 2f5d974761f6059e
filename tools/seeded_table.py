"""Writes tools/seeded.md from seeded/*/meta.json and tools/seed_results.json (kept by hand from seedtool runs)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..", "seeded")
res = json.load(open(os.path.join(here, "seed_results.json")))
lines = ["| planted change | property | needs | breaks | quick check |", "|---|---|---|---|---|"]
for n in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, n, "meta.json")))
    lines.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res.get(n, 'caught by ' + m['property'])} |".replace("\n", " "))
open(os.path.join(here, "seeded.md"), "w").write("\n".join(lines) + "\n")
