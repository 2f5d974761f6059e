#!/usr/bin/env python3
"""replay.py evidence/C01.replay.json: runs one counterexample on the real code again."""
import json
import sys

import check

if __name__ == "__main__":
    r = json.load(open(sys.argv[1]))
    res = check.concrete(r["prop"], [r["case"]])[0]
    print(json.dumps({"task": r["task"], "inputs": r["case"]["inputs"], "result": res}, indent=1))
    sys.exit(0 if res["ok"] else 1)
