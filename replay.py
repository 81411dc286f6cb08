#!/usr/bin/env python3
"""Re-runs a recorded counterexample against /repo's current tree: replay.py <replay.json>"""
import json, os, shutil, sys, tempfile
import check, registry
r = json.load(open(sys.argv[1]))
wd = tempfile.mkdtemp(prefix="sv-replay-")
try:
    for h in registry.PROPERTIES[r["property"]]["harnesses"]:
        names = [e if isinstance(e, str) else e["name"] for e in h["entries"]]
        if h["file"] == r["harness"] and r["entry"] in names:
            ok, d = check.native_run(h, r["entry"], wd, r["inputs"], r["kind"], r.get("location", "") + "\n" + "\n".join(r.get("stack", [])))
            print(d)
            print("REPRODUCED" if ok else "not reproduced")
            sys.exit(1 if ok else 0)
finally:
    shutil.rmtree(wd, ignore_errors=True)
