#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run tools/catalogue.py to regenerate both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import registry
P = []
NA = []


def p(pid, title, statement, over, qtext, why, files, mech, na=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
    if na:
        NA.append({"property": pid, "reason": na})


EE = "eigen_ext/include/eigen_ext/"
exec(open(os.path.join(V, "tools", "properties.py")).read())

TECH = "symbolic execution of the LLVM IR compiled from /repo's sources, every path condition and assertion decided by an SMT solver (Z3); counterexamples replayed on the natively compiled code"
LN = "Bounded, exhaustive within the stated bounds: all inputs are symbolic, the solver covers every value. Counterexamples count only after they fail on the natively compiled code; path witnesses are validated natively as well. Bounds: "


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    ids = {x["id"] for x in P}
    na = {x["property"] for x in NA}
    checks = []
    for pid in sorted(registry.PROPERTIES):
        if pid in na:
            continue
        assert pid in ids, pid
        checks.append({"property": pid, "quick_cmd": "python3 /verif/check.py %s --tier quick" % pid, "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % pid, "technique": TECH, "level": "model_checking",
                       "level_note": LN + registry.PROPERTIES[pid]["bounds"] + ".", "evidence_file": "/verif/evidence/%s.json" % pid})
    for i in sorted(ids):
        assert i in na or i in registry.PROPERTIES, i
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "make -C /verif", "checks": checks, "not_applicable": NA, 
                   "notes": "No hooks in /repo. properties.jsonl and this file are generated by tools/catalogue.py from tools/properties.py and registry.py."}, f, indent=1)
    import jsonschema
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), sc)


main()


def design():
    ns = {}
    exec(open(os.path.join(V, "tools", "design_notes.py")).read(), ns)
    o = open(os.path.join(V, "tools", "design_head.md")).read() + "\n## Properties\n\n"
    na = {x["property"]: x["reason"] for x in NA}
    for x in sorted(P, key=lambda x: x["id"]):
        i = x["id"]
        if i in na:
            continue
        pr = registry.PROPERTIES[i]
        en = [(e if isinstance(e, str) else e["name"]) for h in pr["harnesses"] for e in h["entries"]]
        o += "### %s %s\n\n%s\n\n" % (i, x["title"], x["statement"])
        o += "Functions: %s.\n" % "; ".join(m["name"] for m in x["anchors"]["mechanism"])
        o += "Harness: %s (%s).\n" % (", ".join(h["file"] for h in pr["harnesses"]), ", ".join(en))
        o += ns["NOTES"].get(i, "") + "\nBounds: " + pr["bounds"] + ".\n"
        for a in pr["assumptions"]:
            o += "Environment: " + a + ".\n"
        o += "Why tests cannot settle it: " + x["why_tests_cant"] + ".\n\n"
    if na:
        o += "## Not applicable\n\n" + "".join("* %s %s: %s\n" % (x["id"], x["title"], na[x["id"]]) for x in P if x["id"] in na) + "\n"
    o += open(os.path.join(V, "tools", "design_tail.md")).read()
    r = os.path.join(V, "tools", "seed_results.txt")
    if os.path.exists(r):
        o += "\nResult of the quick tier against each (exit status, seconds):\n\n```\n" + open(r).read() + "```\n"
    open(os.path.join(V, "DESIGN.md"), "w").write(o)


design()
