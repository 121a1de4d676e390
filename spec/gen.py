#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and the runs in props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
L = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, na=None):
    L.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=d) for a, b, d in (state or [])], observe_at=observe or [], hook_needed=None)), na))
from spec.texts import fill
fill(P)
def main():
    ids = [x["id"] for x, _ in L]
    assert len(set(ids)) == len(ids)
    with open(V + "/properties.jsonl", "w") as f:
        for x, _ in L:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x, n in L:
        if n:
            na.append(dict(property=x["id"], reason=n)); continue
        r = PROPS[x["id"]]
        py = any(not s.get("prog") for s in r["runs"])
        bounds = "; ".join("%s: %s" % (s["h"], s["bounds"]) for s in r["runs"])
        checks.append(dict(property=x["id"], quick_cmd="python3 check.py %s --tier quick" % x["id"], thorough_cmd="python3 check.py %s --tier thorough" % x["id"], evidence_file="evidence/%s.json" % x["id"],
            technique=("symbolic execution of the real Python functions with z3 deciding every branch and assertion" if py else "symbolic execution of the compiled LLVM bitcode with z3 deciding every branch and assertion"),
            level="model_checking",
            level_note="Bounded: z3 decides every branch and every assertion for all inputs within the bounds; counterexamples are replayed on the real code (%s). Bounds: %s" % ("the real interpreter" if py else "an ASan/UBSan build", bounds)))
    assert {c["property"] for c in checks} == {k for k in PROPS if not k.startswith("X")}, set(PROPS) ^ {c["property"] for c in checks}
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na, notes="All checks are offline and self-contained: check.py builds the symbolic executor, compiles /repo's current sources to bitcode and explores them."), open(V + "/MANIFEST.json", "w"), indent=1)
    from spec.design import O
    p = V + "/DESIGN.md"
    t = open(p).read()
    a, b = "<!-- per property: written by spec/gen.py -->\n", "<!-- end -->"
    i, j = t.index(a) + len(a), t.index(b)
    s = ""
    for x, n in L:
        if n:
            continue
        r = PROPS[x["id"]]
        s += "**%s %s.** %s *Why tests cannot:* %s *Bounds:* %s.\n\n" % (x["id"], x["title"], O[x["id"]], x["why_tests_cant"], "; ".join("`%s` %s%s" % (q["h"], q["bounds"], " (thorough)" if q.get("thorough") else "") for q in r["runs"]))
    open(p, "w").write(t[:i] + s + t[j:])
    print(len(checks), "checks,", len(na), "not applicable")
main()
