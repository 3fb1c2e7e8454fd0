#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS
try:
    from props import NA
except ImportError:
    NA = []
H = os.path.dirname(os.path.abspath(__file__))


def line(i, p):
    return dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["tests"],
                anchors=dict(files=p["files"], mechanism=[dict(name=m, where=p["files"][0]) for m in p["mech"]], observe_at=p["observe"], hook_needed=None))


def bounds(p):
    b = p["bounds"]
    return b["quick"] if isinstance(b, dict) else b


with open(H + "/properties.jsonl", "w") as f:
    for i, p in list(sorted(PROPS.items())) + [(n["id"], n) for n in NA]:
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        assert p["statement"].count(". ") <= 2, i
        f.write(json.dumps(line(i, p)) + "\n")
json.dump(dict(
    version=1,
    setup_cmd="mkdir -p build evidence && python3 check.py --engine",
    checks=[dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                 evidence_file="evidence/%s.json" % i,
                 technique="symbolic execution of the real code's LLVM IR, every branch and assertion decided by Z3; counterexamples replayed natively",
                 level="model_checking",
                 level_note="Holds for all values within the bounds: %s. Outside: %s. Trusts Z3, the engine, the in-memory stream models and clang's IR; models are replayed on a g++ build." % (bounds(p), p["outside"] or "-"))
            for i, p in sorted(PROPS.items())],
    not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA],
    notes="check.py compiles /repo's current sources on every run; engine/ is the symbolic executor, harness/ the properties, shim/ and runtime/ the environment models."),
    open(H + "/MANIFEST.json", "w"), indent=1)
