"""Evaluation of programs by the specification (spec/EvalCases.tla)."""
import os

import core

WORD = {"Base": 256, "Limbs": 8, "SmallLimbs": 3}


def outcomes(cases, limit=800, workers=8):
    """What the specification says about each case: id -> outcome."""
    path = os.path.join(core.BUILD, "evals-%d.json" % os.getpid())
    std = os.path.join(core.BUILD, "std-%d.json" % os.getpid())
    core.write_ndjson(path, [{"id": c["id"], "mods": c["mods"], "std": c["std"], "fuel": c.get("fuel", 60)} for c in cases])
    core.write_ndjson(std, core.std_modules() if any(c["std"] for c in cases) else [])
    try:
        t = core.Tlc("EvalCases", {"CasesFile": '"%s"' % path, "StdFile": '"%s"' % std, **WORD}, limit=limit,
                     workers=workers).run()
    finally:
        for p in (path, std):
            if os.path.exists(p):
                os.remove(p)
    return {m["id"]: m["out"] for m in t.messages("OUTCOME")}, t


def mains(cases, limit=800, workers=8):
    """What the specification says about main functions: id -> {number of an input (0 for all): outcome}."""
    path = os.path.join(core.BUILD, "mains-%d.json" % os.getpid())
    std = os.path.join(core.BUILD, "std-%d.json" % os.getpid())
    core.write_ndjson(path, [{"id": c["id"], "mods": c["mods"], "std": c["std"], "fuel": c["fuel"], "inputs": c["inputs"]}
                             for c in cases])
    core.write_ndjson(std, core.std_modules() if any(c["std"] for c in cases) else [])
    try:
        t = core.Tlc("MainCases", {"CasesFile": '"%s"' % path, "StdFile": '"%s"' % std, **WORD}, spec="SPECIFICATION MainSpec",
                     invariants=("Sound",), limit=limit, workers=workers).run()
    finally:
        for p in (path, std):
            if os.path.exists(p):
                os.remove(p)
    out = {c["id"]: {} for c in cases}
    for m in t.messages("MAIN"):
        out[m["id"]][m["input"]] = m["out"]
    return out, t
