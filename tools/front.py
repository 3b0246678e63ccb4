"""Comparison of the front end with its specification (spec/FrontCases.tla)."""
import os
import random
import re

import core
import gen


def std_ifaces():
    return gen.Std.get(os.path.join(core.REPO, "ticc", "src", "std"))


def make_case(i, mods, std, want=("front", "query"), comp=(), first=()):
    """mods: [(path, source)], the last one is the one that is asked about."""
    return {"id": i, "mods": [core.module(p, s) for p, s in mods], "std": std, "want": list(want), "comp": list(comp),
            "first": list(first)}


def uses_std(mods):
    return any('"std/' in s for _, s in mods)


def comp_positions(rng, src, n):
    size = len(src.encode("utf-8"))
    if size <= n:
        return list(range(size + 2))
    out = {0, size, size + 1}
    b = src.encode("utf-8")
    starts = [m.start() for m in re.finditer(rb"[A-Za-z_][A-Za-z0-9_]*|[.(\\;=|]|->", b)]
    while len(out) < n:
        if starts and rng.random() < 0.8:
            p = rng.choice(starts) + rng.choice([0, 0, 0, 1, 1, 2])
        else:
            p = rng.randrange(size + 1)
        out.add(p)
    return sorted(out)


def with_layout(rng, ms):
    return [(p, gen.layout(rng, g.items)) for p, g in ms]


def observe(cases, jobs=8):
    """Cases for TLC: with what the harness observed."""
    inputs = []
    for c in cases:
        d = {k: v for k, v in c.items() if k != "mods"}
        d["mods"] = [{"path": m["path"], "src": bytes(m["b"]).decode("utf-8")} for m in c["mods"]]
        inputs.append(d)
    return core.run_harness(inputs, jobs)


CRASH = ("diags", "toks", "def", "refs", "info")


def crashes(c, o):
    """What of the observation is a crash: [(what, how)]"""
    out = []
    if "crash" in o:
        return [("process", o["crash"])]
    if "module" in o:
        return [("module", o["module"])]
    for k in CRASH + ("ir0", "ir1"):
        if isinstance(o.get(k), dict):
            out.append((k, o[k]))
    for k in ("def", "refs", "info"):
        pass
    for p, a in o.get("comp", ()):
        if isinstance(a, dict):
            out.append(("comp", [p, a]))
    for k in ("answers", "fresh"):
        for a in o.get(k, ()):
            if isinstance(a, dict):
                out.append((k, a))
    return out


def compare(cases, obs, fields=("diags", "toks", "def", "refs", "info", "comp"), limit=800, workers=8):
    """Mismatches between the specification and observations."""
    path = os.path.join(core.BUILD, "cases-%d.json" % os.getpid())
    std = os.path.join(core.BUILD, "std-%d.json" % os.getpid())
    rows = []
    for c, o in zip(cases, obs):
        if crashes(c, o):
            continue
        rows.append({"id": c["id"], "mods": c["mods"], "std": c["std"], "spans": False,
                     "obs": {k: o[k] for k in fields if k in o}})
        if "spans" in fields:
            del rows[-1]["obs"]
            rows[-1].update({"spans": True, "obs": {k: o[k] for k in CRASH if k in o}})
    if not rows:
        return [], None
    core.write_ndjson(path, rows)
    core.write_ndjson(std, core.std_modules() if any(c["std"] for c in cases) else [])
    try:
        t = core.Tlc("FrontCases", {"CasesFile": '"%s"' % path, "StdFile": '"%s"' % std},
                     invariants=("Tiles", "Spans", "UsesDefined"), limit=limit, workers=workers).run()
    finally:
        for p in (path, std):
            if os.path.exists(p):
                os.remove(p)
    return t.messages("MISMATCH"), t


def diags_delta(e, g):
    """Diagnostics only in one of the lists."""
    e, g = [tuple(x) for x in e], [tuple(x) for x in g]
    missing = [x for x in e if x not in g]
    extra = [x for x in g if x not in e]
    if not missing and not extra and e != g:
        return e, g
    return missing, extra
