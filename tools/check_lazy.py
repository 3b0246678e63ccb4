"""Check that answers do not depend on histories of queries (C12)."""
import collections
import os
import random
import re
import time

import check_eval
import check_front
import core
import front

FAMILIES = [check_front.f_typed, check_front.f_wild_modules, check_front.f_modules, check_front.f_broken, check_front.f_wild_names,
            check_front.f_generic, check_front.f_folds, check_front.f_broken_wild, check_front.f_wild_scoped]
POSITIONAL = ("def", "refs", "info", "comp")
NAME = re.compile(rb"[A-Za-z_][A-Za-z0-9_]*|[.(\\|]")


def histories(items, steps, simulate=0, seed=1):
    """Histories of queries from the model (spec/Lazy)."""
    args = dict(simulate="num=%d" % simulate, depth=steps + 2, args=("-seed", str(seed)), workers=1) if simulate else {}
    t = core.Tlc("Lazy", {"N": items, "Steps": steps}, spec="SPECIFICATION GenSpec", invariants=("Lazy", "Same", "Shown"),
                 **args).run(check=not simulate)
    out = [m["script"] for m in t.messages("SCRIPT")]
    if not out or "is violated" in t.text:
        raise core.ToolError("no histories from Lazy: %s" % t.errors())
    return out, t


def model(quick):
    n, k = (3, 3) if quick else (4, 3)
    t = core.Tlc("Lazy", {"N": n, "Steps": k}, invariants=("Lazy", "Same"), properties=("Monotone",)).run()
    return t.states, t.transitions


def concrete(rng, script, src, items):
    """The queries of a history, asked about places in a source."""
    b = src.encode("utf-8")
    names = [m.start() for m in NAME.finditer(b)] or [0]
    parts = [names[len(names) * i // items:len(names) * (i + 1) // items] or names for i in range(items)]
    chosen = {}
    out = []
    single = rng.random() < .6
    for kind, i in script:
        if i:
            # the same place of an item is asked about again
            if i not in chosen or rng.random() < .5:
                chosen[i] = rng.choice(parts[i - 1]) + rng.choice([0, 0, 0, 1, 1, 2])
                if rng.random() < .1:
                    chosen[i] = rng.randrange(len(b) + 3)
            p = chosen[i]
        else:
            p = rng.randrange(3)
        out.append([kind, p, 0 if single else rng.randrange(3)])
        x = rng.random()
        if x < .05:
            out.append([rng.choice(["toks1", "diags1", "src", "main"]), rng.randrange(6), rng.randrange(3)])
        elif x < .08:
            out.append(["use", 0, rng.randrange(3)])
    return out


def norm(kind, a):
    """Names offered are a set."""
    if kind == "comp" and isinstance(a, list) and a:
        return sorted(a[0])
    if kind == "use" and isinstance(a, list):
        return [sorted(x[0]) if x else [] for x in a]
    return a


def make(rng, i, mods, scripts, items, warm):
    c = front.make_case(i, mods, front.uses_std(mods), want=())
    src = mods[-1][1]
    c["scripts"] = [concrete(rng, s, src, items) for s in scripts]
    if warm:
        kinds = POSITIONAL + ("diags", "toks")
        longest = max(len(s) for _, s in mods)
        c["warm"] = [[rng.choice(kinds), rng.randrange(longest + 1), 0] for _ in range(rng.randrange(1, 5))]
    return c


def specified(cases, obs, rng, per_case):
    """TLC follows some of the histories: mismatches."""
    rows = []
    for c, o in zip(cases, obs):
        if c["id"] >= per_case["evaluated"] or front.crashes({}, {k: v for k, v in o.items() if k == "crash"}):
            continue
        n = rng.randrange(len(c["scripts"]))
        script, answers = [], []
        for q, a in zip(c["scripts"][n], o["answers"][n]):
            if q[0] in ("def", "refs", "info", "comp", "diags", "toks") and not isinstance(a, dict):
                script.append(q[:2])
                answers.append(a)
        rows.append({"id": c["id"], "mods": c["mods"], "std": c["std"], "script": script, "answers": answers})
    path = os.path.join(core.BUILD, "lazy-%d.json" % os.getpid())
    std = os.path.join(core.BUILD, "lazystd-%d.json" % os.getpid())
    core.write_ndjson(path, rows)
    core.write_ndjson(std, core.std_modules() if any(r["std"] for r in rows) else [])
    try:
        t = core.Tlc("LazyCases", {"CasesFile": '"%s"' % path, "StdFile": '"%s"' % std}, spec="SPECIFICATION LSpec",
                     invariants=("Prefix", "FromPart")).run()
    finally:
        os.remove(path)
        os.remove(std)
    return t, len(rows), sum(len(r["script"]) for r in rows)


def run(prop):
    core.build()
    rep = core.Report(prop)
    rng = random.Random("%s-%s" % (core.SEED, prop))
    quick = core.TIER != "thorough"
    deadline = time.time() + 600
    states, transitions = model(quick)
    items = 3
    short, t = histories(items, 2)
    states, transitions = states + t.states, transitions + t.transitions
    triples, t = histories(items, 3)
    states, transitions = states + t.states, transitions + t.transitions
    long, _ = histories(items, 9, simulate=300, seed=core.SEED)
    queries = traces = batches = conform = followed = 0
    kinds = collections.Counter()
    samples = []
    evfams = sorted({f for c in check_eval.CHECKS.values() for f in c.families}, key=lambda f: f.__name__)
    while batches < 1 if quick else batches == 0 or time.time() < deadline:
        batches += 1
        cases = []
        for i in range(160):
            mods = FAMILIES[i % len(FAMILIES)](rng)
            scripts = [s for s in rng.sample(triples, 25) + rng.sample(short, 8) + rng.sample(long, 7)]
            # programs of these families may take long to evaluate
            scripts = [[q for q in s if q[0] != "eval"] for s in scripts]
            cases.append(make(rng, i, mods, scripts, items, len(mods) > 1 and rng.random() < .5))
            cases[-1]["scripts"] = [[q for q in s if q[0] != "main"] for s in cases[-1]["scripts"]]
        evaluated = len(cases)
        for i in range(40):
            mods = evfams[i % len(evfams)](rng)
            scripts = [s for s in rng.sample(triples, 25) + rng.sample(short, 8) + rng.sample(long, 7)]
            cases.append(make(rng, len(cases), mods, scripts, items, len(mods) > 1 and rng.random() < .5))
        obs = front.observe(cases)
        # other processes, and other modules: ones that nothing was asked about
        again = front.observe([{k: v for k, v in c.items() if k != "warm"} for c in cases], jobs=5)
        for c, o, o2 in zip(cases, obs, again):
            text = check_front.sources(c)
            if "crash" in o or "crash" in o2 or "module" in o:
                # a crash belongs to another property, if it always happens
                if ("crash" in o) != ("crash" in o2):
                    rep.violation("the process crashes, or not: %s %s" % (o.get("crash"), o2.get("crash")), text)
                continue
            traces += len(c["scripts"])
            for s, as_, fs, as2 in zip(c["scripts"], o["answers"], o["fresh"], o2["answers"]):
                for n, (q, a, f, a2) in enumerate(zip(s, as_, fs, as2)):
                    queries += 1
                    kinds[q[0]] += 1
                    if norm(q[0], a) != norm(q[0], f):
                        rep.violation("%s after %s: %s, and %s if nothing was asked before" % (
                            q, s[:n], str(a)[:200], str(f)[:200]), text)
                    elif norm(q[0], a) != norm(q[0], a2):
                        rep.violation("%s after %s: %s, and %s in another process" % (q, s[:n], str(a)[:200], str(a2)[:200]), text)
        t, n, asked = specified(cases, obs, rng, {"evaluated": evaluated})
        states += t.states
        transitions += t.transitions
        followed += n
        # what is only different from the specification is for other properties
        conform += asked - len(t.messages("MISMATCH"))
        if not samples:
            samples = [[c["mods"][-1]["t"][:300], c["scripts"][0]] for c in cases[:2]]
        if rep.violations:
            break
    return rep.finish("model_checking", {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "histories_followed_by_specification": followed,
        "answers_as_specified": conform,
        "queries": queries,
        "kinds": dict(kinds),
        "samples": samples,
    })
