"""Check of emitted intermediate code (spec/Core.tla)."""
import collections
import concurrent.futures
import os
import random
import shutil
import subprocess
import tempfile
import time

import check_eval as ce
import core
import evals
import front
import ir

FAMILIES = [ce.opt, ce.opt, ce.opt_big, ce.apply, ce.compute, ce.compute, ce.compute_folds, ce.compute_modules, ce.typed, ce.generic, ce.wide, ce.stages]
STD_FAMILIES = [ce.compute_std, ce.std_calls]


def judge(cases, limit=800, workers=8):
    """What the specification says about emitted code: ({id: [what is wrong]}, outcomes, TLC run)"""
    path = os.path.join(core.BUILD, "core-%d.json" % os.getpid())
    std = os.path.join(core.BUILD, "std-%d.json" % os.getpid())
    core.write_ndjson(path, [{k: c[k] for k in ("id", "mods", "std", "fuel", "texts")} for c in cases])
    core.write_ndjson(std, core.std_modules() if any(c["std"] for c in cases) else [])
    try:
        t = core.Tlc("CoreCases", {"CasesFile": '"%s"' % path, "StdFile": '"%s"' % std, **evals.WORD}, spec="SPECIFICATION CoreSpec",
                     limit=limit, workers=workers).run()
    finally:
        for p in (path, std):
            if os.path.exists(p):
                os.remove(p)
    bad = collections.defaultdict(list)
    for m in t.messages("MISMATCH"):
        bad[m["id"]].append("%s: expected %s, got %s" % (m["what"], str(m["expected"])[:400], str(m["got"])[:600]))
    kinds = collections.Counter(m[0] for m in t.messages("CHECKED"))
    kinds.update("skipped: " + m for m in t.messages("SKIPPED"))
    return bad, kinds, t


def command_line(case, optimised):
    """What the command line compiler writes for a program."""
    d = tempfile.mkdtemp(dir=core.BUILD)
    try:
        for m in case["mods"]:
            with open(os.path.join(d, m["path"] + ".tic"), "wb") as f:
                f.write(bytes(m["b"]))
        cmd = [core.binary("ticc"), os.path.join(d, case["mods"][-1]["path"] + ".tic"), "--emit-ir"] + ["--optimize"] * optimised
        out = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                             timeout=core.patience(120))
        try:
            with open(os.path.join(d, case["mods"][-1]["path"] + ".cir"), encoding="utf-8") as f:
                return f.read()
        except OSError:
            return "exit %d: %s" % (out.returncode, out.stderr.decode("utf-8", "replace")[-300:])
    except subprocess.TimeoutExpired:
        core.HANGS.append("ticc")
        return "no end"
    finally:
        shutil.rmtree(d)


def run(prop):
    core.build(bins=True)
    rep = core.Report(prop)
    quick = core.TIER != "thorough"
    deadline = time.time() + 600
    rng = random.Random("%s-%s" % (core.SEED, prop))
    states = transitions = texts = definitions = batches = written = 0
    kinds = collections.Counter()
    sample = None
    tables = ce.all_tables(rng, quick)[:1 if quick else None]
    while batches < 1 if quick else batches == 0 or time.time() < deadline:
        batches += 1
        sources = tables + [f(rng) for f in FAMILIES for _ in range(90)] + [f(rng) for f in STD_FAMILIES for _ in range(20)]
        tables = []
        cases = []
        for mods in sources:
            c = front.make_case(len(cases), mods, front.uses_std(mods), want=("text",))
            c["fuel"] = 20
            cases.append(c)
        kept = []
        for c, o in zip(cases, front.observe(cases)):
            program = {m["path"]: bytes(m["b"]).decode("utf-8") for m in c["mods"]}
            if not o.get("accepted"):
                continue
            c["texts"] = []
            for k, optimised in (("text0", False), ("text1", True)):
                if not isinstance(o.get(k), str):
                    rep.violation("no code is emitted (optimised: %s): %s" % (optimised, o.get(k)), program)
                    continue
                try:
                    c["texts"].append(ir.read(o[k], optimised))
                except ir.Unreadable as e:
                    rep.violation("code cannot be read (optimised: %s): %s" % (optimised, e), {"program": program, "code": o[k]})
            c["shown"] = {"program": program, "code": o.get("text0"), "optimised": o.get("text1")}
            texts += len(c["texts"])
            definitions += sum(len(t["defs"]) for t in c["texts"])
            kept.append(c)
        # programs of one module do not depend on how modules are found
        single = [c for c in kept if len(c["mods"]) == 1][::4]
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            for c, k, o, x in pool.map(lambda a: a + (command_line(a[0], a[2]),),
                                       [(c, k, o) for c in single for k, o in (("code", False), ("optimised", True))]):
                written += 1
                if x != c["shown"][k]:
                    rep.violation("the command line compiler writes other code (optimised: %s): %s" % (o, x[:300]), c["shown"])
        bad, ks, t = judge(kept)
        states += t.states
        transitions += t.transitions
        kinds.update(ks)
        for c in kept:
            for b in bad.get(c["id"], ()):
                rep.violation(b, c["shown"])
        if not sample:
            sample = kept[-1]["shown"]
        if rep.violations:
            break
    return rep.finish("model_checking", {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": texts,
        "definitions": definitions,
        "files_written": written,
        "outcomes": dict(kinds),
        "samples": [{k: str(v)[:1500] for k, v in sample.items()}],
    })
