"""Checks of properties that are about what programs compute."""
import collections
import random
import time

import check_std
import core
import evals
import front
import gen
import gen_eval
import gen_opt

# -- programs: functions of a generator of random numbers that give modules


def opt(r):
    return [("main", gen_opt.OptGen(r, holes=r.choice([0, 0, 0, .01, .03])).program())]


def opt_big(r):
    return [("main", gen_opt.OptGen(r, holes=r.choice([0, .01]), size=100).program())]


def apply(r):
    return [("main", gen_opt.applications(r))]


def stages(r):
    return [("main", gen_opt.stages(r))]


def wide(r):
    return [("main", gen_opt.wide(r))]


# what evaluators do themselves
BUILTIN = ["string.charAt", "string.substring", "string.substring", "string.fromChar", "int.toString", "string.concat", "string.length"]


def std_calls(r):
    """Calls of standard functions, and of functions of them."""
    a = check_std.Args(r)
    src = check_std.PRELUDE
    for k in range(r.choice([4, 8])):
        f = r.choice(BUILTIN) if r.random() < .4 else r.choice([f for f in sorted(check_std.SIG) if r.random() < .3 or f[:3] in ("str", "int")] or ["string.concat"])
        e = check_std.call(f, a.args(r.choice(check_std.SIG[f])))
        src += "export let r%d = %s;\n" % (k, e if r.random() < .6 else "(\\x -> \\f -> f x) 0 (\\_ -> %s)" % e)
    texts = []
    for k in range(r.choice([2, 5])):
        e = check_std.lit(a.string())
        x = r.random()
        if texts and x < .4:
            e = "str.concat %s %s" % (r.choice(texts), r.choice(texts + [e, "(str.fromChar 34)", "(str.fromChar 92)"]))
        elif texts and x < .7:
            e = "str.substring %d %d %s" % (r.randrange(4), r.randrange(6), r.choice(texts))
        src += "export let t%d = %s;\nexport let n%d = str.length t%d + str.charAt %d t%d;\n" % (k, e, k, k, r.randrange(4), k)
        texts.append("t%d" % k)
    return [("main", src)]


def typed(r):
    return [("main", gen.layout(r, gen.program(r, holes=.02, depth=r.choice([3, 4])).items))]


def compute(r):
    return front.with_layout(r, gen_eval.computing(r))


def compute_std(r):
    return front.with_layout(r, gen_eval.computing(r, std=front.std_ifaces()))


def compute_folds(r):
    return front.with_layout(r, gen_eval.computing(r, folds=.25))


def compute_modules(r):
    return front.with_layout(r, gen_eval.computing(r, deps=r.choice([1, 2]), holes=r.choice([0, .01, .02])))


def wild(r):
    return gen.wild(r, scoped=1, annotate=.3, depth=r.choice([2, 3]), names=("a", "b"), ctors=("A", "B"), types=("T", "A"))


def generic(r):
    return [("main", gen.layout(r, gen.generic(r), r.random() * .8))]


def all_tables(rng, quick):
    ts = gen_opt.tables(rng)
    return [[("main", s)] for s in (ts[:6] if quick else ts)]


def spec_words(rep):
    """The arithmetic of the specification itself, on all pairs of small words, and printing of small strings."""
    states = transitions = 0
    for base, limbs, small in [(4, 3, 1), (2, 5, 2), (3, 4, 2), (4, 3, 2)]:
        t = core.Tlc("WordTest", {"Base": base, "Limbs": limbs, "SmallLimbs": small}, invariants=("Correct",)).run()
        states += t.states
        transitions += t.transitions
    t = core.Tlc("ShowModel", {"Limit": 5, "Alphabet": "{0, 1, 10, 13, 34, 48, 49, 92, 110, 114, 120, 255}"}, invariants=("Readable",)).run()
    return states + t.states, transitions + t.transitions


FINISHED = ("ok", "trap", "stuck")


def wrong_eval(prop, want, o):
    """What is wrong with what was observed, for a property."""
    crashed = front.crashes({}, o)
    if prop == "C04":
        if crashed:
            return "crash: %s" % (crashed[0],)
        if "eval" not in o:
            return None
        for runner, opt, res in o["eval"]:
            if isinstance(res, dict):
                return "crash of %s (optimised: %s): %s" % (runner, opt, res)
        if want[0] == "stuck":
            return "accepted, but evaluation gets stuck: %s" % (want,)
        return None
    if "eval" not in o:
        # reported to have errors (see C05), or not compiled at all
        return "it has no meaning to compare with: %s" % (crashed[:1],) if crashed else None
    if prop == "C02" and isinstance(o.get("ir1"), dict):
        return "optimised code is malformed: %s" % (o["ir1"],)
    for runner, opt, res in o["eval"]:
        if prop == "C01" and not opt and res != want:
            return "%s gives %s, and the program means %s" % (runner, str(res)[:300], str(want)[:300])
        if prop == "C02" and opt:
            plain = next(x[2] for x in o["eval"] if x[0] == runner and not x[1])
            if want[0] == "trap" and plain == want and isinstance(res, list) and res[0] in ("ok", "trap"):
                continue
            # optimised programs are judged by their meaning, or by what they
            # did before when that was wrong already
            if res != want and res != plain:
                return "optimised %s gives %s, and the program means %s" % (runner, str(res)[:300], str(want)[:300])
    return None


class Check:
    def __init__(self, prop, families, per_batch, tables=False, words=False, fuel=60):
        self.prop, self.families, self.per_batch = prop, families, per_batch
        self.tables, self.words, self.fuel = tables, words, fuel

    def run(self, deadline):
        core.build()
        rep = core.Report(self.prop)
        rng = random.Random("%s-%s" % (core.SEED, self.prop))
        quick = core.TIER != "thorough"
        states = transitions = traces = runs = batches = 0
        if self.words:
            states, transitions = spec_words(rep)
        tables = all_tables(rng, quick) if self.tables else []
        kinds = collections.Counter()
        seen = set()
        samples = []
        while batches < 1 if quick else batches == 0 or time.time() < deadline:
            batches += 1
            cases = []
            for mods in tables + [f(rng) for f in self.families for _ in range(self.per_batch)]:
                c = front.make_case(len(cases), mods, front.uses_std(mods), want=("eval", "ir"))
                c["fuel"] = self.fuel
                cases.append(c)
            tables = []
            outs, t = evals.outcomes(cases)
            states += t.states
            transitions += t.transitions
            # programs that the specification did not finish might not end
            cases = [c for c in cases if outs[c["id"]][0] in FINISHED]
            for c, o in zip(cases, front.observe(cases)):
                want = outs[c["id"]]
                bad = wrong_eval(self.prop, want, o)
                if bad:
                    rep.violation(bad, {m["path"]: bytes(m["b"]).decode("utf-8") for m in c["mods"]})
                traces += "eval" in o
                runs += len(o.get("eval", ()))
                seen.add(str(want))
            kinds.update(o[0] for o in outs.values())
            if not samples:
                samples = [[bytes(c["mods"][-1]["b"]).decode("utf-8"), outs[c["id"]]] for c in cases[-2:]]
            if rep.violations:
                break
        return rep.finish("model_checking", {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "evaluations": runs,
            "distinct_outcomes": len(seen),
            "outcomes": dict(kinds),
            "samples": samples,
        })


CHECKS = {
    "C01": Check("C01", [compute, compute_std, compute_folds, compute_modules, opt, apply, typed, opt_big, wide, std_calls, stages], 80, tables=True,
                 words=True),
    "C02": Check("C02", [opt, opt, opt, opt, opt, opt, opt_big, opt_big, apply, compute, compute_std, compute_folds,
                         compute_modules, typed, wide, std_calls, stages, stages], 100, tables=True),
    "C04": Check("C04", [typed, typed, generic, wild, wild, compute_std, compute_modules, compute_folds, opt, opt, wide, std_calls, stages], 100),
}


def run(prop):
    quick = core.TIER != "thorough"
    return CHECKS[prop].run(time.time() + (0 if quick else 600))
