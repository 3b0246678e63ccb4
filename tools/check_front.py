"""Checks of properties that are about analysis of source text."""
import os
import random
import re
import subprocess
import tempfile
import time

import core
import front
import gen

# -- sources

def program(rng, **kw):
    return [("main", gen.layout(rng, gen.program(rng, **kw).items))]


def modules(rng, **kw):
    return front.with_layout(rng, gen.modules(rng, front.std_ifaces(), **kw))


def f_typed(r):
    return program(r, depth=r.choice([3, 4, 5]))


def f_noise(r):
    return program(r, noise=r.choice([.02, .04, .08]))


def f_folds(r):
    """Folds inside of folds, over several types."""
    g = gen.Gen(r, noise=r.choice([0, .03, .06]), folds=r.choice([.2, .35]), depth=r.choice([3, 4, 5]))
    for _ in range(r.choice([2, 3])):
        g.type_item(0)
    for _ in range(r.choice([1, 1, 2])):
        g.value_item(g.r.choice([gen.INT, gen.INT, gen.fn(gen.INT, gen.INT), gen.BOOL]))
    return [("main", gen.layout(r, g.items))]


def f_modules(r):
    return modules(r)


def f_modules_noise(r):
    return modules(r, noise=r.choice([.02, .05]))


def f_wild(r):
    return gen.wild(r, scoped=r.choice([.5, .8, .95, 1]), depth=r.choice([2, 3, 4]))


def f_wild_scoped(r):
    return gen.wild(r, scoped=1, annotate=.3, depth=r.choice([2, 3]), names=("a", "b"), ctors=("A", "B"), types=("T", "A"))


def f_wild_names(r):
    return gen.wild(r, scoped=r.choice([.9, 1]), depth=r.choice([1, 2, 3]))


def f_wild_modules(r):
    return gen.wild_modules(r, scoped=r.choice([.8, .95, 1]), depth=r.choice([2, 3]))


def f_broken(r):
    return [("main", gen.broken(r))]


def f_broken_wild(r):
    items = gen.Wild(r, depth=3, paths=[("lib", gen.members(gen.LIB[0][1]))]).program(r.choice([1, 2, 3]))
    k = r.randrange(len(items))
    items[k] = gen.mutate_tokens(r, items[k], r.choice([1, 1, 2]))
    return gen.LIB[:1] + [("main", gen.layout(r, items))]


def f_soup(r):
    return [("main", gen.soup(r))]


def f_text(r):
    return [("main", gen.mutate_text(r, gen.layout(r, gen.program(r, depth=2).items), r.choice([3, 10, 30])))]


def f_operators(r):
    return [("main", gen.operators(r))]


def f_matches(r):
    return gen.matches(r)


def f_generic(r):
    return [("main", gen.layout(r, gen.generic(r), r.random() * .8))]


def f_unify(r):
    return [("main", gen.unify(r))]


# -- what a mismatch is about

CLASSES = [
    ("warning", r".* is never used"),
    ("cover", r"pattern .* not covered|patterns .* not covered|unreachable pattern|cannot match on .*"),
    ("name", r"undefined (variable|constructor|type|module)|module does not export .*|duplicate constructor .*"
             r"|cannot find module|import cycle|failed to read module.*"),
    ("number", r".*number.*|.*literal.*|.*too large.*"),
    ("syntax", r"bad token"),
    ("type", r"type variable .* escapes into the type of .*|.* type arguments, got .*|expected \d+ fields, got \d+"),
]
HINTS = {"definition", "type", "expression", "operator", "name", "end of file", "number", "string", "hole", "constructor"}


def diag_class(d):
    if d[2] == "warning":
        return "warning"
    for c, rx in CLASSES:
        if re.fullmatch(rx, d[3]):
            return c
    # messages of the parser quote tokens and never mention types
    m = re.match(r"expected (.*?)(, got (.*))?$", d[3])
    if m:
        first = re.split(r", or | or |, ", m.group(1))[0]
        if first.startswith("`") or first in HINTS:
            return "syntax"
        return "type"
    return "other"


def norm(cls, d):
    """What has to agree: places for some diagnostics, texts for others."""
    if cls in ("warning", "cover"):
        return tuple(d)
    return (d[0], d[1], cls)


def diag_mismatch(m, classes):
    def pick(ds):
        out = [norm(diag_class(d), d) for d in ds if diag_class(d) in classes or diag_class(d) == "other"]
        return sorted(map(str, out))
    e, g = pick(m["expected"]), pick(m["got"])
    if e == g:
        return None
    return "diagnostics: expected %s, got %s" % ([x for x in e if x not in g][:3] or e[:3], [x for x in g if x not in e][:3] or g[:3])


def about(prop, m):
    """Text of the violation of a property by a mismatch, if it is one."""
    w = m["what"]
    if w == "diags":
        cls = {"C05": ("type",), "C06": ("cover",), "C07": ("name",), "C09": ("warning",), "C10": ("syntax", "number"),
               "C11": (), "C12": None}.get(prop, ())
        if not cls:
            return None
        return diag_mismatch(m, cls)
    if w in ("def", "refs") and prop in ("C07", "C08") or w == "info" and prop == "C20" or w == "toks" and prop == "C21" \
            or w == "comp" and prop == "C17":
        return "%s: expected %s, got %s" % (w, str(m["expected"])[:200], str(m["got"])[:200])
    if w == "info" and prop == "C10":
        def spans(x):
            x = x[1] if len(x) > 1 and isinstance(x[1], list) else x
            return x[:2]
        if m["expected"][0] == "unchanged at":
            return None
        e, g = spans(m["expected"]), spans(m["got"])
        if e != g:
            return "structure at %s: expected %s, got %s" % (m["expected"][0], e, g)
    if w == "span" and prop == "C11":
        return "span or order: %s" % str(m["got"])[:200]
    return None


# sources whose parts are nested n deep
DEEP = {
    "parens": lambda n: "export let a = " + "(" * n + "1" + ")" * n + ";",
    "open": lambda n: "export let a = " + "(" * n,
    "sum": lambda n: "export let a = " + "1 + " * n + "1;",
    "pipe": lambda n: "export let a = 1 " + "|> (\\x -> x) " * n + ";",
    "apply": lambda n: "let f = \\x -> x;\nexport let a = f " + "1 " * n + ";",
    "lambda": lambda n: "export let a = " + "\\x -> " * n + "1;",
    "let": lambda n: "export let a = " + "let x = 1; " * n + "1;",
    "if": lambda n: "export let a = " + "if true then 1 else " * n + "1;",
    "match": lambda n: "type T = A;\nexport let a : int = " + "match A with | A -> " * n + "1" + " end" * n + ";",
    "cons": lambda n: "type L = N | C int rec;\nexport let a = " + "C 1 (" * n + "N" + ")" * n + ";",
    "type": lambda n: "export let a : " + "(" * n + "int" + ")" * n + " = 1;",
    "arrows": lambda n: "export let a : " + "int -> " * n + "int = ?x;",
}


def x_deep(rng, quick):
    return [[("main", DEEP[k](rng.choice([60, 150, 250])))] for k in sorted(DEEP)]


def too_deep(rep):
    """The command line compiler on a source that is nested very deeply (a known finding)."""
    with tempfile.TemporaryDirectory(dir=core.BUILD) as d:
        p = os.path.join(d, "main.tic")
        with open(p, "w") as f:
            f.write(DEEP["sum"](20000))
        r = subprocess.run([core.binary("ticc"), "--check", p], stdin=subprocess.DEVNULL, capture_output=True)
        if r.returncode not in (0, 1):
            rep.violation("sum-of-20000-terms", DEEP["sum"](20000))


class Check:
    def __init__(self, prop, fields, families, want, per_batch, comp=0, first=6, extra=None,
                 batches=2):
        self.extra, self.batches = extra, batches
        self.prop, self.fields, self.families, self.want = prop, fields, families, want
        self.per_batch, self.comp, self.first = per_batch, comp, first

    def cases(self, rng, n, given=()):
        out = []
        for i in range(n + len(given)):
            mods = given[i - n] if i >= n else self.families[i % len(self.families)](rng)
            src = mods[-1][1]
            out.append(front.make_case(
                i, mods, front.uses_std(mods), want=self.want,
                comp=front.comp_positions(rng, src, self.comp) if self.comp else (),
                first=front.comp_positions(rng, src, self.first) if self.first else ()))
        return out

    def run(self, deadline):
        core.build(bins=self.prop == "C11")
        rep = core.Report(self.prop)
        if self.prop == "C11":
            too_deep(rep)
        rng = random.Random("%s-%s" % (core.SEED, self.prop))
        states = transitions = traces = accepted = steps = 0
        seen = set()
        samples = []
        batches = 0
        quick = core.TIER != "thorough"
        systematic = self.extra(rng, quick) if self.extra else []
        while (batches < self.batches if quick else batches == 0 or systematic or time.time() < deadline):
            batches += 1
            now, systematic = systematic[:600], systematic[600:]
            cases = self.cases(rng, self.per_batch if not now else self.per_batch // 4, now)
            obs = front.observe(cases)
            by_id = {c["id"]: c for c in cases}
            for c, o in zip(cases, obs):
                bad = front.crashes(c, o)
                if bad:
                    rep.violation("crash: %s" % (bad[0],), sources(c))
            mm, t = front.compare(cases, obs, self.fields)
            for m in mm:
                text = about(self.prop, m)
                if text:
                    rep.violation(text, sources(by_id[m["id"]]))
            if t:
                states += t.states
                transitions += t.transitions
            traces += sum(1 for c, o in zip(cases, obs) if not front.crashes(c, o))
            accepted += sum(1 for o in obs if o.get("accepted"))
            seen |= {str(c["mods"]) for c in cases}
            if not samples:
                samples = [sources(c) for c in cases[:2]]
            if any(w != "sum-of-20000-terms" for w, _ in rep.violations):
                break
        return rep.finish("model_checking", {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "distinct_sources": len(seen),
            "accepted_sources": accepted,
            "compared": list(self.fields),
            "samples": samples,
        })


def sources(c):
    return {m["path"]: bytes(m["b"]).decode("utf-8") for m in c["mods"]}


def x_pairs(rng, quick):
    ps = gen.pairs()
    if quick:
        ps = rng.sample(ps, 3000)
    return [[("main", s)] for s in gen.pair_programs(ps)]


def x_syntax(rng, quick):
    cs = list(gen.syntax_changes())
    if quick:
        # pieces left out, swapped and repeated, and some of those with another token
        cs = [c for c in cs if not isinstance(c[3], str)] + rng.sample([c for c in cs if isinstance(c[3], str)], 2500)
    rng.shuffle(cs)
    return [[("main", s)] for s in gen.syntax_programs(rng, cs) + gen.number_programs(rng)]


CHECKS = {
    "C05": Check("C05", ("diags",), [f_typed, f_noise, f_wild_scoped, f_generic, f_modules, f_wild, f_generic, f_modules_noise, f_folds, f_folds, f_unify, f_unify],
                 ["front"], 1200, first=0, extra=x_pairs),
    "C06": Check("C06", ("diags",), [f_matches, f_matches, f_noise, f_wild_scoped], ["front"], 1500, first=0),
    "C07": Check("C07", ("diags", "def", "refs"), [f_wild, f_wild_names, f_wild_modules, f_wild_modules, f_noise, f_modules_noise],
                 ["front", "query"], 1000),
    "C08": Check("C08", ("def", "refs"), [f_typed, f_wild, f_wild_modules, f_modules, f_broken, f_wild_names], ["query"], 900),
    "C09": Check("C09", ("diags",), [f_typed, f_wild_names, f_wild_modules, f_modules, f_wild_names], ["front"], 1500, first=0),
    "C10": Check("C10", ("diags", "info"), [f_operators, f_broken, f_soup, f_wild, f_broken_wild], ["front", "query"], 1000,
                 extra=x_syntax),
    "C17": Check("C17", ("comp",), [f_typed, f_wild, f_wild_modules, f_modules, f_broken, f_wild_names], [], 650, comp=24, first=0),
    "C20": Check("C20", ("info",), [f_typed, f_modules, f_wild_scoped, f_generic, f_wild_modules, f_unify], ["query"], 1000),
    "C21": Check("C21", ("toks",), [f_typed, f_wild_names, f_wild_modules, f_modules, f_broken, f_soup, f_text], ["front"], 1400, first=0),
    "C11": Check("C11", ("spans",), [f_soup, f_broken, f_text, f_wild, f_broken_wild, f_wild_modules, f_matches, f_generic],
                 ["front", "query"], 1100, comp=10, extra=x_deep),
}


def run(prop):
    quick = core.TIER != "thorough"
    return CHECKS[prop].run(time.time() + (0 if quick else 600))
