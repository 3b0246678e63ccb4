"""Check of standard library functions (C19)."""
import collections
import itertools
import os
import random
import time

import core

FUNS = {
    "id": "\\x -> x", "inc": "\\x -> x + 1", "dbl": "\\x -> x * 2", "even": "\\x -> x % 2 == 0", "small": "\\x -> x < 3",
    "never": "\\_ -> false", "always": "\\_ -> true",
    "half": "\\x -> if x % 2 == 0 then Some (x / 2) else None",
    "check": "\\x -> if x < 3 then Ok (x * 5) else Err (x + 1)",
    "twice": "\\x -> Cons x (Cons x Nil)", "copies": "\\x -> list.repeat (x % 4) x", "show": "\\x -> ints.toString x",
    "size": "\\x -> str.length x", "shout": "\\x -> str.concat x \"!\"",
    "lt": "\\x -> \\y -> x < y", "gt": "\\x -> \\y -> x > y", "le": "\\x -> \\y -> x <= y", "lt3": "\\x -> \\y -> x % 3 < y % 3",
    "shorter": "\\x -> \\y -> str.length x < str.length y",
    "plus": "\\x -> \\y -> x + y", "minus": "\\x -> \\y -> x - y", "mix": "\\x -> \\y -> x * 10 + y",
    "glue": "\\x -> \\y -> str.concat x y", "pair": "\\x -> \\y -> Cons x (Cons y Nil)",
}
PRELUDE = """import ints from "std/int";
import option(Option, Some, None) from "std/option";
import result(Result, Ok, Err) from "std/result";
import list(List, Nil, Cons) from "std/list";
import str from "std/string";
import array from "std/array";
"""
# functions by their types
KINDS = {
    "i>i": ["inc", "dbl", "id"], "i>b": ["even", "small", "never", "always"], "i>o": ["half"], "i>r": ["check"],
    "i>l": ["twice", "copies"], "i>s": ["show"], "s>i": ["size"], "s>s": ["shout", "id"], "i>": ["inc", "dbl", "id", "show"],
    "ii>b": ["lt", "gt", "le", "lt3"], "ss>b": ["shorter"], "ii>i": ["plus", "minus", "mix"], "ss>s": ["glue"],
    "ii>": ["plus", "minus", "mix", "pair"],
}
# argument types: i number, c small count, b, s, [t list, ?t option, !t result, f..; variants by |
SIG = {
    "int.iterate": ["c fi>i i", "c fs>s s"], "int.toString": ["i"], "int.parse": ["p"], "int.min": ["i i"], "int.max": ["i i"],
    "int.gcd": ["i i", "m m"], "int.lcm": ["i i", "m m"], "int.bitAnd": ["i i"], "int.bitOr": ["i i"], "int.bitXor": ["i i"],
    "option.map": ["fi> ?i", "fs>i ?s"], "option.andThen": ["fi>o ?i"], "option.flatten": ["??i"], "option.unwrapOr": ["i ?i", "s ?s"],
    "option.apply": ["?i ?fi>"], "option.isSome": ["?i", "?s"], "option.isNone": ["?i", "?s"],
    "result.map": ["fi> !i"], "result.mapErr": ["fi> !i"], "result.andThen": ["fi>r !i"], "result.flatten": ["!!i"],
    "result.unwrapOr": ["i !i"], "result.ok": ["!i"], "result.err": ["!i"], "result.okOr": ["s ?i", "i ?s"],
    "result.apply": ["!i !fi>"], "result.join": ["!i"],
    "string.length": ["s"], "string.concat": ["s s"], "string.charAt": ["n s"], "string.substring": ["n n s"],
    "string.fromChar": ["k"], "string.split": ["k s"], "string.lines": ["t"], "string.foldChars": ["i fii>i s"],
    "string.equal": ["s s", "S"], "string.startsWith": ["s s", "P"], "string.chars": ["s"], "string.trim": ["w"], "string.newline": [""],
    "list.map": ["fi> [i", "fs>i [s"], "list.filter": ["fi>b [i"], "list.sum": ["[i"], "list.product": ["[i"], "list.any": ["[b"],
    "list.all": ["[b"], "list.head": ["[i", "[s"], "list.tail": ["[i", "[s"], "list.reverse": ["[i", "[s"], "list.max": ["[i"],
    "list.min": ["[i"], "list.maxBy": ["fii>b [i", "fss>b [s"], "list.minBy": ["fii>b [i", "fss>b [s"], "list.allSome": ["[?i"],
    "list.allOk": ["[!i"], "list.skip": ["c [i", "c [s"], "list.take": ["c [i", "c [s"], "list.length": ["[i", "[s", "[[i"],
    "list.foldr": ["fii>i i [i", "fss>s s [s"], "list.foldl": ["i fii>i [i", "s fss>s [s"], "list.repeat": ["c i", "c s"],
    "list.filterMap": ["fi>o [i"], "list.concat": ["[i [i", "[s [s"], "list.sortBy": ["fii>b [i", "fss>b [s"],
    "list.join": ["s [s"], "list.range": ["r r", "R"], "list.zip": ["fii> [i [i"], "list.flatMap": ["fi>l [i"],
    "list.flatten": ["[[i", "[[s"],
}
BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2, 2 ** 64 - 1,
       12200160415121876738, 7540113804746346429, 6148914691236517205, 12297829382473034410, 10 ** 19]
TEXTS = ["", "a", "b", " ", "aa", "ab", "ba", "abc", "a b", "  a ", "a\n", "\n", "\r\n", "a\r\nb", "\na", "a\n\nb", "aXbXc", "XX",
         "a\r", "hello", "\x7f", "\"", "\\"]


def num(n):
    return ["i", [int(d) for d in str(n)]]


def text(s):
    return ["s", list(s.encode("latin-1"))]


class Args:
    def __init__(self, rng):
        self.r = rng

    def number(self):
        r = self.r
        x = r.random()
        if x < .55:
            return num(r.choice([0, 1, 2, 3, 4, 5, 7, 10, 12, 30]))
        if x < .8:
            return num(r.choice(BIG))
        return num(r.randrange(2 ** 64) >> r.choice([0, 1, 16, 32, 40, 56]))

    def string(self, more=""):
        r = self.r
        if r.random() < .4:
            return text(r.choice(TEXTS))
        alphabet = r.choice(["ab", "ab ", "aX\n", "a\r\n", " \t", "\x00\xff\x80A"]) + more
        return text("".join(r.choice(alphabet) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))))

    def arg(self, t):
        r = self.r
        c = t[0]
        if c == "i":
            return self.number()
        if c == "m":
            g = r.randrange(1, 2 ** r.choice([1, 8, 20]))
            return num(g * r.randrange(2 ** r.choice([2, 10, 40])))
        if c == "c":
            return num(r.choice([0, 0, 1, 1, 2, 3, 4, 5, 9, 40]))
        if c == "n":
            return num(r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 9, 255, 256, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 2]))
        if c == "k":
            return num(r.choice([97, 98, 88, 10, 13, 32, 0, 255, 256, 256 + 97, 2 ** 32 + 97, 2 ** 64 - 1, 128]))
        if c == "b":
            return ["b", r.random() < .5]
        if c in "s":
            return self.string()
        if c == "t":
            return text("".join(r.choice(["a", "b", "\n", "\r", "\r\n", " "]) for _ in range(r.randrange(8))))
        if c == "w":
            return text("".join(r.choice("  a\tb") for _ in range(r.randrange(8))))
        if c == "p":
            x = r.random()
            if x < .6:
                return text(str(r.choice(BIG + [0, 1, 7, 10, 99, 2 ** 64, 2 ** 64 + 1, 10 ** 25, r.randrange(2 ** 64)])))
            if x < .75:
                return text(r.choice(["", "00", "0012", "+1", "-1", " 1", "1 ", "1a", "a", "/", ":", "0x1", "1_0", "\xff", "12:", "1/2"]))
            return text("".join(r.choice("0123456789/:") for _ in range(r.randrange(5))))
        if c == "r":
            return num(r.choice([0, 1, 2, 3, 5, 8]))
        if c == "f":
            return ["f", r.choice(KINDS[t[1:]])]
        if c == "[":
            n = r.choice([0, 1, 2, 3, 4, 5])
            xs = [self.arg(t[1:]) for _ in range(n)]
            if xs and r.random() < .4:
                xs = [r.choice(xs) for _ in xs]
            return ["l", xs]
        if c == "?":
            return ["o", [self.same(t[1:])] if r.random() < .75 else []]
        if c == "!":
            return ["r", "Ok", self.same(t[1:])] if r.random() < .65 else ["r", "Err", self.arg("i")]
        raise ValueError(t)

    def same(self, t):
        # functions of one program all have the same type
        return ["f", self.r.choice(["inc", "dbl", "id"])] if t == "fi>" else self.arg(t)

    def args(self, sig):
        if sig == "S":
            s = self.string()
            return [s, text("".join(map(chr, s[1]))) if self.r.random() < .5 else
                    ["s", s[1][:-1] + [(s[1][-1] + 1) % 256]] if s[1] else s]
        if sig == "P":
            s = self.string()
            k = self.r.randrange(len(s[1]) + 1)
            return [["s", s[1][:k]], s]
        if sig == "R":
            a = self.r.choice([2 ** 64 - 3, 2 ** 32 - 2, 2 ** 63 - 2, 10, 2 ** 64 - 1])
            b = a + self.r.randrange(0, 5)
            return [num(a), num(b if b < 2 ** 64 else 2 ** 64 - 1)]
        return [self.arg(t) for t in sig.split()]

    def array(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 15, 16, 17, 63, 64, 65, 70])
        x = r.random()
        big = False
        if x < .05:
            start = ["empty"]
            n = 0
        elif x < .45:
            start = ["fromList", ["l", [num(r.choice([i, i * 3])) for i in range(n)]]]
        elif x < .85:
            start = ["new", num(n), num(7)]
        else:
            n = r.choice(BIG + [1000, 257, 4 ** 31 + 1])
            big = n > 300
            start = ["new", num(n), num(7)]

        def index():
            x = r.random()
            if x < .6 and n:
                return num(r.randrange(n))
            return num(r.choice([0, n, n + 1 if n < 2 ** 64 - 1 else 0, max(n - 1, 0), n // 4, n // 2, n // 4 * 3, 2 ** 64 - 1, 2 ** 63]))
        ops = []
        for _ in range(r.choice([0, 1, 2, 4, 8])):
            x = r.random()
            if x < .5:
                ops.append(["set", index(), num(r.randrange(100, 200))])
            elif x < .8:
                ops.append(["mapIdx", index(), ["f", r.choice(["inc", "dbl"])]])
            else:
                ops.append(["truncate", index()])
        x = r.random()
        look = ["length"] if x < .2 else ["get", index()] if x < .6 or big else ["toList"]
        return [start, ["ops", ops], look]


def lit(v):
    """An atom of tic source with the value."""
    k = v[0]
    if k == "i":
        return "".join(map(str, v[1]))
    if k == "b":
        return "true" if v[1] else "false"
    if k == "s":
        bs = v[1]
        if all(32 <= b < 127 and b not in (34, 92) for b in bs):
            return '"%s"' % "".join(map(chr, bs))
        out = []
        for b in bs:
            out.append('str.fromChar %d' % b)
        e = out[-1]
        for o in reversed(out[:-1]):
            e = "str.concat (%s) (%s)" % (o, e)
        return "(%s)" % e
    if k == "l":
        e = "Nil"
        for x in reversed(v[1]):
            e = "(Cons %s %s)" % (lit(x), e)
        return e
    if k == "o":
        return "(Some %s)" % lit(v[1][0]) if v[1] else "None"
    if k == "r":
        return "(%s %s)" % (v[1], lit(v[2]))
    if k == "f":
        return "(%s)" % FUNS[v[1]]
    raise ValueError(v)


def call(f, args):
    if f != "array":
        m, f = f.split(".")
        return " ".join([{"int": "ints", "string": "str"}.get(m, m) + "." + f] + [lit(a) for a in args])
    start, ops, look = args
    e = {"empty": "array.empty"}.get(start[0]) or "array.%s %s" % (start[0], " ".join(lit(a) for a in start[1:]))
    for o in ops[1]:
        e = "array.%s %s (%s)" % (o[0], " ".join(lit(a) for a in o[1:]), e)
    return "array.%s (%s)" % (" ".join([look[0]] + [lit(a) for a in look[1:]]), e)


def small_calls():
    """All calls with small arguments of some functions."""
    out = []
    ints = [num(n) for n in (0, 1, 2, 3, 6, 2 ** 64 - 1)]
    for f in ("int.min", "int.max", "int.gcd", "int.lcm", "int.bitAnd", "int.bitOr", "int.bitXor"):
        out += [(f, [a, b]) for a in ints for b in ints]
    lists = [["l", [num(x) for x in l]] for n in range(4) for l in itertools.product((0, 1, 2), repeat=n)]
    for f in ("list.sum", "list.product", "list.head", "list.tail", "list.reverse", "list.max", "list.min", "list.length"):
        out += [(f, [l]) for l in lists]
    for less in KINDS["ii>b"]:
        for f in ("list.maxBy", "list.minBy", "list.sortBy"):
            out += [(f, [["f", less], l]) for l in lists if len(l[1]) > 1]
    few = [l for l in lists if len(l[1]) < 3]
    for f in ("list.skip", "list.take"):
        out += [(f, [num(n), l]) for n in range(5) for l in lists if l in few or n > 1]
    out += [("list.concat", [a, b]) for a in few for b in few]
    out += [("list.range", [num(a), num(b)]) for a in range(5) for b in range(5)]
    bools = [["l", [["b", x] for x in l]] for n in range(4) for l in itertools.product((True, False), repeat=n)]
    out += [(f, [l]) for f in ("list.any", "list.all") for l in bools]
    texts = [text("".join(s)) for n in range(4) for s in itertools.product("a\n\r", repeat=n)]
    out += [("string.lines", [t]) for t in texts]
    out += [("string.split", [num(10), t]) for t in texts]
    texts = [text("".join(s)) for n in range(5) for s in itertools.product("a ", repeat=n)]
    out += [("string.trim", [t]) for t in texts]
    out += [(f, [a, b]) for f in ("string.equal", "string.startsWith") for a in texts[:15] for b in texts[:15]]
    out += [("string.substring", [num(a), num(b), text("abc")]) for a in range(5) for b in range(5)]
    # the pairs for which Euclid's algorithm takes the longest
    fib = [1, 2]
    while fib[-1] + fib[-2] < 2 ** 64:
        fib.append(fib[-1] + fib[-2])
    for k in (20, 30, 44, 45, 46, 60, 61, 62, 63, 64, 70, 80, len(fib) - 3, len(fib) - 2, len(fib) - 1):
        out += [("int.gcd", [num(fib[k]), num(fib[k - 1])]), ("int.gcd", [num(fib[k - 1]), num(fib[k])])]
    tens = [num(10 ** k + d) for k in range(20) for d in (-1, 0)]
    out += [("int.toString", [n]) for n in tens]
    out += [("int.parse", [text("".join(map(str, n[1])))]) for n in tens]
    twos = [num(2 ** k) for k in range(64)]
    out += [("int.bit" + f, [n, num(2 ** 64 - 1)]) for f in ("And", "Xor", "Or") for n in twos]
    return out


def observe(calls, runners, per=40):
    """Texts of results of calls."""
    cases = []
    for i in range(0, len(calls), per):
        src = PRELUDE + "".join("export let r%d = %s;\n" % (k, call(*c)) for k, c in enumerate(calls[i:i + per]))
        cases.append({"id": len(cases), "mods": [{"path": "main", "src": src}], "std": True, "want": ["front", "eval"], "runners": runners})
    return cases, core.run_harness(cases)


def run(prop):
    core.build()
    quick = core.TIER != "thorough"
    rep = core.Report(prop)
    rng = random.Random("%s-%s" % (core.SEED, prop))
    states = transitions = checked = batches = 0
    t = core.Tlc("StdLaws", WORD, invariants=("Laws",)).run()
    states += t.states
    transitions += t.transitions
    per_fn = collections.Counter()
    samples = []
    deadline = time.time() + 600
    while batches < 1 if quick else batches == 0 or time.time() < deadline:
        batches += 1
        a = Args(rng)
        calls = small_calls() if batches == 1 else []
        for f, sigs in sorted(SIG.items()):
            for sig in sigs:
                calls += [(f, a.args(sig)) for _ in range(12 if sig else 1)]
        calls += [("array", a.array()) for _ in range(200)]
        rng.shuffle(calls)
        # all programs with one evaluator, some of them with all
        jobs = [(calls, [["lambda", False], ["bytecode", True]])]
        rows = []
        for cs, runners in jobs:
            per = 40
            cases, obs = observe(cs, runners, per)
            for c, o in zip(cases, obs):
                mine = cs[c["id"] * per:(c["id"] + 1) * per]
                if "eval" not in o:
                    rep.violation("program is not compiled: %s" % str(o.get("crash") or o.get("module")
                                                                      or [d for d in o["diags"] if d[2] == "error"][:2])[:300], c["mods"])
                    continue
                for runner, opt, res in o["eval"]:
                    if [runner, opt] not in runners:
                        continue
                    lines = {}
                    if isinstance(res, list) and res[0] == "ok":
                        lines = dict(l.split(" = ", 1) for l in res[1].split("\n") if " = " in l)
                    for k, (f, args) in enumerate(mine):
                        rows.append({"id": len(rows), "f": f, "args": args, "obs": lines.get("r%d" % k, "no result: %s" % str(res)[:100])})
        path = os.path.join(core.BUILD, "calls-%d.json" % os.getpid())
        core.write_ndjson(path, rows)
        try:
            t = core.Tlc("StdCases", dict(WORD, CasesFile='"%s"' % path)).run()
        finally:
            os.remove(path)
        for m in t.messages("MISMATCH"):
            r = rows[m["id"]]
            rep.violation("%s gives %s, not %s" % (call(r["f"], r["args"])[:300], m["got"][:200], " or ".join(sorted(m["expected"]))[:200]),
                          {"program": PRELUDE + "export let r = %s;" % call(r["f"], r["args"])})
        states += t.states
        transitions += t.transitions
        checked += len(rows)
        per_fn.update(r["f"] for r in rows)
        if not samples:
            samples = [[call(r["f"], r["args"]), r["obs"]] for r in rows[:3]]
        if rep.violations:
            break
    return rep.finish("model_checking", {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": checked,
        "functions": len(per_fn),
        "samples": samples,
    })


WORD = {"Base": 256, "Limbs": 8, "SmallLimbs": 3}
