"""Check of memory (C03): values survive collections, garbage does not stay."""
import collections
import concurrent.futures
import os
import random
import re
import shutil
import subprocess
import tempfile
import time

import core
import front

REGS, FUNS, CAP, MAXTEXT, WIDE = 4, 2, 40, 300, 66
RS = ["r%d" % (i + 1) for i in range(REGS)]
GS = ["g%d" % (i + 1) for i in range(FUNS)]


def prelude(cap, maxtext):
    fill = " ".join(str(i + 1) for i in range(WIDE))
    fvars = " ".join("f%d" % (i + 1) for i in range(WIDE))
    return """import ints from "std/int";
import str from "std/string";
type V = I int | S string | P int rec rec | T int rec rec rec | W int rec %s rec;
type M = M %s %s;
let size : V -> int = \\v -> match v with
  | I n -> 1 | S s -> 1 | P n a b -> n | T n a b c -> n | W n a %s b -> n end;
let text : V -> string = \\v -> match v with
  | S s -> s | I n -> "" | P n a b -> "" | T n a b c -> "" | W n a %s b -> "" end;
let rep : int -> int -> V = \\n -> \\c -> S (ints.iterate n (\\s -> str.concat s (str.fromChar c)) "");
let cat : V -> V -> V = \\a -> \\b -> S (str.substring 0 %d (str.concat (text a) (text b)));
let sub : int -> int -> V -> V = \\i -> \\n -> \\v -> S (str.substring i n (text v));
let len : V -> V = \\v -> I (str.length (text v));
let pair : V -> V -> V = \\a -> \\b -> let n = 1 + size a + size b; if n > %d then I n else P n a b;
let triple : V -> V -> V -> V = \\a -> \\b -> \\c -> let n = 1 + size a + size b + size c; if n > %d then I n else T n a b c;
let wide : V -> V -> V = \\a -> \\b -> let n = 1 + size a + size b; if n > %d then I n else W n a %s b;
let first : V -> V = \\v -> match v with
  | I n -> I 1 | S s -> I 1 | P n a b -> a | T n a b c -> a | W n a %s b -> a end;
let final : V -> V = \\v -> match v with
  | I n -> I 2 | S s -> I 2 | P n a b -> b | T n a b c -> c | W n a %s b -> b end;
""" % (" ".join(["int"] * WIDE), " ".join(["V"] * REGS), " ".join(["(int -> V)"] * FUNS), fvars, fvars, maxtext, cap, cap, cap,
       fill, fvars, fvars)


def function_of(values):
    e = values[-1]
    for i in range(len(values) - 1, 0, -1):
        e = "if n == %d then %s else %s" % (i, values[i - 1], e)
    return "\\n -> " + e


def operation(op):
    def r(i):
        return RS[op[i] - 1]
    k = op[0]
    if k == "function":
        return GS[op[1] - 1], function_of(RS)
    e = {
        "int": lambda: "I %d" % op[2],
        "copy": lambda: r(2),
        "text": lambda: "rep %d %d" % (op[2], op[3]),
        "cat": lambda: "cat %s %s" % (r(2), r(3)),
        "sub": lambda: "sub %d %d %s" % (op[3], op[4], r(2)),
        "len": lambda: "len %s" % r(2),
        "pair": lambda: "pair %s %s" % (r(2), r(3)),
        "triple": lambda: "triple %s %s %s" % (r(2), r(3), r(4)),
        "wide": lambda: "wide %s %s" % (r(2), r(3)),
        "first": lambda: "first %s" % r(2),
        "final": lambda: "final %s" % r(2),
        "call": lambda: "%s %d" % (GS[op[2] - 1], op[3]),
    }[k]()
    return r(1), e


def program(prog, cap=CAP, maxtext=MAXTEXT):
    out = [prelude(cap, maxtext)]
    state = " ".join(RS + GS)
    out.append("let m0 : M = M %s %s;\n" % (" ".join(["(I 0)"] * REGS), " ".join(["(\\n -> I 0)"] * FUNS)))
    for i, seg in enumerate(prog):
        body = "".join("    let %s = %s;\n" % operation(op) for op in seg["ops"])
        out.append("let s%d : M -> M = \\m -> match m with | M %s ->\n%s    M %s end;\n" % (i + 1, state, body, state))
        out.append("let m%d : M = %s;\n" % (i + 1, "s%d m%d" % (i + 1, i) if seg["n"] == 1 else
                                            "ints.iterate %d s%d m%d" % (seg["n"], i + 1, i)))
    n = 0
    for v in RS + ["%s %d" % (g, i + 1) for g in GS for i in range(REGS)]:
        n += 1
        out.append("export let out%d : V = match m%d with | M %s -> %s end;\n" % (n, len(prog), state, v))
    return "".join(out)


def printed(outs):
    return "".join("out%d = %s\n" % (i + 1, o) for i, o in enumerate(outs))


# -- programs that keep much, or go on for long

LIST = """import ints from "std/int";
import str from "std/string";
type List = Nil | Cons int rec;
type Texts = None | Text string rec;
type Tree = Leaf | Node rec int rec;
type At = At int List;
let build : int -> List = \\n -> match ints.iterate n (\\s -> match s with | At i l -> At (i + 1) (Cons i l) end) (At 0 Nil) with | At i l -> l end;
let sum : List -> int = \\fold l -> match l with | Nil -> 0 | Cons x r -> x + r end;
let sumTo : List -> int -> int = \\fold l -> \\acc -> match l with | Nil -> acc | Cons x r -> r (acc + x) end;
let reverseTo : List -> List -> List = \\fold l -> \\acc -> match l with | Nil -> acc | Cons x r -> r (Cons x acc) end;
let head : List -> int = \\l -> match l with | Nil -> 0 | Cons x r -> x end;
let compose : int -> int -> int = \\n -> ints.iterate n (\\f -> \\x -> f (x + 1)) (\\x -> x);
let texts : int -> Texts = \\n -> ints.iterate n (\\l -> Text (ints.toString 1234567) l) None;
let total : Texts -> int = \\fold l -> match l with | None -> 0 | Text s r -> str.length s + r end;
let tree : int -> Tree = \\n -> ints.iterate n (\\t -> Node t 1 t) Leaf;
let leaves : Tree -> int = \\fold t -> match t with | Leaf -> 1 | Node a x b -> a + b end;
let spine : int -> Tree = \\n -> ints.iterate n (\\t -> Node t 1 Leaf) Leaf;
let weight : Tree -> int = \\fold t -> match t with | Leaf -> 0 | Node a x b -> a + x + b end;
let churn : int -> int = \\n -> ints.iterate n (\\x -> head (Cons (x + 1) (Cons 0 Nil))) 0;
"""
# name, expression of n, words that live at most, for each unit of n, largest n of the quick check
SHAPES = [
    ("triangle", "sumTo (build N) 0", 30, 60000),
    ("triangle", "sum (build N)", 40, 60000),
    ("triangle", "sumTo (reverseTo (build N) Nil) 0", 30, 60000),
    ("last", "head (build N)", 20, 60000),
    ("zero", "head (reverseTo (build N) Nil)", 30, 60000),
    ("same", "compose N 0", 30, 40000),
    ("same", "weight (spine N)", 60, 40000),
    ("same", "ints.iterate N (\\x -> x + 1) 0", 0, 400000),
    ("same", "churn N", 0, 200000),
    ("seven", "total (texts N)", 40, 40000),
    ("power", "leaves (tree N)", 64, 14),
    ("length", "str.length (ints.iterate N (\\s -> str.concat s \"a\") \"\")", 4, 4000),
    ("power", "str.length (ints.iterate N (\\s -> str.concat s s) \"a\")", 0, 19),
    ("power", "str.length (str.substring 0 99999999 (ints.iterate N (\\s -> str.concat s (str.substring 0 99999999 s)) \"a\"))", 0, 17),
    ("double", "(\\s -> str.length (str.concat s s)) LITERAL", 2, 3000),
    ("double", "(\\s -> str.length (str.concat s s)) (str.concat LITERAL \"\")", 2, 700),
    ("double", "(\\s -> str.length (str.concat s (str.substring 0 99999 s))) LITERAL", 2, 3000),
    ("same", "(\\s -> str.length (str.substring 0 99999 s)) LITERAL", 2, 3000),
]


def shape_cases(rng, quick):
    out = []
    for i, (law, e, live, top) in enumerate(SHAPES):
        few = [rng.randrange(2 if top < 20 else 500)]
        if "LITERAL" in e:
            few = [rng.randrange(500) for _ in range(4)]
        for n in [rng.randrange(top // 2, top)] + few:
            out.append((law, n if quick or top < 5000 else n * 3, e, live))
    return out


# -- loops that carry their results along

LOOPS = LIST + """type Maybe = No | Yes int | Both int int;
let maybe : int -> Maybe = \\x -> if x % 3 == 0 then No else if x % 3 == 1 then Yes x else Both x 1;
"""


def loop(r):
    """A fold of a list that goes on with a call in tail position."""
    accs = ["a", "b", "c"][:r.choice([1, 1, 2, 3])]
    fresh = iter(range(1000))

    def num(names, depth=2):
        if depth == 0 or r.random() < .3:
            return r.choice(names) if r.random() < .8 else str(r.randrange(5))
        return "(%s %s %s)" % (num(names, depth - 1), r.choice("+-*+"), num(names, depth - 1))

    def body(names, depth):
        x = r.random()
        if depth == 0 or x < .15:
            return "r %s" % " ".join(num(names) for _ in accs)
        if x < .4:
            return "if %s %s %s then %s else %s" % (num(names), r.choice(["<", "==", ">="]), num(names), body(names, depth - 1),
                                                   body(names, depth - 1))
        if x < .75:
            # used more than once
            v = "v%d" % next(fresh)
            return "let %s = %s; if %s %% 2 == 0 then %s else %s" % (
                v, num(names), v, body(names + [v, v], depth - 1), body(names + [v], depth - 1))
        u, v, w = ("u%d" % next(fresh) for _ in range(3))
        return "match maybe %s with | No -> %s | Yes %s -> %s | Both %s %s -> %s end" % (
            num(names), body(names, depth - 1), u, body(names + [u], depth - 1), v, w, body(names + [v, w], depth - 1))

    ty = " -> ".join(["List"] + ["int"] * len(accs) + ["int"])
    return "let run : %s = \\fold l -> %s match l with | Nil -> %s | Cons x r -> %s end;\n" % (
        ty, " ".join("\\%s -> " % a for a in accs), num(accs), body(accs + ["x"], r.choice([1, 2, 3]))), len(accs)


def shape_answers(cases):
    """What the specification says about them (module HeapShapes)."""
    path = os.path.join(core.BUILD, "shapes-%d.json" % os.getpid())
    core.write_ndjson(path, [{"law": c[0], "n": c[1]} for c in cases])
    try:
        t = core.Tlc("HeapShapes", {"CasesFile": '"%s"' % path, "Base": 256, "Limbs": 8, "SmallLimbs": 3}).run()
    finally:
        os.remove(path)
    return {m["id"]: m["out"] for m in t.messages("SHAPE")}, t


def command(src, runner, optimize, scratch, stack=None, limit=60):
    """[what was printed or went wrong, peak of memory in KB]"""
    d = tempfile.mkdtemp(dir=scratch)
    try:
        path = os.path.join(d, "main.tic")
        with open(path, "w") as f:
            f.write(src)
        cmd = [core.binary("ticc"), path, "--eval", "--runner", runner]
        if optimize:
            cmd.append("--optimize")
        if stack:
            cmd += ["--stack", str(stack)]
        with open(os.path.join(d, "out"), "w+") as out, open(os.path.join(d, "err"), "w+") as err:
            p = subprocess.Popen(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL)
            end = time.time() + core.patience(limit)
            while True:
                pid, status, usage = os.wait4(p.pid, os.WNOHANG)
                if pid:
                    break
                if time.time() > end:
                    p.kill()
                    os.wait4(p.pid, 0)
                    p.returncode = -9
                    core.HANGS.append("ticc")
                    return ["timeout", 0]
                time.sleep(.01)
            p.returncode = os.waitstatus_to_exitcode(status)
            out.seek(0)
            err.seek(0)
            if p.returncode != 0:
                return ["exit status %s: %s" % (p.returncode, err.read()[-300:]), usage.ru_maxrss]
            return [out.read().rstrip("\n") + "\n", usage.ru_maxrss]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model(rep, quick):
    """The collector of the specification keeps all values."""
    states = transitions = 0
    runs = [dict(Regs=2, Funs=1, Cap=7, MaxText=3, Wide=1, Header=1, Initial=6, TextSizes="{1, 3}", Steps=3)]
    if not quick:
        runs.append(dict(runs[0], Steps=4))
        runs.append(dict(runs[0], Steps=4, Header=3, Initial=9))
    inv = ("SameValues", "Upwards", "Disjoint", "Inside", "Proportional", "HalfEmpty")
    for c in runs:
        t = core.Tlc("Heap", c, invariants=inv).run()
        states += t.states
        transitions += t.transitions
    # long behaviours, at random
    c = dict(Regs=3, Funs=2, Cap=12, MaxText=9, Wide=1, Header=3, Initial=32, TextSizes="{1, 4, 9}", Steps=40)
    t = core.Tlc("Heap", c, invariants=inv, simulate="num=%d" % (40 if quick else 1500), depth=42, workers=1,
                 args=("-seed", str(core.SEED))).run(check=False)
    if "is violated" in t.text or "states checked" not in t.text:
        raise core.ToolError("simulation of Heap failed: %s" % t.errors())
    return states, transitions


# largest size of a structure, longest string, sizes of strings, numbers of repetitions, number of segments
KINDS = [
    (40, 300, "{0, 1, 2, 7, 8, 9, 30, 100}", "{1, 2, 5, 40, 150}", 5),
    (6, 5000, "{1, 3, 8, 400, 900}", "{1, 2, 3, 4}", 4),
    (400, 20, "{0, 1, 2, 7}", "{1, 2, 3, 20}", 5),
]


def behaviours(seed, num, kind):
    """Behaviours of HeapRuns: [(prog, expected outputs)]"""
    cap, maxtext, sizes, times, segments = kind
    t = core.Tlc("HeapRuns", dict(Regs=REGS, Funs=FUNS, Cap=cap, MaxText=maxtext, Wide=WIDE, Segments=segments, Longest=10,
                                  Times=times, Sizes=sizes),
                 simulate="num=%d" % num, depth=8, workers=1, args=("-seed", str(seed))).run(check=False)
    runs = [(m["prog"], m["out"]) for m in t.messages("RUN")]
    if len(runs) != num:
        raise core.ToolError("HeapRuns gave %d of %d behaviours: %s" % (len(runs), num, t.errors()))
    return runs


def run(prop):
    core.build(bins=True)
    rep = core.Report(prop)
    rng = random.Random("%s-%s" % (core.SEED, prop))
    quick = core.TIER != "thorough"
    deadline = time.time() + 500
    scratch = tempfile.mkdtemp(prefix="heap-", dir=core.BUILD)
    pool = concurrent.futures.ThreadPoolExecutor(6)
    states, transitions = model(rep, quick)
    traces = batches = memory = shapes = 0
    peaks = []
    samples = []
    sizes = collections.Counter()
    try:
        # long programs, in the background
        cases = shape_cases(rng, quick)
        want, t = shape_answers(cases)
        states += t.states
        transitions += t.transitions
        base = command(LIST + "export let x : int = 0;\n", "bytecode", False, scratch)
        if base[0] != "x = 0\n":
            rep.violation("evaluation of definitions alone gives %s" % base[0][:300], LIST)
        jobs = []
        for i, (law, n, e, live) in enumerate(cases):
            src = LIST + "export let x : int = %s;\n" % re.sub(r"\bN\b", "(%d)" % n, e.replace("LITERAL", '"%s"' % ("a" * n)))
            for optimize in (False, True):
                # what lives, at most, counted in words of 8 bytes, four times
                limit = base[1] + 12000 + n * live * 8 * 4 // 1024
                jobs.append((src, "x = %s\n" % want[i + 1], limit, optimize,
                             pool.submit(command, src, "bytecode", optimize, scratch, 2)))
        # loops of folds: no more memory than for what they go over
        n = 200000
        alone = pool.submit(command, LOOPS + "export let x : int = (\\l -> head l + churn 200000 + head l) (build %d);\n" % n, "bytecode", True, scratch)
        loops = []
        for _ in range(24 if quick else 200):
            text, k = loop(rng)
            few, many = (LOOPS + text + "export let x : int = run (build %d) %s;\n" % (m, " ".join("1" * k)) for m in (3000, n))
            loops.append((few, many, pool.submit(command, few, "bytecode", True, scratch),
                          pool.submit(command, few, "lambda", True, scratch, 200),
                          pool.submit(command, many, "bytecode", True, scratch, 2)))
        while batches < 1 if quick else batches == 0 or time.time() < deadline:
            batches += 1
            runs = []
            for k, kind in enumerate(KINDS):
                some = behaviours(core.SEED * 1000 + batches * 10 + k, (150, 40, 60)[k], kind)
                runs += [(prog, outs, kind) for prog, outs in some]
            cases = []
            for prog, outs, kind in runs:
                c = front.make_case(len(cases), [("main", program(prog, kind[0], kind[1]))], True, want=("eval",))
                cases.append(c)
                sizes.update(["%d bytes" % (10 ** len(str(len(printed(outs)))))])
            for c, o, (prog, outs, _) in zip(cases, front.observe(cases), runs):
                expected = ["ok", printed(outs)]
                src = bytes(c["mods"][0]["b"]).decode()
                if "eval" not in o:
                    rep.violation("not evaluated: %s" % str(o)[:300], src)
                    continue
                traces += 1
                for runner, optimize, got in o["eval"]:
                    # what other evaluators give is decided by C01 and C02
                    if runner == "bytecode" and got != expected:
                        rep.violation("bytecode (optimised: %s) gives %s, expected %s" % (optimize, str(got)[:300],
                                                                                         str(expected)[:300]), src)
            # the same for very long: compared with an evaluator that never collects
            long_jobs = []
            for prog, _, kind in rng.sample(runs, 12 if quick else 24):
                busy = [s for s in prog if s["n"] > 1 and any(op[0] in ("text", "cat", "pair", "function", "triple", "wide")
                                                              for op in s["ops"])]
                if not busy:
                    continue
                one = rng.choice(busy)
                few = program([dict(s, n=s["n"] if s is not one else 50) for s in prog], kind[0], kind[1])
                src = program([dict(s, n=s["n"] if s is not one else 3000) for s in prog], kind[0], kind[1])
                optimize = rng.random() < .5
                long_jobs.append((src, optimize, pool.submit(command, few, "bytecode", optimize, scratch),
                                  pool.submit(command, src, "bytecode", optimize, scratch, 4),
                                  pool.submit(command, src, "lambda", optimize, scratch, 600)))
            for src, optimize, few, got, other in long_jobs:
                few, got, other = few.result(), got.result(), other.result()
                memory += 1
                if got[0] != other[0]:
                    rep.violation("bytecode gives %s, and an evaluator without collections %s" % (got[0][:300], other[0][:300]), src)
                elif got[1] > few[1] + 4000:
                    rep.violation("memory grows with time: %d KB after 50 rounds, %d KB after 3000" % (few[1], got[1]), src)
                peaks.append(got[1])
            if not samples:
                samples = [[str(prog)[:300], printed(outs)[:200]] for prog, outs, _ in runs[:3]]
            if rep.violations:
                break
        alone = alone.result()
        for few, many, a, b, c in loops:
            if len(rep.violations) > 20:
                break
            a, b, c = a.result(), b.result(), c.result()
            if a[0] != b[0] or not a[0].startswith("x = "):
                rep.violation("bytecode gives %s, and the lambda evaluator %s" % (a[0][:300], b[0][:300]), few)
            elif not c[0].startswith("x = "):
                rep.violation("a loop of %d rounds ends with %s" % (n, c[0][:300]), many)
            elif c[1] > alone[1] + 6000:
                rep.violation("a loop of %d rounds needs %d KB, what it goes over %d KB" % (n, c[1], alone[1]), many)
            memory += 1
        for src, expected, limit, optimize, job in jobs:
            if len(rep.violations) > 20:
                break
            got = job.result()
            shapes += 1
            if got[0] != expected:
                rep.violation("bytecode (optimised: %s) gives %s, expected %s" % (optimize, got[0][:300], expected), src)
            elif got[1] > limit:
                rep.violation("%d KB of memory, and %d should be enough (optimised: %s)" % (got[1], limit, optimize), src)
    finally:
        pool.shutdown(cancel_futures=True)
        shutil.rmtree(scratch, ignore_errors=True)
    return rep.finish("model_checking", {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "long_runs_with_memory_measured": memory,
        "large_values": shapes,
        "largest_peak_kb": max(peaks or [0]),
        "output_sizes": dict(sizes),
        "samples": samples,
    })
