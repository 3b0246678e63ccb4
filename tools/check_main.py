"""Check of main functions: bytes in, bytes out (C18)."""
import collections
import concurrent.futures
import os
import random
import shutil
import subprocess
import tempfile
import time

import check_std
import core
import evals
import front
import gen_opt

CONCAT = "str.concat"
LIB = """import string from "std/string";
export let main : string -> string = \\s -> "not this one";
export let shout : string -> string = \\s -> string.concat s "!";
export let twice : (string -> string) -> string -> string = \\f -> \\s -> f (f s);
"""
HEADER = check_std.PRELUDE.replace("import array from \"std/array\";\n", "")
SIMPLE = [
    # (definitions before, main)
    ("", "\\s -> s"),
    ("", "\\s -> \"\""),
    ("", "\\s -> str.concat s s"),
    ("", "str.concat \"> \""),
    ("", "str.substring 1 3"),
    ("", "str.trim"),
    ("", "let k = \"k\"; \\s -> str.concat k s"),
    ("", "(if str.length \"ab\" == 2 then \\s -> str.concat s \"x\" else \\s -> s)"),
    ("", "\\s -> ints.toString (str.length s)"),
    ("", "\\s -> str.fromChar (str.charAt 0 s)"),
    ("", "\\s -> str.substring (str.length s / 2) (str.length s) s"),
    ("", "\\s -> if str.length s > 2 then ?toolong else s"),
    ("", "\\s -> if str.equal s \"go\" then \"gone\" else ?other"),
    ("", "\\s -> list.join \"|\" (str.lines s)"),
    ("", "\\s -> list.join \"\" (list.reverse (list.map str.fromChar (str.chars s)))"),
    ("", "\\s -> list.join \",\" (list.map (\\l -> ints.toString (str.length l)) (str.split 10 s))"),
    ("", "\\s -> str.foldChars \"\" (\\acc -> \\c -> str.concat acc (str.fromChar (c + 1))) s"),
    ("", "\\s -> str.foldChars \"\" (\\acc -> \\c -> str.concat (ints.toString c) acc) s"),
    ("", "\\s -> match ints.parse s with | Some n -> ints.toString (n * n) | None -> \"none\" end"),
    ("let f : int -> string -> string = \\n -> \\s -> str.concat (ints.toString n) s;\n", "f 7"),
    ("type W = W (string -> string);\nlet w = W (\\s -> str.concat \"w\" s);\n", "match w with W f -> f end"),
    ("let id : a -> a = \\x -> x;\n", "id"),
    ("let id : a -> a = \\x -> x;\n", "id id id"),
    ("let bad : int = ?early;\n", "\\s -> s"),
    ("let f : string -> string = \\s -> ?late;\n", "\\s -> if str.length s == 0 then f s else s"),
    ("import lib(main, shout) from \"lib.tic\";\n", "shout"),
    ("import lib(twice) from \"lib.tic\";\n", "twice lib.shout"),
    ("import lib from \"lib.tic\";\n", "lib.main"),
    ("export let main : string -> string = \\s -> \"first\";\n", "\\s -> str.concat (main s) s"),
    ("export let main : int = 3;\n", "\\s -> ints.toString main"),
    ("let main : string = \"hidden\";\n", "\\s -> str.concat main s"),
]
# whole programs, without a usable main for different reasons
ODD = [
    "let main : string -> string = \\s -> s;\nexport let other : string -> string = main;\n",
    "export let mains : string -> string = \\s -> s;\nexport let main2 : string -> string = \\s -> s;\n",
    "export let main : string = \"s\";\n",
    "export let main : int -> string = \\s -> \"s\";\n",
    "export let main : string -> int = \\s -> 3;\n",
    "export let main : a -> a = \\s -> s;\n",
    "export let main : a -> string = \\s -> \"x\";\n",
    "export let main : string -> string -> string = \\s -> \\t -> s;\n",
    "export let main : (string -> string) -> string = \\f -> f \"\";\n",
    "export type T = main string;\n",
    "type T = A string;\nexport let main : T -> string = \\t -> match t with A s -> s end;\n",
    "type T = A;\nexport let main : string -> T = \\s -> A;\n",
    "export let main : string -> string = \\s -> s;\nexport let main : string -> int = \\s -> 1;\n",
    "export let main : string -> string = \\s -> s;\nlet main : string -> int = \\s -> 1;\n",
    "export let main = \\s -> s;\n",
    "let main : string -> string = \\s -> s;\nexport let x : string = main \"x\";\n",
    "import lib(main) from \"lib.tic\";\n",
    "import lib from \"lib.tic\";\nexport let f : string -> string = lib.main;\n",
    "import main from \"lib.tic\";\nexport let f : string -> string = main.main;\n",
    "type List = Nil | Cons int rec;\nexport let main : string -> string = let f = \\fold x -> match x with | Nil -> \"n\" | Cons n r -> r end;"
    " \\s -> f (Cons 1 Nil);\n",
    "export let main = \\s -> ?nothing;\n",
    "export let main : string -> string = ?nothing;\n",
    "export let main : string -> string = \\s -> t;\n",
    "",
]
INPUTS = [b"", b"a", b"\n", b"\r\n", b"hello", b"go", b"12", b"a\nb\n", b"a\r\nb", b"\x00", b"\xff\xfe", b"\x80abc\x00\xff",
          "\u00e9\u4e2d\U0001f600".encode(), b"\xef\xbb\xbfbom", b"a b\tc", b"\"\\", b"18446744073709551616"]


def some_input(r):
    x = r.random()
    if x < .5:
        return r.choice(INPUTS)
    if x < .9:
        return bytes(r.choice([0, 10, 13, 32, 48, 57, 97, 98, 127, 128, 195, 255]) for _ in range(r.randrange(12)))
    return bytes(r.randrange(256) for _ in range(r.choice([1, 40, 130, 257])))


def simple(r):
    before, main = r.choice(SIMPLE)
    t = "" if main in ("id", "id id id") and r.random() < 0 else " : string -> string"
    src = HEADER + before + "export let main%s = %s;\n" % (t, main)
    if r.random() < .3:
        src += "export let after : int = 1;\n"
    if r.random() < .2:
        src += r.choice(["let main : int = 5;\n", "let x = main \"x\";\n", "export let again : string -> string = main;\n"])
    return src


def odd(r):
    return HEADER + r.choice(ODD)


GLUE = """let concat : string -> string -> string = str.concat;
let len : string -> int = \\s -> str.length s;
let sub : int -> int -> string -> string = str.substring;
let at : int -> string -> int = \\i -> \\s -> str.charAt i s;
let chr : int -> string = str.fromChar;
let num : int -> string = ints.toString;
let eq : string -> string -> bool = str.equal;
"""


def made(r):
    g = gen_opt.OptGen(r, holes=r.choice([0, 0, .02]), size=30)
    src = g.program(r.choice([1, 2, 3]))
    a = gen_opt.arrow
    g.top += [("concat", a("S", "S", "S")), ("len", a("S", "I")), ("sub", a("I", "I", "S", "S")), ("at", a("I", "S", "I")),
              ("chr", a("I", "S")), ("num", a("I", "S")), ("eq", a("S", "S", "B"))] * 2
    g.fuel = 50
    scope = [("s", "S")]
    body = g.ex("S", 5, scope)
    for _ in range(r.choice([1, 2])):
        body = "concat (%s) (%s)" % (body, r.choice(["s", "sub 0 3 s", "num (len s)", g.ex("S", 4, scope)]))
    # constructors of the standard modules are not used here
    return ("import ints from \"std/int\";\nimport str from \"std/string\";\n" + src + GLUE
            + "export let main : string -> string = \\s -> %s;\n" % body)


def modules(src):
    return ([("lib.tic", LIB)] if "lib.tic" in src else []) + [("main.tic", src)]


def cli(mods, runner, optimize, data, how, scratch):
    """(exit status, bytes written) or a description of what the command line did."""
    d = tempfile.mkdtemp(dir=scratch)
    try:
        for m in mods:
            with open(os.path.join(d, m["path"]), "wb") as f:
                f.write(bytes(m["b"]))
        inp, out = os.path.join(d, "in"), os.path.join(d, "out")
        with open(inp, "wb") as f:
            f.write(data)
        cmd = [core.binary("ticc"), os.path.join(d, "main.tic"), "--run", "-" if how == "stdin" else inp, "-o", out, "--stack", "300"]
        if runner != "bytecode" or len(data) % 2:
            cmd += ["--runner", runner]
        if optimize:
            cmd.append("--optimize")
        with open(inp, "rb") as f:
            p = subprocess.run(cmd, stdin=f if how == "stdin" else subprocess.DEVNULL, capture_output=True,
                               timeout=core.patience(120))
        if p.returncode == 0:
            if not os.path.exists(out):
                return ["exit 0 without output"]
            with open(out, "rb") as f:
                return ["ok", list(f.read())]
        err = p.stderr.decode("utf-8", "replace")
        if os.path.exists(out):
            return ["output in spite of an error", err[-200:]]
        if p.returncode != 1 or "panicked" in err:
            return ["exit %s" % p.returncode, err[-300:]]
        last = err.strip().splitlines()[-1] if err.strip() else ""
        return ["error", last]
    except subprocess.TimeoutExpired:
        core.HANGS.append("ticc")
        return ["timeout"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def agrees(want, got, optimize):
    """Is an observation of the harness what is wanted?"""
    if isinstance(got, list) and got == want:
        return True
    return optimize and want[0] == "trap" and isinstance(got, list) and got and got[0] in ("ok", "trap")


def cli_agrees(want, got, optimize):
    if want[0] == "ok":
        return got == want
    if want[0] in ("nomain", "badmain"):
        return got[0] == "error" and "main" in got[1]
    if want[0] == "errors":
        return got[0] == "error"
    if want[0] == "trap":
        return got[0] == "error" and want[1] in got[1] or optimize and got[0] in ("error", "ok")
    return True


def run(prop):
    core.build(bins=True)
    rep = core.Report(prop)
    rng = random.Random("%s-%s" % (core.SEED, prop))
    quick = core.TIER != "thorough"
    deadline = time.time() + 600
    scratch = tempfile.mkdtemp(prefix="main-", dir=core.BUILD)
    states = transitions = traces = clis = batches = 0
    kinds = collections.Counter()
    distinct = set()
    samples = []
    pool = concurrent.futures.ThreadPoolExecutor(8)
    try:
        while batches < 1 if quick else batches == 0 or time.time() < deadline:
            batches += 1
            srcs = [made(rng) for _ in range(30)] + [simple(rng) for _ in range(20)]
            if batches == 1:
                srcs += [HEADER + b + "export let main : string -> string = %s;\n" % m for b, m in SIMPLE]
                srcs += [HEADER + s for s in ODD]
            else:
                srcs += [odd(rng) for _ in range(6)]
            cases = []
            for src in srcs:
                c = front.make_case(len(cases), modules(src), True, want=())
                c["inputs"] = [list(some_input(rng)) for _ in range(5)] + [[]]
                c["fuel"] = 200
                cases.append(c)
            big = front.make_case(len(cases), modules(HEADER + "export let main : string -> string = str.concat \"+\";\n"), True, want=())
            big["inputs"] = [[rng.randrange(256) for _ in range(n)] for n in (4095, 4096, 8193)]
            big["fuel"] = 50
            cases.append(big)
            outs, t = evals.mains(cases)
            states += t.states
            transitions += t.transitions
            obs = front.observe(cases)
            jobs = []
            for c, o in zip(cases, obs):
                text = {m["path"]: bytes(m["b"]).decode("utf-8") for m in c["mods"]}
                want = outs[c["id"]]
                wants = [want.get(i + 1) or want[0] for i in range(len(c["inputs"]))]
                kinds.update(w[0] for w in wants)
                distinct.update(map(str, wants))
                if front.crashes({}, o) and wants[0][0] != "errors":
                    rep.violation("crash: %s" % (front.crashes({}, o)[0],), text)
                    continue
                traces += 1
                by_input = {}
                for i, data in enumerate(c["inputs"]):
                    by_input[str(data)] = wants[i]
                if wants[0][0] != "errors":
                    for data, runner, optimize, got in o.get("main", ()):
                        w = by_input[str(data)]
                        if w[0] not in ("fuel",) and not agrees(w, got, optimize):
                            rep.violation("main of %s (optimised: %s) on %s gives %s, and it means %s" % (
                                runner, optimize, bytes(data), str(got)[:200], str(w)[:200]), text)
                for _ in range(1 if quick else 2):
                    i = rng.randrange(len(c["inputs"]))
                    runner = rng.choice(["lambda", "bytecode", "treewalk"])
                    optimize = rng.random() < .5
                    how = rng.choice(["file", "file", "stdin"])
                    if wants[i][0] != "fuel":
                        jobs.append((text, wants[i], runner, optimize, bytes(c["inputs"][i]), how, pool.submit(
                            cli, c["mods"], runner, optimize, bytes(c["inputs"][i]), how, scratch)))
            for text, w, runner, optimize, data, how, job in jobs:
                got = job.result()
                clis += 1
                if not cli_agrees(w, got, optimize):
                    rep.violation("ticc --run (%s, optimised: %s, input from %s) on %s: %s, and it means %s" % (
                        runner, optimize, how, data, str(got)[:300], str(w)[:200]), text)
            if not samples:
                samples = [[bytes(c["mods"][-1]["b"]).decode("utf-8")[-200:], str(outs[c["id"]])[:200]] for c in cases[:3]]
            if rep.violations:
                break
    finally:
        pool.shutdown()
        shutil.rmtree(scratch, ignore_errors=True)
    return rep.finish("model_checking", {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "command_line_runs": clis,
        "outcomes": dict(kinds),
        "distinct_outcomes": len(distinct),
        "samples": samples,
    })
