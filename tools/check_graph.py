"""Check of loading of modules by the command line compiler (C13)."""
import collections
import concurrent.futures
import os
import random
import re
import shutil
import subprocess
import tempfile
import time

import check_front
import core
import evals

INTERESTING = re.compile(r"^(error|warning)(?:\[\w*\])?: (.*)\n\s*--> (.*):(\d+):(\d+)$", re.M)


class Graph:
    """A directory with modules."""

    def __init__(self, r):
        self.r = r
        self.fs = []
        self.places = {}
        self.dirs = [()]
        self.links = {}

    def build(self):
        r = self.r
        n = r.choice([1, 2, 3, 3, 4, 4, 5, 6])
        for _ in range(r.choice([0, 1, 2])):
            d = r.choice(self.dirs) + (r.choice(["d", "e", "std", "a.tic"]),)
            if d not in self.dirs:
                self.dirs.append(d)
        for k in range(n):
            d = r.choice(self.dirs)
            name = r.choice(["m%d" % k, "m%d.tic" % k, "m%d.tic" % k, "x y%d" % k])
            if k and r.random() < .05 and ("std",) in self.dirs:
                d, name = ("std",), "option"
            if d + (name,) in self.places.values():
                name = "m%d" % k
            self.places[k] = d + (name,)
        links = []
        for _ in range(r.choice([0, 0, 1, 2])):
            d = r.choice(self.dirs)
            p = d + ("l%d" % len(links),)
            k = r.randrange(n)
            if r.random() < .7:
                to = [x for x in self.relative(d, self.places[k]) if x]
                links.append((p, to, ("file", k)))
            else:
                x = r.choice(self.dirs)
                links.append((p, [y for y in self.relative(d, x) if y] or ["."], ("dir", x)))
        self.linked = links
        edges = {k: [] for k in range(n)}
        order = list(range(n))
        for i in range(n):
            for j in range(i + 1, n):
                if r.random() < (.6 if n < 4 else .4):
                    edges[order[i]].append(order[j])
        shape = r.random()
        if shape < .35:
            a, b = r.randrange(n), r.randrange(n)
            edges[a].insert(r.randrange(len(edges[a]) + 1), b)
        if shape < .1:
            a = r.randrange(n)
            edges[a].append(a)
        for k in range(n):
            r.shuffle(edges[k])
            if edges[k] and r.random() < .25:
                edges[k].append(r.choice(edges[k]))
        self.edges = edges
        self.wrong = {}
        for k in range(n):
            if r.random() < .12:
                self.wrong[k] = r.choice(["type", "syntax", "name", "hidden", "warning", "warning", "mixed", "notexported", "match"])
        self.strange = {}
        for k in range(n):
            if r.random() < .06:
                self.strange[k] = r.choice(["none", "dir", "binary", "notdir", "empty", "slash", "loop"])
        self.n = n
        self.root = 0 if r.random() < .8 else r.randrange(n)
        return self

    def relative(self, d, p):
        """A path from a directory to a place."""
        r = self.r
        i = 0
        while i < len(d) and i < len(p) - 1 and d[i] == p[i] and r.random() < .85:
            i += 1
        out = [".."] * (len(d) - i) + list(p[i:])
        while r.random() < .12:
            out.insert(r.randrange(len(out)) if out else 0, r.choice([".", ".", ""]))
        if r.random() < .1:
            x = r.choice(self.dirs)
            if x[:len(d)] == d and len(x) > len(d):
                # there and back
                out = list(x[len(d):]) + [".."] * (len(x) - len(d)) + out
        return out

    def path_to(self, opened, k):
        """Path by which a module (opened by some path) imports another one."""
        r = self.r
        d = self.places[opened][:-1]
        for p, to, (kind, x) in self.linked:
            if kind == "file" and x == k and r.random() < .5:
                return self.relative(d, p)
            if kind == "dir" and self.places[k][:len(x)] == x and r.random() < .3:
                return self.relative(d, p + self.places[k][len(x):])
        return self.relative(d, self.places[k])

    def source(self, k):
        r = self.r
        n = k
        out = []
        known = {}      # module number -> how to say (type, make, get), of what is imported
        aliases = []
        hiddenc = r.random() < .2
        body = ["export type T%d = %sC%d int | D%d;" % (n, "" if hiddenc else "export ", n, n),
                "export let v%d : T%d = C%d %d;" % (n, n, n, r.randrange(100)),
                "export let make%d : int -> T%d = \\x -> C%d (x + %d);" % (n, n, n, n),
                "export let get%d : T%d -> int = \\t -> match t with | C%d x -> x | D%d -> 0 end;" % (n, n, n, n)]
        if r.random() < .5:
            body += ["let hid%d = 3;" % n, "export let shown%d = hid%d + 1;" % (n, n)]
        imports = []
        sums = []
        for x, j in enumerate(self.edges[k]):
            s = "/".join(self.path_to(k, j))
            form = r.random()
            alias = "a%d_%d" % (j, x)
            if form < .55:
                imports.append('import %s from "%s";' % (alias, s))
                say = lambda w, a=alias: a + "." + w
            elif form < .75:
                names = ["T%d" % j, "get%d" % j]
                if r.random() < .7:
                    names.append("v%d" % j)
                imports.append('import %s(%s) from "%s";' % (alias, ", ".join(names), s))
                say = lambda w, a=alias, ns=tuple(names): w if w in ns else a + "." + w
            elif form < .9:
                names = ["T%d" % j, "get%d" % j, "v%d" % j, "make%d" % j]
                imports.append('import (%s) from "%s";' % (", ".join(names), s))
                say = lambda w: w
                alias = None
            else:
                imports.append('import () from "%s";' % s if r.random() < .5 else 'import %s() from "%s";' % (alias, s))
                continue
            aliases.append((alias, j, say))
            sums.append("%s %s" % (say("get%d" % j), say("v%d" % j)))
            body.append("export let w%d_%d_%d : %s = %s %d;" % (k, j, x, say("T%d" % j), say("make%d" % j), r.randrange(9)))
            body.append("export let g%d_%d_%d : %s -> int = \\t -> %s t + 1;" % (k, j, x, say("T%d" % j), say("get%d" % j)))
            known.setdefault(j, []).append((say("get%d" % j), say("v%d" % j), say))
        # values of types that come by different ways
        for j, ways in known.items():
            if len(ways) > 1:
                sums.append("%s %s" % (ways[0][0], ways[1][1]))
        for a, j, say in aliases:
            if not a:
                continue
            for b, j2, say2 in aliases:
                if not b:
                    continue
                for x, t in enumerate(self.edges[j]):
                    for x2, t2 in enumerate(self.edges[j2]):
                        if t == t2 and r.random() < .5:
                            sums.append("%s.g%d_%d_%d %s.w%d_%d_%d" % (a, j, t, x, b, j2, t2, x2))
                        elif r.random() < .02:
                            sums.append("%s.g%d_%d_%d %s.w%d_%d_%d" % (a, j, t, x, b, j2, t2, x2))
                if r.random() < .3 and j in self.edges[j2]:
                    x2 = self.edges[j2].index(j)
                    sums.append("%s.get%d %s.w%d_%d_%d" % (a, j, b, j2, j, x2))
        r.shuffle(sums)
        body.append("export let sum%d : int = %s;" % (n, " + ".join(["(%s)" % s for s in sums[:8]] + [str(n)])))
        if r.random() < .15:
            imports.append('import option(Option, Some, None) from "std/option";')
            body.append("export let o%d : Option int = Some sum%d;" % (n, n))
        w = self.wrong.get(k)
        other = self.edges[k][0] if self.edges[k] else k
        if w == "type":
            body.append("export let bad%d : int = \"s\";" % n)
        if w in ("syntax", "mixed"):
            body.insert(r.randrange(len(body)), "export let bad%d : = 3" % n)
        if w == "name":
            body.append("export let bad%d = nothing%d;" % (n, n))
        if w == "hidden" and aliases:
            a, j, say = r.choice(aliases)
            body.append("export let bad%d = %s;" % (n, r.choice([say("hid%d" % j), say("C%d 1" % j), say("sum%d" % j), say("D%d" % j)])))
        if w == "notexported":
            imports.append('import (%s) from "%s";' % (r.choice(["hid%d", "shown%d", "C%d", "D%d", "nope%d", "T%d"]) % other,
                                                       "/".join(self.path_to(k, other))))
        if w == "match":
            body.append("export let bad%d : T%d -> int = \\t -> match t with | D%d -> 1 end;" % (n, n, n))
        if w in ("warning", "mixed"):
            body.append("let unused%d = 3;" % n)
        for i in range(len(imports)):
            # imports may be anywhere, as long as what they bring is used later
            if r.random() < .1:
                body.insert(1, imports[i])
                imports[i] = ""
        return "\n".join([i for i in imports if i] + body) + r.choice(["", "\n"])

    def case(self, i):
        r = self.r
        split = {}
        fs = [{"p": list(d), "k": "dir", "to": []} for d in self.dirs if d]
        for p, to, _ in self.linked:
            fs.append({"p": list(p), "k": "link", "to": to})
        for k in range(self.n):
            p = self.places[k]
            strange = self.strange.get(k) if k != self.root else None
            src = self.source(k)
            if strange == "none":
                continue
            if strange == "dir":
                fs.append({"p": list(p), "k": "dir", "to": []})
            elif strange == "loop":
                fs.append({"p": list(p), "k": "link", "to": [p[-1]]})
            elif strange == "binary":
                fs.append({"p": list(p), "k": "binary", "to": []})
            else:
                if strange in ("notdir", "empty", "slash"):
                    extra = {"notdir": "/more", "empty": "", "slash": "/"}[strange]
                    src = re.sub(r'from "([^"]*)"', lambda m: m.group(0) if m.group(1).startswith("std/") else 'from "%s%s"' % (
                        "" if strange == "empty" else m.group(1), extra), src, count=1)
                b = src.encode()
                fs.append({"p": list(p), "k": "file", "b": list(b), "t": core.latin(b), "to": []})
            for t in re.findall(r'from "([^"]*)"', src):
                split[t] = t.split("/")
        root = list(self.places[self.root])
        for p, to, (kind, x) in self.linked:
            if kind == "file" and x == self.root and r.random() < .3:
                root = list(p)
        std = any('"std/' in f.get("t", "") for f in fs)
        return {"id": i, "fs": fs, "root": root, "split": split, "std": std, "fuel": 60}


def specified(cases):
    path = os.path.join(core.BUILD, "graphs-%d.json" % os.getpid())
    std = os.path.join(core.BUILD, "std-%d.json" % os.getpid())
    core.write_ndjson(path, cases)
    core.write_ndjson(std, core.std_modules() if any(c["std"] for c in cases) else [])
    try:
        t = core.Tlc("GraphCases", {"CasesFile": '"%s"' % path, "StdFile": '"%s"' % std, **evals.WORD},
                     invariants=("Chain", "Decided"), view="Progress").run()
    finally:
        os.remove(path)
        os.remove(std)
    return {m["id"]: m for m in t.messages("GRAPH")}, t


def materialise(c, d):
    for f in c["fs"]:
        p = os.path.join(d, *f["p"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f["k"] == "dir":
            os.makedirs(p, exist_ok=True)
        elif f["k"] == "link":
            os.symlink("/".join(f["to"]), p)
        elif f["k"] == "binary":
            with open(p, "wb") as h:
                h.write(b"export let v = 1; # \xff\xfe\n")
        else:
            with open(p, "wb") as h:
                h.write(bytes(f["b"]))


def command(c, mode, absolute, scratch, limit=60):
    top = tempfile.mkdtemp(dir=scratch)
    # paths may lead out of the directory, to where nothing is
    d = os.path.join(top, "w", "x", "y", "z")
    os.makedirs(d)
    try:
        materialise(c, d)
        root = "/".join(c["root"])
        cmd = [core.binary("ticc"), os.path.join(d, root) if absolute else root]
        out = os.path.join(d, "out.cir")
        cmd += {"eval": ["--eval"], "check": ["--check"], "ir": ["--emit-ir", "-o", out], "run": ["--run", "/dev/null"],
                "none": [], "lambda": ["--eval", "--runner", "lambda"], "optimize": ["--eval", "--optimize"]}[mode]
        try:
            p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=core.patience(limit))
        except subprocess.TimeoutExpired:
            core.HANGS.append("ticc")
            return {"status": "timeout"}
        err = re.sub(r"\x1b\[[0-9;]*m", "", p.stderr.decode("utf-8", "replace"))
        diags = []
        for sv, m, path, line, col in INTERESTING.findall(err):
            if path.startswith(d + "/"):
                path = path[len(d) + 1:]
            diags.append([shown(path.split("/")), int(line), int(col), sv, m])
        return {"status": p.returncode, "out": p.stdout.decode("utf-8", "replace"), "diags": diags, "err": err,
                "ir": os.path.exists(out)}
    finally:
        shutil.rmtree(top, ignore_errors=True)


def shown(path):
    """A path as text, however it is written."""
    return "/".join(x for x in path if x not in ("", "."))


def located(src, diags, path):
    out = []
    for s, e, sv, m in diags:
        before = src[:s]
        line = before.count(b"\n") + 1
        col = len(before[before.rfind(b"\n") + 1:].decode("utf-8", "replace")) + 1
        out.append([path, line, col, sv, m])
    return out


def key(d):
    cls = check_front.diag_class([0, 0, d[3], d[4]])
    if d[4].startswith("failed to read module"):
        cls = "unreadable"
    return (d[0], d[1], d[2], d[3], d[4] if cls in ("warning", "cover") or "import" in d[4] else cls)


def judge(c, want, got, mode, text):
    """What is wrong with what the command line did, or None."""
    if got["status"] == "timeout":
        return "does not end"
    if got["status"] not in (0, 1) or "panicked" in got["err"]:
        return "exit status %s: %s" % (got["status"], got["err"][-200:])
    e = sorted(map(key, located(text, want["diags"], shown(want["path"]))))
    g = sorted(map(key, got["diags"]))
    if e != g:
        return "diagnostics: expected %s, got %s" % ([x for x in e if x not in g][:3] or e[:3], [x for x in g if x not in e][:3] or g[:3])
    failed = any(d[2] == "error" for d in want["diags"])
    if mode == "run":
        # there is no main in these
        return None if got["status"] == 1 else "exit status %s" % got["status"]
    if (got["status"] != 0) != failed:
        return "exit status %s" % got["status"]
    if mode == "ir" and got["ir"] == failed:
        return "intermediate code is %s" % ("written" if got["ir"] else "not written")
    if mode in ("eval", "lambda", "optimize"):
        v = want["value"]
        if failed:
            return "output in spite of errors" if got["out"] else None
        if v[0] == "ok" and got["out"] != v[1] + "\n":
            return "value: expected %s, got %s" % (v[1][:300], got["out"][:300])
    return None


def model(quick):
    n = 3
    t = core.Tlc("LoaderModel", {"Files": "{1, 2, 3}", "Root": 1, "Missing": 0, "MaxImports": 2 if quick else 3},
                 spec="SPECIFICATION MSpec", invariants=("Decided", "Once", "Chain", "NoReload", "AtFault"),
                 properties=("Terminates",) if quick else ()).run()
    return t.states, t.transitions


def run(prop):
    core.build(bins=True)
    rep = core.Report(prop)
    rng = random.Random("%s-%s" % (core.SEED, prop))
    quick = core.TIER != "thorough"
    deadline = time.time() + 560
    states, transitions = model(quick)
    scratch = tempfile.mkdtemp(prefix="graph-", dir=core.BUILD)
    pool = concurrent.futures.ThreadPoolExecutor(8)
    kinds = collections.Counter()
    traces = batches = modules = 0
    samples = []
    try:
        while batches < 2 if quick else batches == 0 or time.time() < deadline:
            batches += 1
            cases = [Graph(rng).build().case(i) for i in range(400)]
            want, t = specified(cases)
            states += t.states
            transitions += t.transitions
            jobs = []
            for c in cases:
                for mode in ["eval", rng.choice(["check", "ir", "none", "lambda", "optimize", "run"])]:
                    jobs.append((c, mode, pool.submit(command, c, mode, rng.random() < .3, scratch)))
            for c, mode, job in jobs:
                got = job.result()
                w = want[c["id"]]
                f = [f for f in c["fs"] if f["k"] == "file" and reported(c, w) == f["p"]]
                bad = judge(c, w, got, mode, bytes(f[0]["b"]))
                traces += 1
                modules += w["modules"]
                kinds["accepted" if w["ok"] else "rejected"] += 1
                for d in w["diags"]:
                    kinds["error" if d[2] == "error" else "warning"] += 1
                    if "import cycle" in d[3] or "failed to read" in d[3]:
                        kinds[d[3]] += 1
                if bad:
                    rep.violation("%s: %s" % (mode, bad), {"root": c["root"], "files": [
                        ["/".join(f["p"]), f["k"], f.get("t") or "/".join(f["to"])] for f in c["fs"]]})
            if not samples:
                samples = [[["/".join(f["p"]), f["k"], f.get("t", "")[:200]] for f in c["fs"]] for c in cases[:2]]
            if rep.violations:
                break
    finally:
        pool.shutdown()
        shutil.rmtree(scratch, ignore_errors=True)
    return rep.finish("model_checking", {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "modules_loaded": modules,
        "kinds": dict(kinds),
        "samples": samples,
    })


def reported(c, w):
    """Place of the reported file."""
    entries = {tuple(f["p"]): f for f in c["fs"]}

    def walk(d, path, links):
        for i, h in enumerate(path):
            if h in ("", "."):
                continue
            if h == "..":
                d = d[:-1]
                continue
            e = entries.get(d + (h,))
            if e is None:
                return None
            if e["k"] == "link":
                return walk(d, e["to"] + path[i + 1:], links - 1) if links else None
            d = d + (h,)
        return d
    return list(walk((), w["path"], 40))
