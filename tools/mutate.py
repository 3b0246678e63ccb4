#!/usr/bin/env python3
"""mutate.py corpus | run WORKERS FILE...: how much of the code the generated
programs are sensitive to.  Makes small changes of the code in scratch copies and
looks whether observations of a fixed corpus differ from those of the unchanged
code (which agree with the specification).  Not a check, a tool to find what
families of programs do not reach."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import check_eval
import check_front
import evals
import front

D = "/tmp/mut"


def corpus():
    core.build()
    rng = random.Random(5)
    cases = []
    for p, c in sorted(check_front.CHECKS.items()):
        for f in c.families:
            for _ in range(12):
                mods = f(rng)
                cases.append(front.make_case(len(cases), mods, front.uses_std(mods), want=["front", "query"],
                                             comp=front.comp_positions(rng, mods[-1][1], 12),
                                             first=front.comp_positions(rng, mods[-1][1], 4)))
    fs = []
    for p, c in sorted(check_eval.CHECKS.items()):
        fs += c.families
    ev = []
    for f in set(fs):
        for _ in range(60):
            mods = f(rng)
            ev.append(front.make_case(len(cases) + len(ev), mods, front.uses_std(mods), want=["eval", "ir"]))
    for mods in check_eval.all_tables(rng, True):
        ev.append(front.make_case(len(cases) + len(ev), mods, False, want=["eval", "ir"]))
    outs, t = evals.outcomes(ev)
    ev = [c for c in ev if outs[c["id"]][0] in ("ok", "trap")]
    rng.shuffle(cases)
    rng.shuffle(ev)
    k = 150
    first = cases[:k] + ev[:k]
    rest = cases[k:] + ev[k:]
    allc = first + rest
    for i, c in enumerate(allc):
        c["id"] = i
    obs = front.observe(allc)
    json.dump({"first": first, "rest": rest, "obs": obs}, open(D + "/corpus.json", "w"))
    print(len(first), len(rest))


OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.rev\(\)", ""), (r"\bif (?!let)([^{]*) \{", r"if !(\1) {"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
    (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r" \+ ", " - "), (r" - ", " + "), (r"\+= 1", "+= 2"), (r"\bNone\b", None), (r"\bsome\b", None),
    (r"\.skip\(1\)", ""), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\bcontinue;", ""), (r"\bbreak;", ""),
    (r"\bstart\b", "end"), (r"\bend\b", "start"),
]
STMT = re.compile(r"^\s+(self\.|[a-z_]+\.|[a-z_]+\(|[a-z_]+ = |\*[a-z_]+ = |[a-z_.]+ [+|-]= ).*;$")


def mutants(path):
    lines = open(os.path.join(core.REPO, path)).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        if re.match(r"\s*(//|#\[|use |assert|debug_assert|mod |pub mod |fn |pub fn |pub\(crate\) fn )", l) or "panic!" in l \
                or "unreachable!" in l:
            if "mod tests" in l:
                break
            continue
        for rx, new in OPS:
            if new is None:
                continue
            for m in re.finditer(rx, l):
                n = l[:m.start()] + m.expand(new) + l[m.end():]
                if n != l:
                    out.append((path, i, l, n))
        if STMT.match(l):
            out.append((path, i, l, re.match(r"\s*", l).group() + "{}"))
    return out


class Worker(threading.Thread):
    def __init__(self, k, queue, lock, results, data):
        super().__init__()
        self.k, self.queue, self.lock, self.results, self.data = k, queue, lock, results, data
        self.dir = "%s/w%d" % (D, k)

    def prepare(self):
        os.makedirs(self.dir, exist_ok=True)
        repo = self.dir + "/repo"
        if os.path.isdir(repo):
            shutil.rmtree(repo)
        os.makedirs(repo)
        subprocess.check_call("git -C %s archive HEAD | tar x -C %s" % (core.REPO, repo), shell=True)
        h = self.dir + "/harness"
        os.makedirs(h, exist_ok=True)
        for f in ("Cargo.toml", "Cargo.lock"):
            s = open(os.path.join(core.VERIF, "harness", f)).read().replace("/repo/", repo + "/")
            s = s.replace("debug = false", "debug = false\nopt-level = 1\nincremental = true")
            open(h + "/" + f, "w").write(s)
        shutil.copytree(os.path.join(core.VERIF, "harness", "src"), h + "/src", dirs_exist_ok=True)
        self.env = dict(core.cargo_env(), CARGO_TARGET_DIR=self.dir + "/target", CARGO_BUILD_JOBS="1")
        return self.build()

    def build(self):
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=self.dir + "/harness", env=self.env, capture_output=True)
        return p.returncode == 0

    def observe(self, cases):
        text = ""
        for c in cases:
            d = {k: v for k, v in c.items() if k != "mods"}
            d["mods"] = [{"path": m["path"], "src": bytes(m["b"]).decode("utf-8")} for m in c["mods"]]
            text += json.dumps(d) + "\n"
        ps = []
        try:
            p = subprocess.run("ulimit -v 8000000; exec %s/target/debug/harness" % self.dir, shell=True, input=text.encode(),
                               capture_output=True, timeout=40)
        except subprocess.TimeoutExpired:
            return None
        out = []
        for l in p.stdout.decode().split("\n"):
            try:
                o = json.loads(l)
            except ValueError:
                continue
            out.append(o)
        return out

    def differs(self, path):
        cs = self.data["first"] + self.data["rest"]
        ev = "codegen" in path or "ticc-eval" in path or "ticc-core" in path
        groups = [[c for c in cs if c["std"] == std and ("eval" in c["want"]) == e] for e in (ev, not ev) for std in (False, True)]
        for g in groups:
            for i in range(0, len(g), 80):
                d = self.differ(g[i:i + 80])
                if d:
                    return d
        return None

    def differ(self, cases):
        out = self.observe(cases)
        if out is None:
            return "timeout"
        by = {o["id"]: o for o in out}
        for c in cases:
            a, b = self.data["obs"][c["id"]], by.get(c["id"])
            if b is None:
                return "crash"
            if a != b:
                return ",".join(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        return None

    def run(self):
        if not self.prepare():
            print("worker %d cannot build" % self.k)
            return
        d = self.differs("")
        if d:
            print("worker %d: unchanged code differs: %s" % (self.k, d))
            return
        while True:
            with self.lock:
                if not self.queue:
                    return
                path, i, old, new = self.queue.pop()
            f = self.dir + "/repo/" + path
            orig = open(f).read()
            lines = orig.split("\n")
            lines[i] = new
            open(f, "w").write("\n".join(lines))
            if not self.build():
                res = "build"
            else:
                res = self.differs(path) or "SURVIVED"
            open(f, "w").write(orig)
            with self.lock:
                with open(D + "/results.txt", "a") as r:
                    r.write("%s\t%s:%d\t%s\t%s\n" % (res, path, i + 1, old.strip(), new.strip()))


def main():
    if sys.argv[1] == "corpus":
        return corpus()
    data = json.load(open(D + "/corpus.json"))
    queue = []
    for p in sys.argv[3:]:
        queue += mutants(p)
    random.Random(1).shuffle(queue)
    print(len(queue), "mutants")
    lock = threading.Lock()
    ws = [Worker(k, queue, lock, None, data) for k in range(int(sys.argv[2]))]
    for w in ws:
        w.start()
    for w in ws:
        w.join()


if __name__ == "__main__":
    main()
