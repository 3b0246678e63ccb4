"""Building and running the code under test, running TLC, reporting."""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# checks are about /repo; planted bugs may be tried elsewhere
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TARGET = os.path.join(BUILD, "target")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = env.get("RUSTFLAGS", "") + " -Awarnings"
    return env


def build(harness=True, bins=False):
    """Builds the harness and binaries of the repository from its working tree."""
    os.makedirs(BUILD, exist_ok=True)
    if harness:
        d = os.path.join(BUILD, "harness")
        os.makedirs(d, exist_ok=True)
        for f in ("Cargo.toml", "Cargo.lock"):
            with open(os.path.join(VERIF, "harness", f)) as src, open(os.path.join(d, f), "w") as dst:
                dst.write(src.read().replace('"/repo/', '"%s/' % REPO))
        if os.path.islink(os.path.join(d, "src")):
            os.unlink(os.path.join(d, "src"))
        os.symlink(os.path.join(VERIF, "harness", "src"), os.path.join(d, "src"))
        cargo(["build", "--offline", "-q"], d)
    if bins:
        cargo(["build", "--offline", "-q", "-p", "ticc", "-p", "ticc-lsp"], REPO)


def cargo(args, cwd):
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=cargo_env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), p.stderr[-3000:]))


def binary(name):
    return os.path.join(TARGET, "debug", name)


def latin(b):
    return b.decode("latin-1")


def module(path, src):
    b = src.encode("utf-8")
    return {"path": path, "b": list(b), "t": latin(b)}


def std_modules():
    """Standard modules of the repository, each after the ones it imports."""
    d = os.path.join(REPO, "ticc", "src", "std")
    src = {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".tic"):
            with open(os.path.join(d, f), encoding="utf-8") as fh:
                src["std/" + f[:-4]] = fh.read()
    out = {}
    active = set()

    def add(m):
        if m in src and m not in out and m not in active:
            active.add(m)
            for i in re.findall(r'from\s+"(std/[a-z]+)"', src[m]):
                add(i)
            out[m] = src[m]
    for m in sorted(src):
        add(m)
    return [module(p, s) for p, s in out.items()]


HANGS = []


def patience(limit):
    """How long to wait for a program: not long any more when several did not end."""
    return limit if len(HANGS) < 3 else min(limit, 3)


def bounded(gigabytes):
    """For processes whose memory has a limit."""
    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (gigabytes << 30, gigabytes << 30))
    return limit


def run_harness(cases, jobs=8, limit=120):
    """Observations for cases (dicts with an id), in order.  A case that kills
    the process is observed as {"crash": ...}."""
    exe = binary("harness")
    chunks = [cases[i::jobs] for i in range(jobs)]
    results = {}
    running = []
    for c in chunks:
        if c:
            running.append((c, start_harness(exe, c)))
    for c, (p, out) in running:
        while c:
            try:
                p.wait(timeout=patience(limit))
                status = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                status = "timeout"
                HANGS.append("harness")
            out.seek(0)
            n = 0
            for line in out.read().splitlines():
                try:
                    o = json.loads(line)
                except ValueError:
                    break
                results[o["id"]] = o
                n += 1
            out.close()
            if n >= len(c):
                break
            results[c[n]["id"]] = {"id": c[n]["id"], "crash": "exit status %s" % status}
            c = c[n + 1:]
            if len(HANGS) > 2:
                # enough was seen, and there is not time for all
                results.update({x["id"]: {"id": x["id"], "crash": "not run, others hang"} for x in c})
                break
            if not c:
                break
            p, out = start_harness(exe, c)
    return [results[c["id"]] for c in cases]


def start_harness(exe, cases):
    inp = tempfile.TemporaryFile("w+", encoding="utf-8")
    for c in cases:
        inp.write(json.dumps(c) + "\n")
    inp.seek(0)
    out = tempfile.TemporaryFile("w+", encoding="utf-8")
    p = subprocess.Popen([exe], stdin=inp, stdout=out, stderr=subprocess.DEVNULL, preexec_fn=bounded(8))
    inp.close()
    return p, out


def write_ndjson(path, rows):
    with open(path, "w", encoding="utf-8") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")


class Tlc:
    """One run of TLC."""

    def __init__(self, module, constants=None, spec=None, invariants=(), properties=(), extra="", workers=8, xmx="8g",
                 xss="512m", simulate=None, depth=None, deadlock=False, limit=800, postcondition=None, view=None,
                 constraint=None, args=()):
        self.dir = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
        cfg = []
        cfg.append(spec or "SPECIFICATION Spec")
        for k, v in (constants or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, v))
        for i in invariants:
            cfg.append("INVARIANT %s" % i)
        for i in properties:
            cfg.append("PROPERTY %s" % i)
        if postcondition:
            cfg.append("POSTCONDITION %s" % postcondition)
        if view:
            cfg.append("VIEW %s" % view)
        if constraint:
            cfg.append("CONSTRAINT %s" % constraint)
        cfg.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        cfg.append(extra)
        path = os.path.join(self.dir, "M.cfg")
        with open(path, "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss" + xss, "-Xmx" + xmx, "-cp", TLA, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(self.dir, "meta"), "-noGenerateSpecTE", "-config", path]
        if simulate:
            cmd += ["-simulate", simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += list(args)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        self.cmd = cmd
        self.limit = limit
        self.out = os.path.join(self.dir, "out")

    def run(self, check=True):
        t = time.time()
        with open(self.out, "w") as f:
            p = subprocess.Popen(self.cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT)
            try:
                p.wait(timeout=self.limit)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                self.cleanup()
                raise ToolError("TLC did not finish in %s s" % self.limit)
        self.wall = time.time() - t
        with open(self.out, encoding="utf-8", errors="replace") as f:
            self.text = f.read()
        self.status = p.returncode
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.text)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.printed = []
        for line in self.text.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    self.printed.append(json.loads(line))
                except ValueError:
                    pass
        self.cleanup()
        self.finished = "Model checking completed. No error has been found." in self.text or (
            self.status == 0)
        if check and not self.finished:
            raise ToolError("TLC failed (status %s):\n%s" % (self.status, self.errors()))
        return self

    def errors(self):
        lines = self.text.splitlines()
        for i, l in enumerate(lines):
            if "rror" in l:
                return "\n".join(lines[i:i + 40])[:4000]
        return self.text[-2000:]

    def messages(self, tag):
        return [json.loads(m[len(tag) + 1:]) for m in self.printed if m.startswith(tag + " ")]

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    return out


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.start = time.time()
        self.violations = []

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self, level, coverage, assumptions=()):
        prop = self.prop
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        known = dict(known_findings(prop))
        fresh = []
        for what, replay in self.violations:
            if what in known:
                print("KNOWN-FINDING: property=%s %s" % (prop, known[what]))
            else:
                fresh.append((what, replay))
        lines = []
        if fresh:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, (what, replay) in enumerate(fresh[:5]):
                path = os.path.join(d, "%s-%d.json" % (prop, i))
                with open(path, "w") as f:
                    json.dump({"property": prop, "what": what, "replay": replay}, f, indent=1)
                lines.append("VIOLATION property=%s replay=%s" % (prop, path))
                print("  %s" % str(what)[:500])
        evidence = {
            "property": prop,
            "tier": TIER,
            "seed": SEED,
            "level": level,
            "coverage": coverage,
            "wall_s": round(time.time() - self.start, 1),
            "violations": [str(w)[:300] for w, _ in fresh[:20]],
        }
        if assumptions:
            evidence["assumptions"] = list(assumptions)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        for l in lines:
            print(l)
        if not fresh:
            print("OK property=%s %s" % (prop, json.dumps(
                {k: v for k, v in coverage.items() if isinstance(v, (int, float))})))
        return 1 if fresh else 0
