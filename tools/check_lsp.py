"""Checks of the language server (C14, C15, C16)."""
import collections
import concurrent.futures
import json
import os
import random
import re
import shutil
import tempfile
import time
import urllib.parse

import check_front
import core
import front
import gen
import lsp

BIG = 2 ** 31 - 1
QUERIES = ("def", "decl", "refs", "all", "info", "comp")

# -- the model


def model(quick):
    states = transitions = 0
    for n, k, imports, steps in ([(2, 2, 1, 3), (2, 1, 2, 6)] if quick else [(2, 2, 1, 6), (2, 2, 2, 4), (3, 1, 1, 6)]):
        t = core.Tlc("Session", {"Docs": docs(n), "Texts": docs(k), "MaxImports": imports, "Steps": steps},
                     invariants=("Current", "ClosedEmpty", "Answered"), properties=("Kept",), view="Brief").run()
        states, transitions = states + t.states, transitions + t.transitions
    return states, transitions


def docs(n):
    return "{%s}" % ", ".join(str(i + 1) for i in range(n))


def sessions(setups, n, k, steps, each, seed):
    """Behaviours of the model: what happens, and what has to be shown after each step."""
    path = os.path.join(core.BUILD, "setups-%d.json" % os.getpid())
    core.write_ndjson(path, setups)
    try:
        t = core.Tlc("SessionRuns", {"Docs": docs(n), "Texts": docs(k), "MaxImports": 3, "Steps": steps, "SetupsFile": '"%s"' % path},
                     spec="SPECIFICATION RSpec", invariants=("Current", "ClosedEmpty", "Answered", "Shown"),
                     simulate="num=%d" % (each * len(setups)), depth=steps + 1, args=("-seed", str(seed)), workers=1).run(check=False)
    finally:
        os.remove(path)
    out = t.messages("SESSION")
    if not out or "is violated" in t.text:
        raise core.ToolError("no sessions: %s" % t.errors())
    # the simulator prints all last steps that it might take
    one = {}
    for m in out:
        key = json.dumps([m["id"], m["log"][:-1]])
        one.setdefault(key, []).append(m)
    r = random.Random(seed)
    return [r.choice(l) for l in one.values()]


# -- documents

# texts with imports that lead to strange places
ODD = ['import a from "%s"; export let x : int = a.v;' % p for p in (
    "a.tic", "", "/", "..", "../../../../../..", "//", "?", "#", "x y", "http://localhost/a.tic", "file:///nowhere/a.tic", "untitled:Untitled-1",
    "\u017e/\u20ac.tic", "std/none", "std/list", ":", "a:b", "\U0001f600", "%", "%zz", "a" * 3000)] + ["", "\r", "\u2028", "import", "let x = \"\U0001f600"]

NAMES = ["a.tic", "b.tic", "c.tic", "sub/d.tic", "sub/e.tic", "sub/more/f.tic", "x y.tic", "\u017e.tic", "g", "A.tic",
         "p#.tic", "q%20r.tic", "w?.tic", "s+(1)=&@!$',;.tic", "sub#/t.tic", "[u].tic", "~v.tic"]
RESERVED = "!$&'()*+,;=:@[]~"


def encoding(r):
    """A way to write urls: clients do not agree on what has to be encoded."""
    safe = r.choice(["", "", RESERVED, "".join(c for c in RESERVED if r.random() < .5)])
    return lambda path: "file://" + urllib.parse.quote(str(path), safe="/" + safe)


def setup(r, n, k):
    """Sets of documents: what each content imports, and what is on disk."""
    cyclic = r.random() < .3
    dense = r.choice([.3, .5, .8])
    imports = []
    for d in range(1, n + 1):
        of_doc = []
        for _ in range(k):
            l = [x for x in range(1, n + 1) if (x < d or cyclic) and r.random() < dense][:3]
            if l and r.random() < .1:
                l = (l + [r.choice(l)])[:3]
            if r.random() < .05:
                l = l[:2] + [d]
            r.shuffle(l)
            of_doc.append(l)
        imports.append(of_doc)
    order = list(range(1, n + 1))
    r.shuffle(order)
    # documents in a random order
    imports = [[[order[x - 1] for x in l] for l in imports[order.index(d)]] for d in range(1, n + 1)]
    return {"imports": imports, "disk": [r.choice([0] + list(range(1, k + 1))) for _ in range(n)]}


class Documents:
    """Texts of documents of a set."""

    def __init__(self, r, s):
        n = len(s["imports"])
        self.paths = r.sample(NAMES, n)
        self.setup = s
        # what is in the place of files that cannot be read
        self.unreadable = [r.choice([None, None, None, "dir", "binary"]) if not c else None for c in s["disk"]]
        self.texts = []
        self.links = []
        for d in range(n):
            made = [self.make(r, d, l) for l in s["imports"][d]]
            self.texts.append([t for t, _ in made])
            self.links.append([l for _, l in made])

    def make(self, r, d, l):
        """A text, and paths by which it imports documents."""
        here = os.path.dirname(self.paths[d])
        out, late, links = [], [], []
        alone = r.random() < .05
        for i, x in enumerate(l):
            p = os.path.relpath(self.paths[x - 1], here or ".")
            if r.random() < .1:
                p = "./" + p
            links.append(p)
            form = r.random()
            a = "a%d" % i
            if form < .6:
                out.append('import %s from "%s";' % (a, p))
                say = a + "."
            elif form < .75:
                out.append('import %s(v) from "%s";' % (a, p))
                say = r.choice([a + ".", ""])
            elif form < .9:
                out.append('import (v%s) from "%s";' % (r.choice(["", ", T"]), p))
                say = ""
            else:
                out.append('import () from "%s";' % p)
                continue
            form = r.random()
            if form < .3:
                late.append("let u%d : int = %sv;" % (i, say))
            elif form < .5:
                late.append("export let u%d = %sv + 1;" % (i, say))
            elif form < .6:
                late.append("export let t%d : %sT = %sv;" % (i, say, say))
            elif form < .7:
                late.append("export let f%d = \\x -> match x with | %sC -> %sv end;" % (i, say, say))
            elif form < .8:
                late.append("export let p%d = ?hole + %sv;" % (i, say))
            if form > .75 or r.random() < .3:
                late.append("export let v = %sv;" % say)
                alone = True
        x = r.random()
        base = ["export let v = %d;" % r.randrange(9), 'export let v = "s";', "let v = 1;", 'export let v : int = "s";',
                "export let v = ;", "export type T = export C | D; export let v = C;", "export let v = \\x -> x + 1;",
                "let v = 1; let w = v;", "type T = C; export let v : T = C;", "export let v = nothing;",
                "export let v = ?hole;"]
        if not alone or x < .1:
            late.append(r.choice(base[:2]) if r.random() < .5 else r.choice(base))
        if r.random() < .05:
            return ("", []) if not l else ("\n".join(out), links)
        return "\n".join(out + late) + r.choice(["", "\n"]), links

    def tree(self, t):
        """Modules of a tree, for the harness, and the key of its root."""
        mods = {}

        def add(t):
            _, d, c, subs = t
            find = {}
            for link, sub in zip(self.links[d - 1][c - 1], subs):
                if sub[0] == "missing" and self.unreadable[sub[1] - 1]:
                    find[link] = "io"
                else:
                    find[link] = add(sub) if sub[0] == "module" else "!" + sub[0]
            key = json.dumps(t)
            mods.setdefault(key, {"path": key, "src": self.texts[d - 1][c - 1], "find": find})
            return key
        add(t)
        return list(mods.values())


def observe(docs_and_trees, comp=True):
    """What the compiler itself says about trees."""
    cases = []
    for i, (ds, t) in enumerate(docs_and_trees):
        mods = ds.tree(t)
        n = len(mods[-1]["src"].encode())
        cases.append({"id": i, "mods": mods, "want": ["front", "query"], "comp": list(range(n + 1)) if comp else []})
    return core.run_harness(cases)


def bad_observation(o):
    return bool(front.crashes({}, o))


def unread(ds):
    """The reason why a file could not be read is not compared."""
    out = []
    for d in ds:
        d = list(d)
        if d[-1].startswith("failed to read module"):
            d[-1] = "failed to read module"
        out.append(d)
    return out


def row(i, text, o, published=None, coloured=None, asks=()):
    x = {"id": i, "text": [ord(c) for c in text], "asks": list(asks)}
    if asks:
        x.update({k: o[k] for k in ("def", "refs", "info")})
        x["comp"] = [a for _, a in o["comp"]]
    if published is not None:
        x.update({"diags": unread(o["diags"]), "published": unread(published)})
    if coloured is not None:
        x.update({"toks": o["toks"], "coloured": coloured})
    return x


def decide(rows):
    path = os.path.join(core.BUILD, "positions-%d.json" % os.getpid())
    core.write_ndjson(path, rows)
    try:
        t = core.Tlc("PositionCases", {"CasesFile": '"%s"' % path}).run()
    finally:
        os.remove(path)
    return t.messages("MISMATCH"), t


# -- sessions about several documents


class Played:
    """A session of the model, with the real server."""

    def __init__(self, r, ds, run, scratch, asking):
        self.r, self.ds, self.run = r, ds, run
        self.dir = tempfile.mkdtemp(dir=scratch)
        self.asking = asking
        url = encoding(r)
        self.uris = [url(os.path.join(self.dir, p)) for p in ds.paths]
        for d, c in enumerate(ds.setup["disk"]):
            p = os.path.join(self.dir, ds.paths[d])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if c:
                with open(p, "w", newline="") as f:
                    f.write(ds.texts[d][c - 1])
            elif ds.unreadable[d] == "dir":
                os.makedirs(p)
            elif ds.unreadable[d] == "binary":
                with open(p, "wb") as f:
                    f.write(b"export let v = 1; -- \xff\xfe")
        self.others = set()
        self.expected = {}     # id of a request -> what is expected
        self.script = []

    def strange(self, s, k):
        """Messages that nothing is to come of."""
        r = self.r
        uri = r.choice(["file:///nowhere/x.tic", "untitled:Untitled-1", "http://localhost/x.tic", r.choice(self.uris) + "x"])
        if uri in self.others:
            uri = self.uris[0] + "y"
        x = r.randrange(8)
        if x >= 6:
            self.elsewhere(s, k)
        elif x == 0:
            i = "unknown%d" % k
            s.request(i, r.choice(["workspace/symbol", "textDocument/rename", "tic/other", "textDocument/formatting"]), {})
            self.expected[i] = ("error",)
        elif x == 1:
            i = "nodoc%d" % k
            kind = r.choice(QUERIES + ("toks",))
            s.request(i, lsp.METHODS[kind], lsp.params(kind, uri, r.randrange(5), r.randrange(9)))
            self.expected[i] = ("null",)
        elif x == 2:
            s.notify(r.choice(["$/cancelRequest", "textDocument/didSave", "workspace/didChangeWatchedFiles", "tic/other"]),
                     {"id": 1, "textDocument": {"uri": uri}, "changes": []})
        elif x == 3:
            s.close(uri)
        elif x == 4:
            s.send({"id": 12345, "result": None})
        else:
            s.change(r.choice(self.uris))
        self.script.append("strange %d" % x)

    def elsewhere(self, s, k):
        """A document that is not a file, or not like others."""
        r = self.r
        uri = r.choice(["untitled:Untitled-1", "http://localhost/a/x.tic", "file:///nowhere/x.tic", "file://host/a/x.tic", "data:,x", "git:/a/x.tic?ref",
                        "file:///", "vscode-notebook-cell:/x/y.tic#c", self.uris[0] + r.choice(["#part", "?x", "?", "#"]), self.uris[0] + "/x.tic"])
        if uri not in self.others:
            s.open(uri, r.choice(r.choice(self.ds.texts) + ODD))
            self.others.add(uri)
        elif r.random() < .5:
            s.change(uri, r.choice(r.choice(self.ds.texts) + ODD))
        for j in range(2):
            i = r.choice([500000 + 10 * k + j, "other %d-%d" % (k, j)])
            kind = r.choice(QUERIES + ("toks",))
            s.request(i, lsp.METHODS[kind], lsp.params(kind, uri, r.randrange(5), r.randrange(30)))
            self.expected[i] = ("any",)
        if r.random() < .3:
            s.close(uri)
            self.others.discard(uri)

    def play(self):
        r = self.r
        s = lsp.Session()
        k = 0
        for k, (what, d, c) in enumerate(self.run["log"]):
            uri = self.uris[d - 1]
            text = self.ds.texts[d - 1][c - 1] if c else None
            if self.asking and r.random() < .3 and "shutdown" not in self.expected:
                self.strange(s, k)
            if what == "open":
                s.open(uri, text)
            elif what == "change":
                # the last one counts
                s.change(uri, *([r.choice(self.ds.texts[d - 1])] if r.random() < .2 else []), text)
            elif what == "close":
                s.close(uri)
            elif what == "ask" and self.asking:
                for j in range(4):
                    i = r.choice([100000 + 10 * k + j, "ask %d-%d" % (k, j)])
                    t = self.run["wanted"][k][d - 1]
                    kind = r.choice(QUERIES + ("toks",))
                    n = len(self.ds.texts[d - 1][t[2] - 1]) if t else 3
                    line, char = r.randrange(6), r.randrange(min(n, 40) + 2)
                    s.request(i, lsp.METHODS[kind], lsp.params(kind, uri, line, char))
                    self.expected[i] = ("answer", kind, d, t, line, char) if t else ("null",)
            elif what == "shutdown":
                s.request("shutdown", "shutdown")
                self.expected["shutdown"] = ("null",)
            elif what == "exit":
                s.notify("exit", None)
            self.script.append([what, self.ds.paths[d - 1] if d else "", text])
            if "shutdown" not in self.expected:
                s.request("barrier%d" % k, "tic/barrier", {})
                self.expected["barrier%d" % k] = ("error",)
        if "shutdown" not in self.expected:
            s.request("shutdown", "shutdown")
            self.expected["shutdown"] = ("null",)
        if self.run["log"][-1][0] != "exit":
            s.notify("exit", None)
        self.got, self.status = s.run()
        shutil.rmtree(self.dir, ignore_errors=True)
        return self

    def legend(self):
        return self.got[0]["result"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]

    def history(self):
        """What is shown for each document after each step."""
        out = []
        shown = {}
        k = 0
        for m in self.got:
            if m.get("method") == "textDocument/publishDiagnostics":
                shown[lsp.plain(m["params"]["uri"])] = m["params"]["diagnostics"]
            elif m.get("id") == "barrier%d" % k:
                out.append(dict(shown))
                k += 1
        return out

    def replay(self, step=None):
        return {"directory": self.dir, "disk": {self.ds.paths[d]: self.ds.texts[d][c - 1] for d, c in enumerate(self.ds.setup["disk"]) if c},
                "session": self.script[:step]}


def played(rng, count, n, k, steps, asking, pool, scratch, seed):
    setups = [setup(rng, n, k) for _ in range(max(count // 4, 1))]
    runs = sessions(setups, n, k, steps, 4, seed)
    out = []
    for run in runs:
        r = random.Random(rng.random())
        ds = Documents(r, setups[run["id"] - 1])
        out.append(pool.submit(Played(r, ds, run, scratch, asking).play))
    return [x.result() for x in out]


class Trees:
    """Observations of trees, each once."""

    def __init__(self):
        self.known = {}

    def need(self, p, t):
        return self.known.setdefault((id(p.ds), json.dumps(t)), [p.ds, t, None])

    def observe(self):
        todo = [x for x in self.known.values() if x[2] is None]
        for x, o in zip(todo, observe([(ds, t) for ds, t, _ in todo])):
            x[2] = o


def check_current(rep, plays, counts):
    """C14: what is shown is what compiling current contents gives."""
    trees = Trees()
    rows, about = [], {}
    for p in plays:
        p.seen = p.history()
        steps = [i for i, e in enumerate(p.run["log"]) if e[0] not in ("shutdown", "exit")]
        for i in steps:
            for t in p.run["wanted"][i]:
                if t:
                    trees.need(p, t)
    trees.observe()
    seen = {}
    for p in plays:
        for i, e in enumerate(p.run["log"]):
            if e[0] in ("shutdown", "exit"):
                break
            wanted = [trees.need(p, t)[2] if t else None for t in p.run["wanted"][i]]
            if any(o and bad_observation(o) for o in wanted):
                break      # the compiler crashes; that is for another property
            if i >= len(p.seen):
                rep.violation("the server gave no answers from step %d (%s)" % (i, p.status), p.replay(i + 1))
                break
            counts["steps"] += 1
            for d, o in enumerate(wanted):
                got = p.seen[i].get(lsp.plain(p.uris[d]))
                if not o:
                    counts["closed"] += 1
                    if got:
                        rep.violation("diagnostics of %s, which is closed: %s" % (p.ds.paths[d], str(got)[:200]), p.replay(i + 1))
                    continue
                counts["open"] += 1
                counts["with diagnostics" if o["diags"] else "without diagnostics"] += 1
                for x in o["diags"]:
                    if "import cycle" in x[3] or "module" in x[3]:
                        counts[x[3]] += 1
                if got is None:
                    rep.violation("no diagnostics were published for %s" % p.ds.paths[d], p.replay(i + 1))
                    continue
                t = p.run["wanted"][i][d]
                text = p.ds.texts[d][t[2] - 1]
                try:
                    pub = lsp.published(got)
                except (KeyError, TypeError) as e:
                    rep.violation("malformed diagnostics %s: %r" % (str(got)[:300], e), p.replay(i + 1))
                    continue
                x = row(0, text, o, published=pub)
                key = json.dumps(x)
                if key not in seen:
                    seen[key] = len(rows)
                    x["id"] = len(rows)
                    rows.append(x)
                    about[x["id"]] = (p, i, d)
    bad, t = decide(rows)
    for m in bad:
        p, i, d = about[m["id"]]
        rep.violation("after step %d, diagnostics of %s: expected %s, shown %s" % (
            i, p.ds.paths[d], str(m["expected"])[:300], str(m["got"])[:300]), p.replay(i + 1))
    return t, len(rows)


def check_replies(rep, plays, counts):
    """C16: one reply to each request."""
    trees = Trees()
    for p in plays:
        for e in p.expected.values():
            if e[0] == "answer":
                trees.need(p, e[3])
        for ts in p.run["wanted"]:
            for t in ts:
                if t:
                    trees.need(p, t)
    trees.observe()
    rows, about = {}, {}
    for p in plays:
        if any(bad_observation(trees.need(p, t)[2]) for ts in p.run["wanted"] for t in ts if t):
            continue
        replies = collections.Counter()
        if p.status == "timeout":
            rep.violation("the server did not end", p.replay())
        for m in p.got:
            if "broken" in m:
                rep.violation("output is cut off: %s" % m["broken"][:200], p.replay())
            if "method" in m:
                continue
            i = m.get("id")
            replies[(type(i).__name__, i)] += 1
            if i == 0 and len(replies) == 1:
                continue
            e = p.expected.get(i)
            if e is None:
                rep.violation("a response to nothing: %s" % str(m)[:200], p.replay())
                continue
            counts[e[0] if e[0] != "answer" else e[1]] += 1
            if e[0] == "error":
                if m.get("error") is None:
                    rep.violation("response to an unknown method: %s" % str(m)[:200], p.replay())
            elif m.get("error") is not None:
                rep.violation("error instead of an answer (%s): %s" % (e[:2], str(m)[:200]), p.replay())
            elif e[0] == "any":
                pass
            elif e[0] == "null":
                if m.get("result") not in (None, []):
                    rep.violation("answer about a document that is not open: %s" % str(m)[:200], p.replay())
            else:
                _, kind, d, t, line, char = e
                a = lsp.answer(kind, m.get("result"), p.uris[d - 1], p.legend())
                if isinstance(a, str):
                    rep.violation("%s: %s" % (kind, a), p.replay())
                    continue
                x = rows.setdefault((id(p.ds), json.dumps(t)), (p, d, t, [], []))
                if kind == "toks":
                    x[4].append(a)
                else:
                    x[3].append([kind, line, char, a])
        for i, e in p.expected.items():
            n = replies[(type(i).__name__, i)]
            if n != 1:
                rep.violation("%d responses to request %s (%s, server ended with %s)" % (n, i, e[:2], p.status), p.replay())
                break
    out = []
    for p, d, t, asks, toks in rows.values():
        o = trees.need(p, t)[2]
        text = p.ds.texts[d - 1][t[2] - 1]
        for j in range(max(1, len(toks))):
            i = len(out)
            about[i] = (p, d)
            out.append(row(i, text, o, coloured=toks[j] if toks else None, asks=asks if j == 0 else ()))
    bad, t = decide(out)
    for m in bad:
        p, d = about[m["id"]]
        rep.violation("%s at %s: expected %s, got %s" % (m["what"], m["about"], str(m["expected"])[:300], str(m["got"])[:300]), p.replay())
    return t, len(out)


# -- positions

WIDE = ["\u00e9", "\u20ac", "\U0001f600", "\U00010348", "e\u0301", "\u2028", "\u0085", "\ufeff", "\u017e", "\x0b", "\x0c", "\u0000", "\uffff",
        "\U0010ffff", "a", "b", " ", "\t"]


def wide(r, n=4):
    return "".join(r.choice(WIDE) for _ in range(r.randrange(n + 1)))


POSITION_FAMILIES = [check_front.f_typed, check_front.f_wild_names, check_front.f_broken, check_front.f_soup, check_front.f_noise,
                     check_front.f_wild_scoped]


def position_text(r, limit):
    while True:
        mods = r.choice(POSITION_FAMILIES)(r)
        src = mods[-1][1]
        if len(mods) == 1 and 'from "' not in src and len(src) <= limit:
            break
    src = re.sub(r'"[^"\n\\]*"', lambda m: '"%s"' % wide(r).replace("\n", "") if r.random() < .7 else m.group(0), src)
    lines = src.replace("\r\n", "\n").split("\n")
    out = []
    for l in lines:
        x = r.random()
        if x < .15:
            l += " -- " + wide(r)
        elif x < .3 and l.rstrip().endswith(";"):
            l = 'let s = "%s"; ' % wide(r) + l
        elif x < .35:
            k = r.randrange(len(l) + 1)
            l = l[:k] + wide(r, 2) + l[k:]
        out.append(l)
    style = r.random()
    if style < .5:
        ends = ["\n"]
    elif style < .7:
        ends = ["\r\n"]
    elif style < .8:
        ends = ["\n", "\r\n"]
    else:
        ends = ["\r", "\n", "\r\n", "\n\r", "\r\r\n"]
    text = "".join(l + r.choice(ends) for l in out[:-1]) + out[-1]
    if r.random() < .2:
        text += r.choice(ends)
    return text


def editor_lines(text):
    return re.split("\r\n|\r|\n", text)


def check_positions(rep, rng, count, limit, counts, pool):
    """C15: positions of the editor and of the compiler."""
    texts = [position_text(rng, limit) for _ in range(count)]
    cases = [{"id": i, "mods": [{"path": "main", "src": t}], "want": ["front", "query"],
              "comp": list(range(len(t.encode()) + 1))} for i, t in enumerate(texts)]
    obs = core.run_harness(cases)
    jobs = []
    for i, (text, o) in enumerate(zip(texts, obs)):
        if bad_observation(o):
            counts["crashes of the compiler"] += 1
            continue
        s = lsp.Session()
        uri = "file:///nowhere/%d.tic" % i
        s.open(uri, text)
        asks = []
        lines = editor_lines(text)
        for l in range(len(lines) + 2):
            n = len(lines[l].encode("utf-16-le")) // 2 if l < len(lines) else 2
            for c in list(range(n + 3)) + [n + 1000, BIG, 2 ** 32 - 1]:
                asks.append((l, c))
        asks += [(BIG, 0), (2 ** 32 - 1, 2 ** 32 - 1), (len(lines) + 70000, 3)]
        asks = [(rng.choice(QUERIES), l, c) for l, c in asks]
        # what a session has to be told may be told in parts
        for j, (kind, l, c) in enumerate(asks):
            s.request(j + 1, lsp.METHODS[kind], lsp.params(kind, uri, l, c))
        s.request("toks", lsp.METHODS["toks"], lsp.params("toks", uri))
        s.end()
        jobs.append((i, uri, asks, pool.submit(s.run)))
    rows = []
    for i, uri, asks, job in jobs:
        got, status = job.result()
        replay = {"text": texts[i]}
        answers = {m["id"]: m for m in got if "id" in m and "method" not in m}
        if status == "timeout" or "shutdown" not in answers:
            rep.violation("the server did not answer: %s" % status, replay)
            continue
        legend = answers[0]["result"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]
        pubs = [m["params"]["diagnostics"] for m in got if m.get("method") == "textDocument/publishDiagnostics"]
        told = []
        wrong = None
        for j, (kind, l, c) in enumerate(asks):
            m = answers.get(j + 1, {"error": "no answer"})
            a = lsp.answer(kind, m.get("result"), uri, legend) if not m.get("error") else "error %s" % m["error"]
            if isinstance(a, str):
                wrong = "%s at %s: %s" % (kind, (l, c), a)
                continue
            counts["positions"] += 1
            told.append([kind, min(l, BIG), min(c, BIG), a])
        toks = lsp.answer("toks", answers.get("toks", {}).get("result"), uri, legend)
        if isinstance(toks, str):
            wrong = toks
        if not pubs:
            wrong = "nothing was published"
        if wrong:
            rep.violation(wrong, replay)
            continue
        x = row(i, texts[i], obs[i], published=lsp.published(pubs[-1]), coloured=toks, asks=told)
        counts["ranges"] += len(x["diags"]) + sum(1 for a in told if a[3])
        counts["tokens"] += len(x["toks"])
        rows.append(x)
    bad, t = decide(rows)
    for m in bad:
        rep.violation("%s at %s: expected %s, got %s" % (m["what"], m["about"], str(m["expected"])[:300], str(m["got"])[:300]),
                      {"text": texts[m["id"]]})
    return t, len(rows), texts


def position_model(quick):
    t = core.Tlc("PositionModel", {"Alphabet": "{97, 233, 8364, 128512, 10, 13}", "MaxLen": 4 if quick else 6},
                 invariants=("Ordered", "RoundTrip", "Total", "Monotone", "Count")).run()
    return t.states, t.transitions


def run(prop):
    core.build(bins=True)
    rep = core.Report(prop)
    rng = random.Random("%s-%s" % (core.SEED, prop))
    quick = core.TIER != "thorough"
    deadline = time.time() + 560
    states, transitions = position_model(quick) if prop == "C15" else model(quick)
    counts = collections.Counter()
    scratch = tempfile.mkdtemp(prefix="lsp-", dir=core.BUILD)
    pool = concurrent.futures.ThreadPoolExecutor(8)
    traces = batches = decided = 0
    samples = []
    try:
        while batches < 1 if quick else batches == 0 or time.time() < deadline:
            batches += 1
            if prop == "C15":
                t, n, texts = check_positions(rep, rng, 120, rng.choice([150, 300]), counts, pool)
                traces += n
                states, transitions = states + t.states, transitions + t.transitions
                if not samples:
                    samples = texts[:3]
            else:
                for n, k, steps, count in [(2, 3, 8, 200), (3, 3, 14, 320), (4, 4, 24, 160)]:
                    plays = played(rng, count, n, k, steps, prop == "C16", pool, scratch, core.SEED * 1000 + batches)
                    check = check_current if prop == "C14" else check_replies
                    t, m = check(rep, plays, counts)
                    traces += len(plays)
                    states, transitions = states + t.states, transitions + t.transitions
                    decided += m
                    if not samples:
                        samples = [p.script[:6] for p in plays[:2]]
                    if rep.violations:
                        break
            if rep.violations:
                break
    finally:
        pool.shutdown()
        shutil.rmtree(scratch, ignore_errors=True)
    return rep.finish("model_checking", {
        "states": states,
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "documents_compared": decided,
        "kinds": dict(counts),
        "samples": samples,
    })
