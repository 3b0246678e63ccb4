"""Sessions with the real language server."""
import json
import subprocess
import tempfile
import urllib.parse

import core

METHODS = {
    "def": "textDocument/definition",
    "decl": "textDocument/declaration",
    "refs": "textDocument/references",
    "all": "textDocument/references",
    "info": "textDocument/hover",
    "comp": "textDocument/completion",
    "toks": "textDocument/semanticTokens/full",
}


def params(kind, uri, line=0, char=0):
    p = {"textDocument": {"uri": uri}}
    if kind != "toks":
        p["position"] = {"line": line, "character": char}
    if kind in ("refs", "all"):
        p["context"] = {"includeDeclaration": kind == "all"}
    return p


class Session:
    """Messages to send, and then what came back."""

    def __init__(self):
        self.out = []
        self.request(0, "initialize", {"processId": None, "rootUri": None, "capabilities": {}})
        self.notify("initialized", {})

    def send(self, m):
        m["jsonrpc"] = "2.0"
        b = json.dumps(m, ensure_ascii=False).encode("utf-8")
        self.out.append(b"Content-Length: %d\r\n\r\n" % len(b) + b)

    def request(self, i, method, p=None):
        m = {"id": i, "method": method}
        if p is not None:
            m["params"] = p
        self.send(m)

    def notify(self, method, p):
        self.send({"method": method, "params": p})

    def open(self, uri, text, version=1):
        self.notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "tic", "version": version, "text": text}})

    def change(self, uri, *texts):
        self.notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"text": t} for t in texts]})

    def close(self, uri):
        self.notify("textDocument/didClose", {"textDocument": {"uri": uri}})

    def end(self):
        self.request("shutdown", "shutdown")
        self.notify("exit", None)

    def run(self, limit=60):
        """Messages from the server, and its exit status."""
        with tempfile.TemporaryFile() as inp, tempfile.TemporaryFile() as out:
            inp.write(b"".join(self.out))
            inp.seek(0)
            p = subprocess.Popen([core.binary("ticc-lsp")], stdin=inp, stdout=out, stderr=subprocess.DEVNULL, preexec_fn=core.bounded(4))
            try:
                status = p.wait(timeout=core.patience(limit))
            except subprocess.TimeoutExpired:
                core.HANGS.append("ticc-lsp")
                p.kill()
                p.wait()
                status = "timeout"
            out.seek(0)
            return parse(out.read()), status


def parse(b):
    out = []
    i = 0
    while i < len(b):
        j = b.find(b"\r\n\r\n", i)
        if j < 0:
            out.append({"broken": b[i:].decode("utf-8", "replace")})
            break
        n = [int(h.split(b":")[1]) for h in b[i:j].split(b"\r\n") if h.lower().startswith(b"content-length")][0]
        out.append(json.loads(b[j + 4:j + 4 + n]))
        i = j + 4 + n
    return out


def plain(uri):
    """Urls may be encoded in different ways."""
    return urllib.parse.unquote(uri)


def rng4(r):
    return [r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"]]


def published(diags):
    return [[rng4(d["range"]), {1: "error", 2: "warning"}.get(d.get("severity"), "other"), d["message"]] for d in diags]


def answer(kind, result, uri, legend=()):
    """A result as the specification has it, or text of what is wrong with it."""
    try:
        if kind == "toks":
            data = result["data"]
            if isinstance(data, list) and data and isinstance(data[0], dict):
                return "tokens are not numbers"
            rows = [data[i:i + 5] for i in range(0, len(data), 5)]
            return [[min(r[0], 2 ** 31 - 1), min(r[1], 2 ** 31 - 1), r[2], legend[r[3]]] for r in rows]
        if result is None:
            return []
        if kind in ("def", "decl"):
            locs = result if isinstance(result, list) else [result]
            if [plain(l["uri"]) for l in locs] != [plain(uri)]:
                return "location in %s" % locs
            return [rng4(locs[0]["range"])]
        if kind in ("refs", "all"):
            if any(plain(l["uri"]) != plain(uri) for l in result):
                return "location in %s" % result
            return [[rng4(l["range"]) for l in result]]
        if kind == "info":
            c = result["contents"]
            return [rng4(result["range"]), c if isinstance(c, str) else c["value"]]
        if kind == "comp":
            items = result if isinstance(result, list) else result["items"]
            return [sorted({i["label"] for i in items})]
    except (KeyError, TypeError, IndexError, ValueError) as e:
        return "malformed answer %s: %r" % (json.dumps(result)[:200], e)
    return "unknown"
