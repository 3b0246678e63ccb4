"""Reading of emitted intermediate code: text -> definitions, as in spec/Core.tla."""
import re
import sys
import threading

TOKEN = re.compile(r'''\s+|(?P<str>"(?:\\(?:x[0-9a-f]{2}|u\{[0-9a-f]+\}|[rnt0"'\\])|[^"\\])*")|(?P<num>\d+)
    |(?P<name>[A-Za-z_$][A-Za-z0-9_$']*)|(?P<intr>%[A-Za-z]+\b)|(?P<trap>\#trap\b)
    |(?P<sym>->|<=|>=|==|!=|[-+*/%<>()\[\],;:=|@\\.])''', re.X)
KEYWORDS = {"let", "rec", "if", "then", "else", "match", "with", "end", "Pi", "for", "true", "false", "int", "bool", "string", "export"}
COMPARE = {"<", "<=", ">", ">=", "==", "!="}


class Unreadable(Exception):
    pass


def unescape(text):
    out = bytearray()
    i = 1
    while i < len(text) - 1:
        if text[i] == "\\":
            c = text[i + 1]
            if c == "x":
                out.append(int(text[i + 2:i + 4], 16))
                i += 4
            elif c == "u":
                end = text.index("}", i)
                out += chr(int(text[i + 3:end], 16)).encode("utf-8")
                i = end + 1
            else:
                out.append({"r": 13, "n": 10, "t": 9, "0": 0}.get(c, ord(c)))
                i += 2
        else:
            out += text[i].encode("utf-8")
            i += 1
    return bytes(out)


class Reader:
    def __init__(self, text):
        self.toks = []
        at = 0
        while at < len(text):
            m = TOKEN.match(text, at)
            if not m:
                raise Unreadable("token at %r" % text[at:at + 40])
            if m.lastgroup:
                self.toks.append((m.lastgroup, m.group(), at))
            at = m.end()
        self.text = text
        self.i = 0
        self.types, self.ctors = set(), set()
        self.nodes = []

    def fail(self, what):
        at = self.toks[self.i][2] if self.i < len(self.toks) else len(self.text)
        raise Unreadable("expected %s at %r" % (what, self.text[at:at + 60]))

    def peek(self, x):
        return self.i < len(self.toks) and self.toks[self.i][1] == x and self.toks[self.i][0] != "str"

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else "end"

    def take(self, x):
        if self.peek(x):
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.take(x):
            self.fail(x)

    def next(self, kind):
        if self.kind() != kind:
            self.fail(kind)
        self.i += 1
        return self.toks[self.i - 1][1]

    def name(self):
        x = self.next("name")
        m = re.fullmatch(r"(.+)_(\d+)", x)
        if not m:
            self.i -= 1
            self.fail("numbered name")
        return [m.group(1), int(m.group(2))]

    def list(self, close, item):
        out = []
        if self.take(close):
            return out
        while True:
            out.append(item())
            if self.take(close):
                return out
            self.need(",")

    def string(self):
        return unescape(self.next("str"))

    # -- types

    def var(self):
        x = self.next("name")
        if not re.fullmatch(r"t\d+", x):
            self.i -= 1
            self.fail("type variable")
        return int(x[1:])

    def type(self):
        if self.take("for"):
            v = self.var()
            self.need(".")
            return ["all", v, self.type()]
        if self.take("("):
            params = self.list(")", self.type)
            if self.take("->"):
                return ["fn", params, self.type()]
            if len(params) != 1:
                self.fail("->")
            return params[0]
        if self.kind() == "name" and re.fullmatch(r".+_\d+", self.toks[self.i][1]):
            n = self.name()
            args = []
            while self.kind() == "name" and self.toks[self.i][1] not in KEYWORDS - {"int", "bool", "string"} or self.peek("("):
                args.append(self.atom_type())
            return self.named(n, args)
        return self.atom_type()

    def named(self, n, args):
        self.types.add((tuple(n), len(args)))
        return ["named", n, args]

    def atom_type(self):
        if self.take("("):
            t = self.type()
            self.need(")")
            return t
        for t in ("int", "bool", "string"):
            if self.take(t):
                return [t]
        if self.kind() == "name" and re.fullmatch(r".+_\d+", self.toks[self.i][1]):
            return self.named(self.name(), [])
        return ["var", self.var()]

    # -- expressions: sequences of nodes

    def node(self, *e):
        self.nodes.append(list(e))
        return len(self.nodes)

    def expr(self):
        if self.take("let"):
            if self.take("rec"):
                x = self.name()
                self.need(":")
                t = self.type()
                self.need("=")
                a = self.expr()
                self.need(";")
                return self.node("letrec", x, t, a, self.expr())
            x = self.name()
            self.need("=")
            a = self.expr()
            self.need(";")
            return self.node("let", x, a, self.expr())
        if self.take("if"):
            c = self.expr()
            self.need("then")
            a = self.expr()
            self.need("else")
            return self.node("if", c, a, self.expr())
        if self.take("\\"):
            self.need("(")
            ps = self.list(")", self.param)
            self.need("->")
            return self.node("lam", ps, self.expr())
        if self.take("Pi"):
            v = self.var()
            self.need("->")
            return self.node("pi", v, self.expr())
        a = self.sum()
        if self.i < len(self.toks) and self.toks[self.i][1] in COMPARE:
            op = self.next("sym")
            a = self.node("op", op, a, self.sum())
        return a

    def param(self):
        x = self.name()
        self.need(":")
        return [x, self.type()]

    def binary(self, ops, operand):
        a = operand()
        while self.kind() == "sym" and self.toks[self.i][1] in ops:
            op = self.next("sym")
            a = self.node("op", op, a, operand())
        return a

    def sum(self):
        return self.binary("+-", self.product)

    def product(self):
        return self.binary("*/%", self.postfix)

    def postfix(self):
        e = self.atom()
        while True:
            if self.take("("):
                e = self.node("call", e, self.list(")", self.expr))
            elif self.take("["):
                e = self.node("inst", e, self.type())
                self.need("]")
            else:
                return e

    def atom(self):
        k = self.kind()
        if k == "num":
            return self.node("int", str(int(self.next("num"))))
        if k == "str":
            return self.node("str", list(self.string()))
        if self.take("true"):
            return self.node("bool", True)
        if self.take("false"):
            return self.node("bool", False)
        if k == "intr":
            x = self.next("intr")[1:]
            self.need("(")
            return self.node("intr", x, self.list(")", self.expr))
        if k == "trap":
            self.next("trap")
            self.need("(")
            message = self.string().decode("utf-8")
            self.need(",")
            t = self.type()
            self.need(")")
            return self.node("trap", message, t)
        if self.take("@"):
            c = self.name()
            ts = []
            if self.take("["):
                ts = self.list("]", self.type)
            self.need("(")
            self.ctors.add((tuple(c), len(ts)))
            return self.node("new", c, ts, self.list(")", self.expr))
        if self.take("match"):
            d = self.expr()
            self.need("with")
            cases = []
            while self.take("|"):
                self.need("@")
                c = self.name()
                xs = []
                while not self.peek("->"):
                    xs.append(self.name())
                self.need("->")
                cases.append([c, xs, self.expr()])
            self.need("end")
            return self.node("match", d, cases)
        if self.take("("):
            e = self.expr()
            self.need(")")
            return e
        if k == "name" and self.toks[self.i][1] not in KEYWORDS:
            return self.node("name", self.name())
        self.fail("expression")

    def definition(self):
        exp = ""
        if self.take("export"):
            self.need("(")
            exp = self.string().decode("utf-8")
            self.need(")")
        self.need("let")
        x = self.name()
        self.need(":")
        t = self.type()
        self.need("=")
        self.nodes = []
        self.expr()
        self.need(";")
        return {"x": x, "exp": exp, "ty": t, "e": self.nodes}


def read(text, optimised):
    """Emitted code as data.  (Expressions can be nested deeply.)"""
    out = []

    def work():
        try:
            out.append(read_here(text, optimised))
        except Unreadable as e:
            out.append(e)
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 100000))
    size = threading.stack_size(1 << 29)
    t = threading.Thread(target=work)
    t.start()
    threading.stack_size(size)
    t.join()
    if isinstance(out[0], Unreadable):
        raise out[0]
    return out[0]


def read_here(text, optimised):
    r = Reader(text)
    defs = []
    while r.i < len(r.toks):
        defs.append(r.definition())
    return {"optimised": optimised, "defs": defs, "types": sorted([list(n), k] for n, k in r.types),
            "ctors": sorted([list(n), k] for n, k in r.ctors)}
