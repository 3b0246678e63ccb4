"""Generates tic programs: well-typed ones, nearly well-typed ones and broken ones."""
import random

INT, BOOL, STR = ("int",), ("bool",), ("string",)

NAMES = list("abcdefghxyzmnpq") + ["foo", "bar", "_u", "x1", "go", "acc", "a_b", "f_", "xY", "__", "let1", "int_", "Up", "_0"]


def fn(*ts):
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = ("fn", t, r)
    return r


def subst(t, m):
    if t[0] == "tv":
        return m.get(t[1], t)
    if t[0] == "fn":
        return ("fn", subst(t[1], m), subst(t[2], m))
    if t[0] == "named":
        return ("named", t[1], tuple(subst(a, m) for a in t[2]))
    return t


def tvs(t, acc=None):
    acc = [] if acc is None else acc
    if t[0] == "tv":
        if t[1] not in acc:
            acc.append(t[1])
    elif t[0] == "fn":
        tvs(t[1], acc)
        tvs(t[2], acc)
    elif t[0] == "named":
        for a in t[2]:
            tvs(a, acc)
    return acc


def match_type(pattern, t, m):
    """Instantiates the type variables of pattern so that it is t."""
    if pattern[0] == "tv":
        if pattern[1] in m:
            return m[pattern[1]] == t
        m[pattern[1]] = t
        return True
    if pattern[0] != t[0]:
        return False
    if pattern[0] == "fn":
        return match_type(pattern[1], t[1], m) and match_type(pattern[2], t[2], m)
    if pattern[0] == "named":
        return (pattern[1] == t[1] and len(pattern[2]) == len(t[2])
                and all(match_type(a, b, m) for a, b in zip(pattern[2], t[2])))
    return pattern == t


# functions that take time in proportion to an argument
LOOPS = {"iterate", "repeat", "range", "new", "skip", "take", "drop"}


class Gen:
    tame = False

    def __init__(self, rng, noise=0.0, holes=0.02, depth=4, big=0.1, mono=False, strict=False, folds=0.0):
        self.r = rng
        self.folds = folds
        self.noise = noise
        self.holes = holes
        self.maxdepth = depth
        self.big = big
        self.types = []      # [name, params, ctors [(name, fields)], qualifier]
        self.values = []     # [(text tokens, type with tv)]
        self.items = []
        self.counter = 0
        self.strict = strict   # no shadowing of globals
        self.exports = []    # types
        self.exported = []   # values
        self.opaque = []
        self.fuel = 0

    # -- names and types

    def fresh(self):
        if not self.strict and self.r.random() < 0.6:
            return self.r.choice(NAMES)
        self.counter += 1
        return "v%d" % self.counter

    def show_type(self, t, prec=0):
        k = t[0]
        if k in ("int", "bool", "string"):
            out = [k]
        elif k == "tv":
            return [t[1]]
        elif k == "fn":
            out = self.show_type(t[1], 1) + ["->"] + self.show_type(t[2], 0)
            if prec >= 1:
                return ["("] + out + [")"]
        else:
            td = next((x for x in self.types if x[0] == t[1]), None)
            head = ([td[3], "."] if td and td[3] else []) + [t[1]]
            out = head + [x for a in t[2] for x in self.show_type(a, 2)]
            if prec >= 2 and t[2]:
                return ["("] + out + [")"]
        if prec < 2 and self.r.random() < 0.03:
            return ["("] + out + [")"]
        return out

    def rand_type(self, depth=2, tvars=()):
        x = self.r.random()
        if tvars and x < 0.3:
            return ("tv", self.r.choice(list(tvars)))
        if depth == 0 or x < 0.45:
            return self.r.choice([INT, INT, INT, BOOL, STR])
        if x < 0.62:
            return ("fn", self.rand_type(depth - 1, tvars), self.rand_type(depth - 1, tvars))
        if self.types:
            td = self.r.choice(self.types)
            return ("named", td[0], tuple(self.rand_type(depth - 1, tvars) for _ in td[1]))
        return INT

    # -- items

    def type_item(self, export=0.2):
        r = self.r
        used = {t[0] for t in self.types}
        name = r.choice([n for n in ["List", "Tree", "Opt", "Pair", "Color", "Box", "Shape", "T%d" % len(self.types)]
                         if n not in used or not self.tame and r.random() < 0.02])
        params = r.sample(["a", "b", "k"], r.choice([0, 0, 1, 1, 2]))
        prefix = name[0] + str(len(self.types))
        ctors = []
        n = r.choice([1, 2, 2, 3, 4])
        for i in range(n):
            cname = {0: "A", 1: "B", 2: "C", 3: "D"}[i] + prefix
            fields = []
            for _ in range(r.choice([0, 1, 1, 2, 3]) if i > 0 or n == 1 else r.choice([0, 0, 1])):
                x = r.random()
                if x < 0.4 and i > 0:
                    fields.append("rec")
                elif x < 0.75 and params:
                    fields.append(("tv", r.choice(params)))
                else:
                    fields.append(self.rand_type(1, params))
            ctors.append((cname, fields))
        toks = ["type"]
        e1, e2 = r.random() < export, r.random() < export
        if e1:
            toks = ["export"] + toks
        toks += [name] + params + ["="] + (["export"] if e2 else [])
        for i, (c, fs) in enumerate(ctors):
            if i > 0 or r.random() < 0.5:
                toks.append("|")
            toks.append(c)
            for f in fs:
                toks += ["rec"] if f == "rec" else self.show_type(f, 2)
        toks.append(";")
        self.items.append(toks)
        td = (name, params, ctors, None)
        self.types.append(td)
        for c in self.ctor_values(td):
            self.values.append(c)
        if e1 or e2:
            self.exports.append((td, e1, e2))
        return td

    def ctor_values(self, td):
        name, params, ctors, q = td
        whole = ("named", name, tuple(("tv", p) for p in params))
        for c, fs in ctors:
            t = fn(*[whole if f == "rec" else f for f in fs], whole)
            yield (([q, "."] if q else []) + [c], t)

    def value_item(self, t=None, export=None, name=None):
        r = self.r
        export = r.random() < 0.5 if export is None else export
        self.counter += 1
        name = name or (r.choice(NAMES) if not self.strict and r.random() < 0.5 else "g%d" % self.counter)
        poly = t is None and r.random() < 0.3
        if t is None:
            t = self.rand_type(2, ["a", "b"] if poly else ())
        annotated = poly or r.random() < 0.6
        self.fuel = 40
        body = self.expr(t, self.maxdepth, [])
        toks = (["export"] if export else []) + ["let", name]
        if annotated:
            toks += [":"] + self.show_type(t)
        toks += ["="] + body + [";"]
        self.items.append(toks)
        if annotated or not tvs(t):
            self.values.append(([name], t))
            if export:
                self.exported.append((name, t))
        return name, t

    # -- modules

    def import_item(self, path, exported, types):
        """Imports a module with the given exported values [(name, type)] and
        types [(td, type is exported, constructors are exported)]."""
        r = self.r
        self.counter += 1
        alias = r.choice(["M", "m", "m%d" % self.counter][2 * self.tame:]) if r.random() < 0.8 else None
        members = [n for n, _ in exported]
        for td, e1, e2 in types:
            if e1:
                members.append(td[0])
            if e2:
                members += [c for c, _ in td[2]]
        exposed = None
        if members and (alias is None or r.random() < 0.4):
            exposed = r.sample(members, r.randrange(1, min(4, len(members)) + 1))
            if r.random() < self.noise:
                exposed.append(r.choice(["nope", "Nope"]))
        toks = ["import"] + ([alias] if alias else [])
        if exposed is not None or alias is None:
            toks.append("(")
            for i, n in enumerate(exposed or []):
                toks += ([","] if i else []) + [n]
            toks.append(")")
        toks += ["from", '"%s"' % path, ";"]
        self.items.append(toks)
        exposed = exposed or []
        if alias:
            # a later module of the same name hides an earlier one
            self.values = [v for v in self.values if not (len(v[0]) == 3 and v[0][0] == alias)]
            self.types = [(t[0], t[1], t[2], "hidden" if t[3] == alias else t[3]) for t in self.types]

        def refer(n):
            if n in exposed and (not alias or r.random() < 0.7):
                return [n]
            return [alias, "."] + [n] if alias else None

        for n, t in exported:
            x = refer(n)
            if x:
                self.values.append((x, t))
        for td, e1, e2 in types:
            name, params, ctors, _ = td
            q = alias if alias else None
            if e2 and (alias or all(c in exposed for c, _ in ctors)):
                nd = (name, params, ctors, q)
                if e1 and (alias or name in exposed):
                    self.types = [t for t in self.types if t[0] != name]
                    self.types.append(nd)
                for c in self.ctor_values(nd):
                    self.values.append(c)
            elif e1 and alias:
                # nothing can be made of it here
                self.opaque.append((name, params, [], q))

    # -- expressions

    def candidates(self, t, scope):
        """Things in scope whose result, when applied to some arguments, is t."""
        out = []
        seen = set()
        for toks, vt in reversed(scope + self.values) if len(self.values) < 40 else reversed(
                scope + self.r.sample(self.values, 40)):
            key = tuple(toks)
            if key in seen:
                continue
            seen.add(key)
            args = []
            cur = vt
            while True:
                m = {}
                if self.scheme(vt) and match_type(cur, t, m) or cur == t:
                    out.append((toks, args, m, vt))
                    break
                if cur[0] != "fn":
                    break
                args = args + [cur[1]]
                cur = cur[2]
        return out

    def scheme(self, vt):
        return True

    def literal(self, t):
        r = self.r
        if t == INT:
            if r.random() < self.big:
                return [str(r.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64 - 2,
                                      r.getrandbits(64), r.getrandbits(40)]))]
            return [r.choice(["0", "1", "2", "3", "4", "5", "7", "10", "00", "42", "100", "255"])]
        if t == BOOL:
            return [r.choice(["true", "false"])]
        if t == STR:
            return [r.choice(['""', '"a"', '"ab"', '"hello, world"', '"é"', '"1"', '"x y  z"', '"日本"', '"-- no"', '"😀!"',
                              '"42"', '"tab\t"'])]
        return None

    def atom(self, toks):
        if len(toks) == 1 or toks[0] == "(" and self.closes(toks):
            return toks
        if len(toks) == 3 and toks[1] == ".":
            return toks
        return ["("] + toks + [")"]

    @staticmethod
    def closes(toks):
        d = 0
        for i, t in enumerate(toks):
            d += t == "("
            d -= t == ")"
            if d == 0:
                return i == len(toks) - 1
        return False

    def expr(self, t, depth, scope):
        r = self.r
        self.fuel -= 1
        if r.random() < self.noise:
            x = r.random()
            if x < 0.2:
                return [r.choice(["undef", "Undef", "M"])]
            if x < 0.25:
                return ["M", ".", r.choice(["x", "y"])]
            if x < 0.65 and scope:
                return list(r.choice(scope)[0])
            if x < 0.75 and self.values:
                return list(r.choice(self.values)[0])
            t = self.rand_type(1)
        if r.random() < self.holes and t[0] != "folded":
            return ["?" + r.choice(["h", "todo", "x1"])]
        if depth <= 0 or self.fuel <= 0:
            return self.leaf(t, depth, scope)
        x = r.random()
        if t[0] == "folded":
            others = [s for s in scope if s[1][0] == "folded"]
            if others and self.noise and r.random() < 0.3:
                return list(r.choice(others)[0])
            if x < 0.3:
                y = self.fresh()
                a = self.rand_type(1)
                return (["let", y, "="] + self.expr(a, depth - 1, scope) + [";"]
                        + self.expr(t, depth - 1, self.without(scope, y) + [([y], a)]))
            if x < 0.6:
                return (["if"] + self.expr(BOOL, depth - 1, scope) + ["then"] + self.expr(t, depth - 1, scope)
                        + ["else"] + self.expr(t, depth - 1, scope))
            return self.leaf(t, depth, scope)
        if self.folds and r.random() < self.folds and self.types:
            e = self.local_fold(t, depth, scope)
            if e:
                return e
        if x < 0.12:
            return self.let(t, depth, scope)
        if x < 0.2:
            return (["if"] + self.expr(BOOL, depth - 1, scope) + ["then"] + self.expr(t, depth - 1, scope)
                    + ["else"] + self.expr(t, depth - 1, scope))
        if x < 0.32 and self.types:
            m = self.match(t, depth, scope)
            if m:
                return m
        if x < 0.38:
            a = self.rand_type(1)
            f = self.expr(("fn", a, t), depth - 1, scope)
            if r.random() < 0.5:
                e = self.expr(a, depth - 1, scope)
                return self.operand(e) + ["|>"] + self.operand(f)
            return self.atom(f) + self.atom(self.expr(a, depth - 1, scope))
        if x < 0.42:
            return ["("] + self.expr(t, depth - 1, scope) + [")"]
        if t == INT and x < 0.65:
            return self.binary(["+", "-", "*", "/", "%"], depth, scope)
        if t == BOOL and x < 0.7:
            return self.binary(["<", "<=", ">", ">=", "==", "!="], depth, scope)
        if t[0] == "fn" and x < 0.8:
            return self.lam(t, depth, scope)
        cs = self.candidates(t, scope)
        if cs and r.random() < 0.9:
            big = [c for c in cs if c[1]]
            toks, args, m, vt = r.choice(big if big and depth >= 2 and r.random() < 0.7 else cs)
            return self.apply(toks, args, m, depth, scope)
        return self.leaf(t, depth, scope)

    def apply(self, toks, args, m, depth, scope):
        out = list(toks)
        m = dict(m)
        for a in args:
            for v in tvs(a):
                if v not in m and (not any(v in tvs(x[1]) for x in scope)):
                    m[v] = self.rand_type(0)
            if self.tame and a == INT and toks[-1] in LOOPS:
                n = self.r.randrange(6)
                out += [str(n)] if self.r.random() < .6 else \
                    ["("] + self.operand(self.expr(INT, depth - 1, scope)) + ["%", str(n + 1)] + [")"]
                continue
            out += self.atom(self.expr(subst(a, m), depth - 1, scope))
        return out

    LOW = {"|>": 1, "<": 3, "<=": 3, ">": 3, ">=": 3, "==": 3, "!=": 3, "+": 7, "-": 7, "*": 9, "/": 9, "%": 9}

    def operand(self, toks):
        if toks[0] in ("let", "if", "match", "\\") or any(t in self.LOW for t in toks):
            return ["("] + toks + [")"] if not self.closes(toks) or toks[0] != "(" else toks
        return toks

    def binary(self, ops, depth, scope):
        op = self.r.choice(ops)
        a = self.expr(INT, depth - 1, scope)
        b = self.expr(INT, depth - 1, scope)
        # without parentheses the meaning depends on grouping
        if not ({"|>"} | set(t for t in self.LOW if self.LOW[t] == 3)) & set(a + b) and self.r.random() < 0.6 and op in "+-*/%":
            if a[0] not in ("let", "if", "match", "\\") and not self.open_end(a):
                if b[0] not in ("let", "if", "match", "\\"):
                    return a + [op] + b
        return self.operand(a) + [op] + self.operand(b)

    @staticmethod
    def open_end(toks):
        d = 0
        for t in toks:
            if t == "(":
                d += 1
            elif t == ")":
                d -= 1
            elif d == 0 and t in ("let", "if", "\\", "match"):
                return True
        return False

    def lam(self, t, depth, scope):
        r = self.r
        x = self.fresh()
        if t[1][0] == "named" and r.random() < 0.5:
            td = next((d for d in self.types if d[0] == t[1][1]), None)
            if td:
                m = dict(zip(td[1], t[1][2]))
                return (["\\", "fold", x, "->"]
                        + self.fold_body(x, td, m, t, depth - 1, self.without(scope, x)))
        return ["\\", x, "->"] + self.expr(t[2], depth - 1, scope + [([x], t[1])])

    def local_fold(self, t, depth, scope):
        r = self.r
        td = r.choice(self.types)
        outer = [s[1][2] for s in scope if s[1][0] == "folded" and not tvs(s[1][2])]
        res = r.choice(outer) if outer and r.random() < 0.7 else r.choice([INT, INT, BOOL, fn(INT, INT)])
        args = tuple(self.rand_type(0) for _ in td[1])
        ft = ("fn", ("named", td[0], args), res)
        g, x = self.fresh(), self.fresh()
        inner = self.without(scope, g) + [([g], ft)]
        return (["let", g, ":"] + self.show_type(ft) + ["=", "\\", "fold", x, "->"]
                + self.fold_body(x, td, dict(zip(td[1], args)), ft, depth - 1, self.without(scope, x)) + [";"]
                + self.expr(t, depth - 1, inner))

    def fold_body(self, x, td, m, t, depth, scope):
        inner = scope + [([x], ("folded", t[1], t[2]))]
        if self.r.random() < 0.6:
            return self.match_on([x], td, m, t[2], t[2], depth, inner)
        return self.expr(t[2], depth, inner)

    @staticmethod
    def without(scope, x):
        return [s for s in scope if s[0] != [x]]

    def match(self, t, depth, scope):
        folded = [s for s in scope if s[1][0] == "folded"]
        if folded and self.r.random() < 0.5:
            ft = self.r.choice(folded)[1]
            td = next((d for d in self.types if d[0] == ft[1][1]), None)
            if td:
                return self.match_on(self.expr(ft, depth - 1, scope), td, dict(zip(td[1], ft[1][2])), ft[2], t, depth, scope)
        td = self.r.choice(self.types)
        args = tuple(self.rand_type(0) for _ in td[1])
        whole = ("named", td[0], args)
        discr = self.expr(whole, depth - 1, scope)
        return self.match_on(discr, td, dict(zip(td[1], args)), whole, t, depth, scope)

    def match_on(self, discr, td, m, rec, t, depth, scope):
        r = self.r
        toks = ["match"] + discr + ["with"]
        ctors = list(td[2])
        if r.random() < 0.3:
            r.shuffle(ctors)
        if r.random() < self.noise * 3:
            if r.random() < 0.5 and len(ctors) > 1:
                ctors.pop(r.randrange(len(ctors)))
            else:
                ctors.insert(r.randrange(len(ctors) + 1), r.choice(ctors))
        for c, fs in ctors:
            vs = []
            inner = list(scope)
            for f in fs:
                v = self.fresh()
                while v in vs and r.random() > self.noise:
                    v = "w%d" % self.counter
                    self.counter += 1
                vs.append(v)
                ft = rec if f == "rec" else subst(f, m)
                inner = [s for s in inner if s[0] != [v]] + [([v], ft)]
            if r.random() < self.noise and vs:
                vs.pop()
            if td[3] and (self.tame or r.random() < 0.95):
                toks += ["|", td[3], "."]
            else:
                toks += ["|"]
            toks += [c] + vs + ["->"] + self.expr(t, depth - 1, inner)
        return toks + ["end"]

    def let(self, t, depth, scope):
        r = self.r
        x = self.fresh()
        a = self.rand_type(2)
        toks = ["let", x]
        if r.random() < 0.3:
            # a local generic function
            which = r.choice(["id", "const", "app"])
            ty, body = {
                "id": (fn(("tv", "q"), ("tv", "q")), ["\\", "i", "->", "i"]),
                "const": (fn(("tv", "q"), ("tv", "w"), ("tv", "q")), ["\\", "i", "->", "\\", "j", "->", "i"]),
                "app": (fn(fn(("tv", "q"), ("tv", "w")), ("tv", "q"), ("tv", "w")),
                        ["\\", "i", "->", "\\", "j", "->", "i", "j"]),
            }[which]
            toks += [":"] + self.show_type(ty) + ["="] + body + [";"]
            return toks + self.expr(t, depth - 1, self.without(scope, x) + [([x], ty)])
        if r.random() < 0.4:
            toks += [":"] + self.show_type(a)
        toks += ["="] + self.expr(a, depth - 1, scope) + [";"]
        return toks + self.expr(t, depth - 1, self.without(scope, x) + [([x], a)])

    def leaf(self, t, depth, scope):
        r = self.r
        cs = [c for c in self.candidates(t, scope) if not c[1]]
        if cs and r.random() < 0.75:
            return list(r.choice(cs)[0])
        lit = self.literal(t)
        if lit:
            return lit
        if t[0] == "fn":
            return ["\\", self.fresh(), "->"] + self.leaf(t[2], depth - 1, scope)
        if t[0] == "named":
            td = next((d for d in self.types if d[0] == t[1]), None)
            if td:
                m = dict(zip(td[1], t[2]))
                cts = [c for c in td[2] if "rec" not in c[1]] or td[2]
                if depth < -2:
                    cts = sorted(cts, key=lambda c: len(c[1]))[:1]
                if depth > -5:
                    c, fs = r.choice(cts)
                    out = ([td[3], "."] if td[3] else []) + [c]
                    for f in fs:
                        out += self.atom(self.leaf(t if f == "rec" else subst(f, m), depth - 1, scope))
                    return out
        return ["?leaf"]


def layout(rng, items, style=None):
    """Text of items with random white space and comments."""
    style = style if style is not None else rng.random()
    out = []
    for it in items:
        for i, t in enumerate(it):
            if i > 0:
                p = it[i - 1]
                tight = not (p[-1].isalnum() or p[-1] in '_"') or not (t[0].isalnum() or t[0] in '_?"')
                if p in ("-", "<", ">", "=", "!", "|", "?") or t in ("-", ">", "=", "->", "==", ">=", "<=", "|", "|>"):
                    tight = False
                if p == "--" or p[-1].isalnum() and t[0] == "?":
                    tight = False
                x = rng.random()
                if style < 0.15 and tight:
                    pass
                elif t == "|" and x < 0.5:
                    out.append("\n  ")
                elif style > 0.8 and x < 0.15:
                    out.append(rng.choice(["\n", "  ", "\r\n", " -- c\n", "\n\n", " -- let é ;\n ", "\n-- x\n"]))
                elif x < 0.05:
                    out.append("\n    ")
                else:
                    out.append(" ")
            out.append(t)
        out.append("\n" if style < 0.9 else rng.choice(["\n", " ", "\n\n", " -- end\n", "", "\r\n"]))
    return "".join(out)


SOUP = ["import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "int", "bool", "string",
        "true", "false", "fold", "rec", ":", "=", "+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>", "(", ")",
        "\\", "->", "|", ",", ".", ";", "a", "b", "foo", "Bar", "X", "?h", "12", "0", "12a", '"s"', '"é"', '"open', "!",
        "?", "#", "\t", "é", "-- c\n", "\n", "18446744073709551616", "18446744073709551615"]


def mutate_tokens(rng, toks, n):
    toks = list(toks)
    for _ in range(n):
        x = rng.random()
        i = rng.randrange(len(toks) + 1)
        if x < 0.3 and toks:
            toks.pop(min(i, len(toks) - 1))
        elif x < 0.55:
            toks.insert(i, rng.choice(SOUP))
        elif x < 0.75 and toks:
            toks[min(i, len(toks) - 1)] = rng.choice(SOUP)
        elif x < 0.85 and len(toks) > 1:
            j = rng.randrange(len(toks))
            i = min(i, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif toks:
            i = min(i, len(toks) - 1)
            j = min(len(toks), i + rng.randrange(1, 5))
            k = j if rng.random() < 0.4 else rng.randrange(len(toks) + 1)
            toks[k:k] = toks[i:j]
    return toks


def mutate_text(rng, s, n):
    for _ in range(n):
        i = rng.randrange(len(s) + 1)
        x = rng.random()
        if x < 0.4:
            s = s[:i] + rng.choice(list("()\\\"'!?|;:=.-><\n\r\t é日😀#aZ09_ ")) + s[i:]
        elif x < 0.7:
            s = s[:i] + s[i + 1:]
        else:
            j = min(len(s), i + rng.randrange(1, 12))
            s = s[:i] + s[j:]
    return s


def program(rng, noise=0.0, items=None, holes=0.02, depth=4, big=0.1, strict=False, types=True, export=0.2,
            folds=0.0):
    g = Gen(rng, noise=noise, holes=holes, depth=depth, big=big, strict=strict, folds=folds)
    n = items or rng.choice([1, 2, 3, 3, 4, 5])
    for i in range(n):
        if types and (i == 0 and rng.random() < 0.8 or rng.random() < 0.25):
            g.type_item(export)
        else:
            g.value_item()
    if not any(it[0] == "let" or "let" in it[:2] for it in g.items):
        g.value_item(export=True)
    return g


def soup(rng):
    n = rng.choice([1, 2, 3, 5, 8, 13, 21, 34])
    return " ".join(rng.choice(SOUP) for _ in range(n))


def broken(rng):
    """A program with syntax errors (most of the time)."""
    g = program(rng, noise=rng.choice([0, 0, 0.05]), depth=3)
    x = rng.random()
    if x < 0.6:
        k = rng.randrange(len(g.items))
        g.items[k] = mutate_tokens(rng, g.items[k], rng.choice([1, 1, 1, 2, 3]))
        return layout(rng, g.items)
    if x < 0.7:
        return layout(rng, [mutate_tokens(rng, it, rng.choice([0, 1, 2])) for it in g.items])
    return mutate_text(rng, layout(rng, g.items), rng.choice([1, 1, 2, 4, 8]))


# -- modules

def parse_type(toks):
    """Type of a list of tokens of its text."""
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def atom():
        t = peek()
        pos[0] += 1
        if t == "(":
            r = arrow()
            pos[0] += 1
            return r
        if t in ("int", "bool", "string"):
            return (t,)
        if t == "rec":
            return "rec"
        if t[0].islower():
            return ("tv", t)
        return ("named", t, ())

    def app():
        t = peek()
        if t and t[0].isupper():
            pos[0] += 1
            if peek() == ".":
                pos[0] += 1
                t = peek()
                pos[0] += 1
            args = []
            while peek() and (peek() == "(" or peek()[0].isalpha()) and peek() != "rec":
                args.append(atom())
            return ("named", t, tuple(args))
        if len(toks) > pos[0] + 1 and toks[pos[0] + 1] == ".":
            pos[0] += 2
            return app()
        return atom()

    def arrow():
        a = app()
        if peek() == "->":
            pos[0] += 1
            return ("fn", a, arrow())
        return a

    return arrow()


def scan_exports(src):
    """Exported values and types of a source in which all of them are annotated."""
    import re
    toks = re.findall(r"--[^\n]*|\"[^\"]*\"|->|[A-Za-z_][A-Za-z0-9_]*|\S", src)
    toks = [t for t in toks if not t.startswith("--")]
    values, types = [], []
    i = 0
    while i < len(toks):
        if toks[i] == "export" and toks[i + 1] == "let":
            j = i + 4
            while toks[j] != "=":
                j += 1
            values.append((toks[i + 2], parse_type(toks[i + 4:j])))
            i = j
        elif toks[i] == "export" and toks[i + 1] == "type":
            name = toks[i + 2]
            j = i + 3
            params = []
            while toks[j] != "=":
                params.append(toks[j])
                j += 1
            e2 = toks[j + 1] == "export"
            j += 2 if e2 else 1
            ctors, cur = [], None
            while toks[j] != ";":
                if toks[j] == "|":
                    cur = None
                elif cur is None:
                    cur = []
                    ctors.append((toks[j], cur))
                elif toks[j] == "(":
                    k, d = j, 0
                    while True:
                        d += {"(": 1, ")": -1}.get(toks[k], 0)
                        if d == 0:
                            break
                        k += 1
                    cur.append(parse_type(toks[j + 1:k]))
                    j = k
                elif toks[j + 1] == ".":
                    cur.append(parse_type([toks[j + 2]]))
                    j += 2
                else:
                    cur.append(parse_type([toks[j]]))
                j += 1
            types.append(((name, params, ctors, None), True, e2))
            i = j
        else:
            i += 1
    return values, types


class Std:
    """Interfaces of standard modules."""
    cache = None

    @classmethod
    def get(cls, root):
        if cls.cache is None:
            cls.cache = {}
            for m in ("option", "result", "list", "string", "int", "array"):
                with open(root + "/" + m + ".tic", encoding="utf-8") as f:
                    cls.cache[m] = scan_exports(f.read())
        return cls.cache


def modules(rng, std=None, noise=0.0, depth=4, deps=None, **kw):
    """A list of (path, Gen), each module importing some of previous ones."""
    out = []
    n = rng.choice([0, 1, 1, 2]) if deps is None else deps
    for i in range(n + 1):
        g = Gen(rng, noise=noise if i == n else 0.0, depth=depth, **kw)
        for path, m in out:
            if rng.random() < 0.8:
                g.import_item(path, m.exported, m.exports)
        if std and rng.random() < 0.7:
            for m in rng.sample(sorted(std), rng.choice([1, 1, 2])):
                g.import_item("std/" + m, *std[m])
        if i == n and rng.random() < noise:
            g.items.append(["import", "bad", "from", rng.choice(['"nope"', '"cycle"', '"io"', '"std/nope"']), ";"])
        k = rng.choice([1, 2, 3, 4])
        for j in range(k):
            if rng.random() < 0.35:
                g.type_item(0.5)
            else:
                g.value_item()
        out.append(("m%d" % i if i < n else "main", g))
    return out


# -- programs without regard to types

class Wild:
    """Syntactically valid programs over a few names."""

    def __init__(self, rng, names=None, ctors=None, types=None, mods=("M", "a"),
                 scoped=0.8, depth=4, paths=(), annotate=0.4, kinds=None):
        self.r = rng
        odd = ["a_b", "_u", "x1", "aB", "_", "__x", "let1", "int2", "A", "f_"]
        names = names or ["a", "b", "x", "f"][:rng.choice([2, 3, 4])] + rng.sample(odd, rng.choice([0, 0, 1, 2]))
        ctors = ctors or ["A", "B", "C"][:rng.choice([2, 3])] + rng.sample(["B_", "_D", "E1", "a"], rng.choice([0, 0, 1]))
        types = types or ["A", "T", "Int"][:rng.choice([2, 3])] + rng.sample(["T_", "_T", "t"], rng.choice([0, 0, 1]))
        self.names, self.ctors, self.types, self.mods = names, ctors, types, mods
        self.scoped = scoped
        self.depth = depth
        self.paths = paths
        self.annotate = annotate
        self.vs, self.cs, self.ts, self.ms = [], [], [], []
        self.kinds = kinds or ["let", "let", "let", "let", "type", "type", "import"]
        self.members = {}

    def pick(self, known, all_):
        if known and self.r.random() < self.scoped:
            return self.r.choice(known)
        return self.r.choice(all_)

    def ty(self, d, tvars, rec=False):
        r = self.r
        x = r.random()
        if rec and x < 0.3:
            return ["rec"]
        if d <= 0 or x < 0.5:
            if x < 0.15 and tvars:
                return [r.choice(tvars)]
            if x < 0.3:
                return [self.pick(self.ts, self.types)]
            return [r.choice(["int", "int", "bool", "string"])]
        if x < 0.62:
            return self.ty(d - 1, tvars, rec) + ["->"] + self.ty(d - 1, tvars, rec)
        if x < 0.7:
            return ["("] + self.ty(d - 1, tvars, rec) + [")"]
        out = self.qualified(self.pick(self.ts, self.types), "T")
        for _ in range(r.choice([0, 1, 1, 2])):
            out += self.tatom(d - 1, tvars, rec)
        return out

    def tatom(self, d, tvars, rec):
        t = self.ty(d, tvars, rec)
        return t if len(t) == 1 else ["("] + t + [")"]

    def qualified(self, n, what):
        r = self.r
        if self.ms and r.random() < 0.25 or r.random() < 0.02:
            m = self.pick(self.ms, self.mods)
            ks = self.members.get(m)
            return [m, ".", r.choice(ks) if ks and r.random() < 0.8 else n]
        return [n]

    def expr(self, d, vs):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.3:
            y = r.random()
            if y < 0.62:
                return self.qualified(self.pick(vs, self.names), "v")
            if y < 0.74:
                return self.qualified(self.pick(self.cs, self.ctors), "c")
            return [r.choice(["0", "1", "7", "true", "false", '"s"', "?h"])]
        if x < 0.42:
            return self.atom(d - 1, vs) + self.atom(d - 1, vs)
        if x < 0.54:
            op = r.choice(["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"])
            return self.operand(d - 1, vs) + [op] + self.operand(d - 1, vs)
        if x < 0.66:
            n = r.choice(self.names)
            return ["\\"] + (["fold"] if r.random() < 0.2 else []) + [n, "->"] + self.expr(d - 1, [n] + vs)
        if x < 0.78:
            n = r.choice(self.names)
            ann = [":"] + self.ty(2, self.tvars()) if r.random() < self.annotate else []
            return ["let", n] + ann + ["="] + self.expr(d - 1, vs) + [";"] + self.expr(d - 1, [n] + vs)
        if x < 0.83:
            return (["if"] + self.expr(d - 1, vs) + ["then"] + self.expr(d - 1, vs) + ["else"] + self.expr(d - 1, vs))
        if x < 0.87:
            return ["("] + self.expr(d - 1, vs) + [")"]
        out = ["match"] + self.expr(d - 1, vs) + ["with"]
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            ns = [r.choice(self.names) for _ in range(r.choice([0, 0, 1, 1, 2]))]
            out += ["|"] + self.qualified(self.pick(self.cs, self.ctors), "c") + ns + ["->"] + self.expr(d - 1, ns + vs)
        return out + ["end"]

    def atom(self, d, vs):
        e = self.expr(d, vs)
        if len(e) == 1 or len(e) == 3 and e[1] == "." or e[0] == "(" and Gen.closes(e) and self.r.random() < 0.9:
            return e
        return ["("] + e + [")"]

    def operand(self, d, vs):
        e = self.expr(d, vs)
        if e[0] in ("let", "if", "match", "\\") or self.r.random() < 0.3:
            return ["("] + e + [")"]
        return e

    def tvars(self):
        return ["a", "t"] if self.r.random() < 0.7 else []

    def item(self, kind=None):
        r = self.r
        k = kind or r.choice(self.kinds)
        if k == "import" and not self.paths:
            k = "let"
        exp = ["export"] if r.random() < 0.3 else []
        if k == "let":
            n = r.choice(self.names)
            ann = [":"] + self.ty(2, self.tvars()) if r.random() < self.annotate else []
            e = self.expr(self.depth, list(self.vs))
            self.vs.insert(0, n)
            return exp + ["let", n] + ann + ["="] + e + [";"]
        if k == "type":
            n = r.choice(self.types)
            params = [r.choice(["a", "t", "int2"]) for _ in range(r.choice([0, 0, 1, 1, 2]))]
            out = exp + ["type", n] + params + ["="] + (["export"] if r.random() < 0.3 else [])
            if r.random() < 0.7:
                self.ts.insert(0, n)
            cs = []
            for i in range(r.choice([0, 1, 1, 2, 2, 3])):
                c = r.choice(self.ctors)
                if c in cs and r.random() < 0.7:
                    continue
                cs.append(c)
                out += (["|"] if i or r.random() < 0.5 else []) + [c]
                for _ in range(r.choice([0, 0, 1, 1, 2])):
                    out += self.tatom(1, params, True)
            self.cs = cs + self.cs
            if n not in self.ts:
                self.ts.insert(0, n)
            return out + [";"]
        path, members = r.choice(self.paths)
        out = ["import"]
        m = None
        if r.random() < 0.7:
            m = r.choice(self.mods)
            out.append(m)
        if m is None or r.random() < 0.6:
            ns = [r.choice(list(members) * 3 + list(self.names) + list(self.ctors)) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            out.append("(")
            for i, n in enumerate(ns):
                out += ([","] if i else []) + [n]
                if n[0].isupper():
                    self.cs.insert(0, n)
                    self.ts.insert(0, n)
                else:
                    self.vs.insert(0, n)
            out.append(")")
        if m:
            self.ms.insert(0, m)
            self.members[m] = list(members)
        return out + ["from", '"%s"' % path, ";"]

    def program(self, n=None):
        return [self.item() for _ in range(n or self.r.choice([1, 2, 3, 4, 5, 6]))]


def wild(rng, **kw):
    return [("main", layout(rng, Wild(rng, **kw).program(), rng.random() * 0.85))]


# modules for names to come from
LIB = [
    ("lib", """export type A = export B int | A;
export type T a = export C a rec | D;
type Int a = export I a;
export let a = 1;
export let f : x -> x = \\y -> y;
let b = 2;
export let x : int -> (bool -> string) -> A = \\n -> \\g -> B b;
export let d : T int = D;
export let i : Int int = I b;
"""),
    ("lib2", """import lib from "lib";
import (A, B) from "lib";
export let b : A -> lib.A = \\a -> a;
export let a : lib.A = B 3;
export type T t = export A t | C lib.A rec;
"""),
]


def members(src):
    import re
    return sorted(set(re.findall(r"export let (\w+)", src) + re.findall(r"export type (\w+)", src)
                      + [w for l in src.splitlines() if "= export" in l for w in re.findall(r"\b[A-Z]\w*", l)]))


def wild_modules(rng, **kw):
    paths = [(p, members(s)) for p, s in LIB] + ([("nope", ["a"]), ("cycle", ["a"]), ("io", [])] if rng.random() < 0.1 else [])
    items = Wild(rng, paths=paths, kinds=["let", "let", "let", "type", "import", "import"], **kw).program(
        rng.choice([3, 4, 5, 6]))
    return LIB + [("main", layout(rng, items, rng.random() * 0.85))]


# -- emphasis on one part of the language

OPS = ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!=", "|>"]


def operators(rng):
    """Expressions of many operators, hardly any parentheses."""
    def operand(d):
        x = rng.random()
        if x < 0.72 or d <= 0:
            ts = [rng.choice(["a", "b", "f", "X", "1", "2", '"s"', "true", "?h", "M . a", "( a )"])]
            while rng.random() < 0.25:
                ts.append(rng.choice(["a", "X", "3", "( f a )", "M . X", "( a + b )"]))
            return ts
        if x < 0.78:
            return ["\\", "x", "->"] + expr(d - 1)
        if x < 0.81:
            return ["\\", "fold", "x", "->"] + expr(d - 1)
        if x < 0.86:
            return ["let", "x", "="] + expr(d - 1) + [";"] + expr(d - 1)
        if x < 0.91:
            return ["if"] + expr(d - 1) + ["then"] + expr(d - 1) + ["else"] + expr(d - 1)
        if x < 0.96:
            return ["match"] + expr(d - 1) + ["with", "|", "X", "y", "->"] + expr(d - 1) + ["end"]
        return ["("] + expr(d - 1) + [")"]

    def expr(d):
        out = operand(d)
        while rng.random() < 0.62 and len(out) < 40:
            out += [rng.choice(OPS)] + operand(d)
        return out

    items = []
    for _ in range(rng.choice([1, 1, 2])):
        items.append(["let", "v"] + (rng.choice([[], [], [":", "int"], [":", "a", "->", "M", ".", "T", "a", "->", "b"]]))
                     + ["="] + expr(2) + [";"])
    if rng.random() < 0.25:
        k = rng.randrange(len(items))
        items[k] = mutate_tokens(rng, items[k], 1)
    return layout(rng, items)


MATCH_LIB = ("shapes", """export type Shape = export Dot | Line int | Rect int int | Path rec int;
export type Closed = Hidden | Shown;
export type One a = export One a;
export let closed : Closed = Hidden;
""")


def matches(rng):
    """Matches over subsets of constructors, with repetitions."""
    types = []
    items = []
    names = list("ABCDEFGHIJ")
    imported = rng.random() < 0.4
    if imported:
        form = rng.random()
        if form < 0.5:
            items.append(["import", "s", "from", '"shapes"', ";"])
            types.append((["s", ".", "Shape"], [(["s", ".", c], n) for c, n in (("Dot", 0), ("Line", 1), ("Rect", 2), ("Path", 2))]))
        else:
            items.append(["import", "(", "Shape", ",", "Dot", ",", "Line", ",", "Rect", ",", "Path", ")", "from", '"shapes"', ";"])
            types.append((["Shape"], [([c], n) for c, n in (("Dot", 0), ("Line", 1), ("Rect", 2), ("Path", 2))]))
    for k in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6]) if k else rng.choice([1, 2, 3, 4])
        cs = []
        for i in range(n):
            c = rng.choice(names) + str(k) if rng.random() < 0.15 else names[i] + str(k)
            cs.append(([c], rng.choice([0, 0, 1, 2])))
        toks = ["type", "T%d" % k, "="]
        for i, (c, f) in enumerate(cs):
            toks += (["|"] if i else []) + c
            for _ in range(f):
                toks.append(rng.choice(["int", "rec", "bool"]))
        items.append(toks + [";"])
        types.append((["T%d" % k], cs))

    def rows(t, d, vs):
        cs = list(t[1])
        x = rng.random()
        if x < 0.5:
            rng.shuffle(cs)
        elif x < 0.7:
            cs = [c for c in cs if rng.random() < 0.7]
        elif x < 0.95:
            cs = [rng.choice(cs) for _ in range(rng.randrange(0, len(cs) + 3))] if cs else []
        if rng.random() < 0.1:
            u = rng.choice(types)
            if u[1]:
                cs.insert(rng.randrange(len(cs) + 1), rng.choice(u[1]))
        out = []
        for c, n in cs:
            if rng.random() < 0.04:
                n += rng.choice([-1, 1])
            ps = ["p%d" % i for i in range(max(n, 0))]
            out += ["|"] + c + ps + ["->"] + body(d - 1, vs)
        return out

    def body(d, vs):
        if d > 0 and rng.random() < 0.5:
            i = rng.randrange(len(types))
            x = rng.random()
            disc = ["x%d" % i] if x < 0.8 else rng.choice([["1"], ["x%d" % rng.randrange(len(types))],
                                                           ["(", "\\", "q", "->", "q", ")"], ["undef"], ["?h"]])
            return ["match"] + disc + ["with"] + rows(types[i], d, vs) + ["end"]
        return [rng.choice(["1", "2", "1", "true"])] if rng.random() < 0.2 else ["1"]

    for v in range(rng.choice([1, 2, 2, 3])):
        toks = ["let", "v%d" % v]
        if rng.random() < 0.5:
            toks.append(":")
            for t in types:
                toks += t[0] + ["->"]
            toks.append("int")
        toks.append("=")
        for i in range(len(types)):
            toks += ["\\"] + (["fold"] if rng.random() < 0.15 else []) + ["x%d" % i, "->"]
        i = rng.randrange(len(types))
        toks += ["match", "x%d" % i, "with"] + rows(types[i], 2, []) + ["end", ";"]
        items.append(toks)
    return ([MATCH_LIB] if imported else []) + [("main", layout(rng, items, rng.random() * .8))]


def generic(rng):
    """Items in which type variables and inference matter."""
    w = Wild(rng, names=("a", "b", "x", "f"), ctors=("P", "N"), types=("T",), scoped=1, depth=rng.choice([2, 3]),
             annotate=rng.choice([.3, .7]), kinds=["let"])
    out = [["type", "T", "a", "b", "=", "N", "|", "P", "a", "(", "b", "->", "a", ")", "rec", ";"]]
    w.ts, w.cs = ["T"], ["N", "P"]
    pool = [
        ["let", "f", ":", "a", "->", "a", "=", "\\", "x", "->", "x", ";"],
        ["let", "f", "=", "\\", "x", "->", "x", ";"],
        ["let", "f", ":", "a", "->", "b", "->", "a", "=", "\\", "x", "->", "\\", "y", "->", "x", ";"],
        ["let", "b", ":", "(", "a", "->", "b", ")", "->", "T", "a", "b", "=", "\\", "x", "->", "N", ";"],
        ["let", "x", ":", "T", "a", "int", "=", "N", ";"],
        ["let", "a", ":", "a", "->", "(", "b", "->", "a", ")", "->", "T", "a", "b", "=", "\\", "x", "->", "\\", "f", "->", "P", "x", "f", "N", ";"],
        ["let", "f", ":", "a", "->", "int", "=", "\\", "x", "->", "let", "k", ":", "b", "->", "a", "=", "\\", "y", "->", "x", ";", "1", ";"],
        ["let", "f", ":", "a", "->", "int", "=", "\\", "x", "->", "let", "k", ":", "a", "->", "a", "=", "\\", "y", "->", "y", ";", "k", "1", ";"],
        ["let", "x", "=", "let", "k", ":", "b", "->", "b", "=", "\\", "y", "->", "y", ";", "P", "(", "k", "1", ")", "(", "\\", "q", "->", "k", "2", ")", "N", ";"],
        ["let", "x", "=", "let", "k", "=", "\\", "y", "->", "y", ";", "P", "(", "k", "1", ")", "(", "\\", "q", "->", "k", "true", ")", "N", ";"],
        ["let", "a", ":", "T", "a", "b", "->", "int", "=", "\\", "fold", "x", "->", "match", "x", "with", "|", "N", "->", "0", "|", "P", "a", "f", "r", "->", "r", "+", "1", "end", ";"],
    ]
    for _ in range(rng.choice([0, 1, 2, 2])):
        it = list(rng.choice(pool))
        w.vs.insert(0, it[1])
        if rng.random() < 0.4:
            i = rng.randrange(3, len(it))
            if it[i] in ("a", "b", "int", "x", "y", "1"):
                it[i] = rng.choice(["a", "b", "x"] if it[i] not in ("int",) else ["a", "bool"])
        out.append(it)
    return out + w.program(rng.choice([1, 2, 3]))


# -- every small change of every production

SKELETONS = [t.split() for t in [
    'import m from "lib" ;', 'import m ( a , b ) from "lib" ;', 'import ( a ) from "lib" ;', 'import ( ) from "lib" ;',
    "export let x = 1 ;", "let x : int -> a = \\ y -> y ;", "let x : ( T a -> int ) -> m . T b ( T c ) = f ;",
    "export type T a b = export A | B a rec ( T a b ) | C ;", "type T = | A ;", "type T = A int m . T rec bool ;",
    "let x = let y : T a = z ; let w = y ; w ;",
    "let x = match f y with | A -> 1 | m . B p q -> 2 | C r -> match r with end end ;",
    "let x = if a then b else if c then d else e + 1 ;",
    "let x = \\ fold l -> \\ y -> f ( g l ) y ;",
    "let x = a + b * c - d / e % f ;", "let x = a b < c d |> e |> f g == h ;", "let x = ( m . f 1 ) true \"s\" ?h m . g ;",
    "let x = a |> \\ y -> y ;", "let x = ( let a = 1 ; a ) + ( if b then c else d ) ;",
]]
PIECES = ["import", "from", "export", "let", "match", "with", "end", "if", "then", "else", "type", "int", "rec", "true",
          "fold", ":", "=", "+", "<", "*", "|>", "(", ")", "\\", "->", "|", ",", ".", ";", "a", "T", "?h", "12", '"s"', "!", "#"]


def syntax_changes():
    """Descriptions of all single changes of the skeletons."""
    for s, toks in enumerate(SKELETONS):
        n = len(toks)
        for i in range(n):
            yield s, i, i + 1, None
            yield s, i, i, "\n"
            for j in range(i + 1, min(n, i + 4) + 1):
                yield s, j, j, (i, j)
                if j > i + 1:
                    yield s, i, j, None
            if i + 1 < n:
                yield s, i, i + 2, (i + 1, i)
        for i in range(n + 1):
            for p in PIECES:
                yield s, i, i, p
                if i < n:
                    yield s, i, i + 1, p


def changed(c):
    s, i, j, what = c
    toks = SKELETONS[s]
    if what is None:
        mid = []
    elif isinstance(what, str):
        mid = [what]
    elif what[0] < what[1]:
        mid = toks[what[0]:what[1]]
    else:
        mid = [toks[what[0]], toks[what[1]]]
    return toks[:i] + mid + toks[j:]


def syntax_programs(rng, chosen, per=4):
    out = []
    for k in range(0, len(chosen), per):
        items = []
        for c in chosen[k:k + per]:
            items.append(changed(c))
            if rng.random() < .5:
                items.append(list(rng.choice(SKELETONS)))
        out.append(layout(rng, items, rng.random() * .85))
    return out


# -- number literals of every length


def number_programs(rng, per=12):
    """Numbers around the largest, with zeros in front, of every length, and with something that is no digit in them."""
    texts = ["0" * n for n in (1, 2, 19, 20, 21, 40, 64)]
    for m in (2**31, 2**32, 2**53, 2**63, 10**19, 2**64, 2**65, 2**64 * 10, 2**128, 2**128 * 10):
        texts += ["0" * z + str(m + d) for d in range(-2, 3) for z in (0, 0, 1, 3, 30)]
    for n in range(1, 90):
        texts.append(rng.choice("123456789") + "".join(rng.choice("0123456789") for _ in range(n - 1)))
    for n in range(2, 60, 2):
        x = [rng.choice("0123456789") for _ in range(n)]
        x[rng.randrange(1, n)] = rng.choice("aexX_bfdZ")
        texts.append("".join(x))
    rng.shuffle(texts)
    out = []
    for k in range(0, len(texts), per):
        items = []
        for j, t in enumerate(texts[k:k + per]):
            body = rng.choice([[t], ["(", t, ")"], ["1", "+", t], [t, "<", "2"], ["\\", "q", "->", t], ["if", "true", "then", t, "else", "3"]])
            items.append(["let", "v%d" % j, "="] + body + [";"])
        out.append(layout(rng, items, rng.random() * .85))
    return out


# -- small terms without annotations, and with annotations of locals, where types have to be inferred

UNIFY_HEAD = """type B a = B a;
type P a b = P a b;
type L a = N | C a rec;
let pick : a -> a -> a = \\x -> \\y -> x;
let ap : (a -> b) -> a -> b = \\f -> \\x -> f x;
"""
BAD_SIGS = [("L (P p)", "-> p"), ("B (B)", "-> q -> B (B)"), ("p", "-> L (B p p) -> p"), ("p", "-> P p -> p"),
            ("P (L p) L", "-> p")]
UNIFY_SIGS = [("p", "-> p"), ("p", "-> q -> q"), ("p", "-> q -> p"), ("B p", "-> p"), ("p", "-> q -> P q p"), ("p", "-> P p q -> q"),
              ("L p", "-> q -> P q p"), ("(p -> q)", "-> p -> q"), ("p", "-> (q -> r) -> r -> q"), ("p", "-> q -> r -> r")]


class Unify:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def name(self):
        self.n += 1
        return "k%d" % self.n

    def expr(self, n, vs):
        """An expression of about n parts."""
        r = self.r
        x = r.random()
        if n <= 1:
            return r.choice(vs) if vs and x < .93 else r.choice(["N", "1", "ap", "pick"])
        k = r.randrange(1, n) if n > 1 else 1
        if x < .18:
            return "(pick %s %s)" % (self.expr(k, vs), self.expr(n - k, vs))
        if x < .24:
            return "(if true then %s else %s)" % (self.expr(k, vs), self.expr(n - k, vs))
        if x < .38:
            return "(P %s %s)" % (self.expr(k, vs), self.expr(n - k, vs))
        if x < .44:
            return "(B %s)" % self.expr(n - 1, vs)
        if x < .50:
            return "(C %s %s)" % (self.expr(k, vs), self.expr(n - k, vs))
        if x < .62 and vs:
            return "(%s %s)" % (r.choice(vs), self.expr(n - 1, vs))
        if x < .66:
            return "(%s %s)" % (self.expr(k, vs), self.expr(n - k, vs))
        if x < .72:
            v = self.name()
            return "(\\%s -> %s)" % (v, self.expr(n - 1, vs + [v]))
        if x < .80:
            v = self.name()
            return "(let %s = %s; %s)" % (v, self.expr(k, vs), self.expr(n - k, vs + [v, v]))
        if x < .92:
            v = self.name()
            a, rest = r.choice(UNIFY_SIGS if r.random() < .95 else BAD_SIGS)
            if r.random() < .3:
                for t in "pqr":
                    a, rest = a.replace(t, t + "1"), rest.replace(t, t + "1")
            ps = [self.name() for _ in range(rest.count("->") - rest.count("(q ->"))]
            if r.random() < .5 and vs:
                body = "pick %s %s" % (r.choice(ps), self.expr(k, vs))
                if r.random() < .5:
                    body = "let _ = %s; %s" % (body, r.choice(ps))
            else:
                body = self.expr(k, vs + ps + ps)
            return "(let %s : %s %s = %s%s; %s)" % (v, a, rest, "".join("\\%s -> " % q for q in ps), body,
                                                    self.expr(n - k, vs + [v]))
        a, b = self.name(), self.name()
        if x < .95:
            return "(match %s with | P %s %s -> %s end)" % (self.expr(k, vs), a, b, self.expr(n - k, vs + [a, b]))
        if x < .97:
            return "(match %s with | B %s -> %s end)" % (self.expr(k, vs), a, self.expr(n - k, vs + [a]))
        return "(match %s with | N -> %s | C %s %s -> %s end)" % (
            self.expr(k, vs), self.expr(1, vs), a, b, self.expr(n - k, vs + [a, b]))


def unify(rng):
    out = []
    for i in range(rng.choice([3, 5, 8])):
        u = Unify(rng)
        ps = ["x", "y"][:rng.choice([1, 2, 2])]
        out.append("%slet v%d = %s%s;\n" % (rng.choice(["", "export "]), i, "".join("\\%s -> " % p for p in ps),
                                          u.expr(rng.choice([2, 3, 4, 5, 6, 8]), ps)))
    head = UNIFY_HEAD
    if rng.random() < .3:
        # fields whose types are not types
        k = rng.randrange(3)
        head = head.replace("= P a b", "= P %s %s" % tuple(rng.sample(["a", "b", "(B)", "(P a)", "(B a int)", "(a b)", "(P b b)", "(b -> B)"], 2))
                            if k == 0 else "= P a b")
        head = head.replace("= B a", "= B %s" % rng.choice(["(B)", "(B -> a)", "(L a a)", "(B (B))", "(a int)", "rec"]) if k == 1 else "= B a")
        head = head.replace("C a rec", "C %s rec" % rng.choice(["(L)", "(a a)", "(B a -> L)", "(P a)", "(B (L a a))"]) if k == 2 else "C a rec")
        out.append("let z0 = \\p -> match p with | %s end;\n" % rng.choice(
            ["B a -> a + 1", "P a b -> b == a", "P a b -> a b", "P a b -> P b a", "N -> 1 | C a b -> a", "N -> p | C a b -> C (B a) b"]))
        rng.shuffle(out)
    return head + "".join(out)


# -- all pairs of small expressions in all contexts

PAIR_HEAD = """type T = A | B rec;
type U = C | D rec;
type P a = E | F a rec;
type Q a b = G a b | H;
let id : a -> a = \\x -> x;
let const : a -> b -> a = \\x -> \\y -> x;
let un = \\x -> x;
"""
PAIR_ATOMS = ["1", "true", '"s"', "t", "u", "pi", "pb", "q", "fi", "fb", "ft", "ff", "id", "const", "un", "E", "A", "B", "F", "G 1",
              "H", "C", "x", "y", "z", "w", "m", "(\\k -> k)", "(\\k -> k 1)", "(id id)", "(F 1 E)", "(const 1)", "?h", "l"]
PAIR_TYPES = ["int", "bool", "string", "T", "U", "P int", "P bool", "P a", "Q int bool", "Q a a", "int -> int", "T -> U", "a", "a -> a",
              "a -> b", "P (int -> int)", "(a -> a) -> int"]
PAIR_CONTEXTS = [
    "let r = if true then {0} else {1}; true",
    "let r = match t with | A -> {0} | B n -> {1} end; true",
    "let r = (\\a -> let s = if true then a else {0}; a) {1}; true",
    "let r = F {0} (F {1} E); true",
    "let r = {0} + {1}; true",
    "let r = {0} == {1}; true",
    "let r = {0} |> {1}; true",
    "let r = {0} {1}; true",
    "let r = id {0} {1}; true",
    "let r = if {0} then {1} else {1}; true",
    "let r = match {0} with | F a b -> {1} | E -> {1} end; true",
    "let r = match {0} with | A -> {1} | B a -> a end; true",
    "let r = match {0} with | D a -> a | C -> {1} end; true",
    "let r = let s = {0}; if true then s else {1}; true",
    "let r = G {0} {1}; match r with | G a b -> if true then a else b | H -> {0} end",
]


def pair_item(k, context, a, b):
    return ("let v%d : T -> U -> P int -> P bool -> Q int bool -> (int -> int) -> (int -> bool) -> (T -> int) -> (a -> b) -> a -> int = "
            "\\t -> \\u -> \\pi -> \\pb -> \\q -> \\fi -> \\fb -> \\ft -> \\ff -> \\l -> "
            "let f1 : T -> int = \\fold x -> let f2 : U -> int = \\fold y -> let f3 : T -> bool = \\fold z -> "
            "let f4 : P int -> int = \\fold w -> let f5 : bool = let m = \\j -> j; %s; 1; true; 1; 1; 1;\n"
            % (k, context.format(a, b)))


def pairs():
    """All (context, a, b); annotations are pairs of an expression and a type."""
    out = [(c, a, b) for c in PAIR_CONTEXTS for a in PAIR_ATOMS for b in PAIR_ATOMS]
    out += [("let r : %s = {0}; true" % t, a, "") for t in PAIR_TYPES for a in PAIR_ATOMS]
    out += [("let r : %s = \\i -> {0}; true" % t, a, "") for t in PAIR_TYPES for a in PAIR_ATOMS]
    return out


def pair_programs(chosen, per=12):
    return [PAIR_HEAD + "".join(pair_item(k, *p) for k, p in enumerate(chosen[i:i + per])) for i in range(0, len(chosen), per)]
