"""Programs with the shapes that optimisation passes look for: matches of
matches, values used once (or twice, or inside of functions), curried functions
applied to few or many arguments, folds with parameters before and after."""
from gen import layout  # noqa: F401

TYPES = """type Opt = No | Yes int;
type List = Nil | Cons int rec;
type Pair = Pair int Opt;
type Tree = Leaf int | Node rec int rec;
type Two a b = Fst a | Snd b;
type Box a = Bn | Bx a | By a a;
type Seq a = End | More a rec;
"""

SHOW = {"I": "int", "B": "bool", "O": "Opt", "L": "List", "P": "Pair", "T": "Tree", "W": "Two Opt int", "S": "string"}
DATA = {
    "O": [("No", []), ("Yes", ["I"])],
    "L": [("Nil", []), ("Cons", ["I", "L"])],
    "P": [("Pair", ["I", "O"])],
    "T": [("Leaf", ["I"]), ("Node", ["T", "I", "T"])],
    "W": [("Fst", ["O"]), ("Snd", ["I"])],
}
GROUND = list("IIIBOLPTW") + ["X<I>", "X<O>", "Q<I>", "Q<X<I>>"]


def fields(t):
    """Constructors of a type."""
    if t[0] == "X":
        a = t[2:-1]
        return [("Bn", []), ("Bx", [a]), ("By", [a, a])]
    if t[0] == "Q":
        return [("End", []), ("More", [t[2:-1], t])]
    return DATA[t]


def is_data(t):
    return isinstance(t, str) and (t in DATA or t[0] in "XQ")


def inst(t, m):
    """Replaces type variables."""
    if not isinstance(t, str):
        return (inst(t[0], m), inst(t[1], m))
    if t in m:
        return m[t]
    if t[0] in "XQ":
        a = inst(t[2:-1], m)
        return "%s<%s>" % (t[0], a) if isinstance(a, str) else None
    return t


def fits(p, t, m):
    if isinstance(p, str) and p in "abc":
        if p in m:
            return m[p] == t
        m[p] = t
        return True
    if isinstance(p, str) != isinstance(t, str):
        return False
    if isinstance(p, str):
        return p == t or p[0] in "XQ" and p[0] == t[0] and fits(p[2:-1], t[2:-1], m)
    return fits(p[0], t[0], m) and fits(p[1], t[1], m)


def variables(t):
    if not isinstance(t, str):
        return variables(t[0]) | variables(t[1])
    if t[0] in "XQ":
        return variables(t[2:-1])
    return {t} if t in "abc" else set()


def show(t):
    if isinstance(t, str):
        if t in "abc":
            return t
        if t[0] in "XQ":
            a = show(t[2:-1])
            return {"X": "Box ", "Q": "Seq "}[t[0]] + ("(%s)" % a if " " in a else a)
        return SHOW[t]
    a = show(t[0])
    return ("(%s)" % a if not isinstance(t[0], str) else a) + " -> " + show(t[1])


def arrow(*ts):
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = (t, r)
    return r


def result(t, n):
    for _ in range(n):
        t = t[1]
    return t


class OptGen:
    def __init__(self, rng, holes=0.0, size=40):
        self.r = rng
        self.n = 0
        self.holes = holes
        self.size = size
        self.fuel = size
        self.top = []
        self.poly = []
        self.tvs = set()

    def fresh(self, p="v"):
        # names are often the same, so that copies of code capture if they can
        self.n += 1
        if self.r.random() < .3:
            return self.r.choice(["x", "y", "z", "f"])
        return "%s%d" % (p, self.n)

    def small(self, t, scope):
        r = self.r
        vs = [v for v, vt in self.visible(scope) if vt == t]
        if vs and r.random() < .8:
            return r.choice(vs)
        if t == "I":
            return str(r.choice([0, 1, 2, 3, 7, 255, 18446744073709551615]))
        if t == "B":
            return r.choice(["true", "false"])
        if t == "S":
            return '"%s"' % r.choice(["", "a", "bc"])
        if vs:
            return r.choice(vs)
        if t in ("a", "b", "c"):
            return "?none"
        if isinstance(t, str):
            c, fs = fields(t)[0]
            return "(%s)" % " ".join([c] + [self.small(f, scope) for f in fs]) if fs else c
        x = self.fresh()
        return "(\\%s -> %s)" % (x, self.small(t[1], scope + [(x, t[0])]))

    def visible(self, scope):
        seen = set()
        out = []
        for v, t in reversed(self.top + scope):
            if v not in seen:
                seen.add(v)
                out.append((v, t))
        return out

    def ground(self):
        return self.r.choice(GROUND)

    def fun(self):
        r = self.r
        return arrow(*[self.ground() for _ in range(r.choice([2, 2, 3]))])

    def ex(self, t, d, scope):
        r = self.r
        self.fuel -= 1
        if self.holes and r.random() < self.holes:
            return "?" + r.choice(["a", "b", "h1", "hole"])
        if d <= 0 or self.fuel < 0:
            return self.small(t, scope)
        ways = ["let", "let", "match", "match", "match", "apply", "apply", "call", "call", "call", "if", "fold", "small"]
        if t in ("I", "B"):
            ways += ["op", "op"]
        if is_data(t):
            ways += ["data", "data", "data"]
        if not isinstance(t, str):
            ways = ["lam", "lam", "lam", "call", "call", "let", "match", "if", "fold", "small"]
        return getattr(self, "e_" + r.choice(ways))(t, d - 1, scope)

    def e_small(self, t, d, scope):
        return self.small(t, scope)

    def e_let(self, t, d, scope):
        r = self.r
        t1 = self.ground() if r.random() < .6 else self.fun()
        x = self.fresh()
        e = self.ex(t1, d, scope)
        ann = " : " + show(t1) if r.random() < .5 else ""
        body = self.ex(t, d, scope + [(x, t1)])
        if r.random() < .4:
            # use it under a function
            y = self.fresh("a")
            body = "(\\%s -> %s) %s" % (y, self.ex(t, d, scope + [(x, t1), (y, "I")]), self.small("I", scope + [(x, t1)]))
        return "(let %s%s = %s; %s)" % (x, ann, e, body)

    def e_if(self, t, d, scope):
        return "(if %s then %s else %s)" % (self.ex("B", d, scope), self.ex(t, d, scope), self.ex(t, d, scope))

    def e_op(self, t, d, scope):
        r = self.r
        op = r.choice(["+", "-", "*", "/", "%"] if t == "I" else ["<", "<=", "==", "!=", ">", ">="])
        return "(%s %s %s)" % (self.ex("I", d, scope), op, self.ex("I", d, scope))

    def e_data(self, t, d, scope):
        c, fs = self.r.choice(fields(t))
        return "(%s)" % " ".join([c] + [self.ex(f, d - (1 if f == t else 0), scope) for f in fs])

    def e_match(self, t, d, scope):
        r = self.r
        td = self.some_data("OOLPTWW", scope)
        if r.random() < .5:
            # a match of a match, whose branches are constructors
            inner = self.some_data("OOLPTW", scope)
            e = self.branches(inner, self.ex(inner, d, scope), d, scope, lambda s, k: self.known(td, k, d - 1, s))
        else:
            e = self.ex(td, d, scope)
        return self.branches(td, e, d, scope, lambda s, k: self.ex(t, d, s))

    def known_tvs(self, scope):
        """Type variables that there are values of."""
        return [a for a in sorted(self.tvs) if any(t == a for _, t in self.visible(scope))]

    def some_data(self, names, scope):
        r = self.r
        if r.random() < .75:
            return r.choice(names)
        vs = [t for _, t in scope if isinstance(t, str) and t[0] in "XQ"]
        return r.choice(vs) if vs and r.random() < .7 else "%s<%s>" % (r.choice("XQ"), r.choice(["I", "O"] + self.known_tvs(scope)))

    def known(self, td, k, d, scope):
        r = self.r
        cs = fields(td)
        c, fs = cs[k % len(cs)] if r.random() < .8 else r.choice(cs)
        e = "(%s)" % " ".join([c] + [self.ex(f, d - 1, scope) for f in fs]) if fs else c
        if r.random() < .2:
            x = self.fresh()
            e = "(let %s = %s; %s)" % (x, self.ex("I", d - 1, scope), e)
        return e

    def branches(self, td, e, d, scope, body):
        r = self.r
        rows = []
        cs = list(fields(td))
        r.shuffle(cs)
        off = r.choice([0, 0, 0, 1])
        for k, (c, fs) in enumerate(cs):
            xs = []
            for _ in fs:
                x = self.fresh("p")
                while x in xs:
                    x = self.fresh("p") + "_"
                xs.append(x)
            rows.append("%s -> %s" % (" ".join([c] + xs), body(scope + list(zip(xs, fs)), k + off)))
        return "(match %s with | %s end)" % (e, " | ".join(rows))

    def e_apply(self, t, d, scope):
        """A function in place, applied to arguments."""
        r = self.r
        n = r.choice([1, 1, 2, 3])
        ts = [self.ground() if r.random() < .8 else self.fun() for _ in range(n)]
        return "(%s %s)" % (self.lam(ts, t, d, scope), " ".join(self.ex(a, d - 1, scope) for a in ts))

    def lam(self, ts, t, d, scope):
        r = self.r
        xs = []
        out = ""
        for i, a in enumerate(ts):
            x = self.fresh("a")
            if i and r.random() < .15:
                y = self.fresh()
                out += "let %s = %s; " % (y, self.ex("I", d - 1, scope + xs))
                xs.append((y, "I"))
            out += "\\%s -> " % x
            xs.append((x, a))
        return "(%s%s)" % (out, self.ex(t, d, scope + xs))

    def e_lam(self, t, d, scope):
        r = self.r
        ts = []
        while not isinstance(t, str) and (not ts or r.random() < .7):
            ts.append(t[0])
            t = t[1]
        return self.lam(ts, t, d, scope)

    def e_call(self, t, d, scope):
        r = self.r
        cs = []
        for v, vt in self.visible(scope):
            args = []
            while not isinstance(vt, str):
                args.append(vt[0])
                vt = vt[1]
                if vt == t:
                    cs.append((v, list(args)))
        if self.poly and (not cs or r.random() < .4):
            ps = []
            for v, vt in self.poly:
                if any(n == v for n, _ in scope):
                    continue
                args = []
                while not isinstance(vt, str):
                    args.append(vt[0])
                    vt = vt[1]
                    m = {}
                    if fits(vt, t, m):
                        ps.append((v, list(args), m))
            if ps:
                v, args, m = r.choice(ps)
                for a in args:
                    for x in sorted(variables(a)):
                        m.setdefault(x, r.choice(["I", "O", "B", "L"] + self.known_tvs(scope)))
                args = [inst(a, m) for a in args]
                if all(a is not None for a in args):
                    return "(%s)" % " ".join([v] + [self.ex(a, d - 1, scope) for a in args])
        if not cs:
            return self.small(t, scope)
        v, args = r.choice(cs)
        if r.random() < .15 and len(args) > 1:
            k = r.randrange(1, len(args))
            x = self.fresh("q")
            e = "%s %s" % (v, " ".join(self.ex(a, d - 1, scope) for a in args[:k]))
            rest = [self.ex(a, d - 1, [s for s in scope if s[0] != x]) for a in args[k:]]
            if all(x not in a.split() for a in rest) and not any(n == x for n, _ in self.top):
                return "(let %s = %s; %s %s)" % (x, e, x, " ".join(rest))
        return "(%s %s)" % (v, " ".join(self.ex(a, d - 1, scope) for a in args))

    def fold(self, td, t, d, scope):
        """A function that folds td to t."""
        r = self.r
        before = ""
        more = []
        x = self.fresh("l")
        scope = [s for s in scope if s[0] != x]
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            y = self.fresh()
            before += "let %s = %s; " % (y, self.ex("I", d - 1, scope + more))
            more.append((y, "I"))
        ds = x
        rows = []
        for c, fs in fields(td):
            ys = []
            for _ in fs:
                y = self.fresh("r")
                while y in ys or y == x:
                    y += "_"
                ys.append(y)
            inner = scope + more + [(y, t if f == td else f) for y, f in zip(ys, fs)]
            rows.append("%s -> %s" % (" ".join([c] + ys), self.ex(t, d, inner)))
        m = "match %s with | %s end" % (ds, " | ".join(rows))
        if more and x in [y for y, _ in more]:
            before = ""
            m = "match %s with | %s end" % (x, " | ".join(
                "%s -> %s" % (" ".join([c] + ["_f%d" % i for i in range(len(fs))]), self.small(t, scope)) for c, fs in fields(td)))
        return "(\\fold %s -> %s%s)" % (x, before, m)

    def e_fold(self, t, d, scope):
        r = self.r
        td = r.choice(["L", "L", "T", "Q<I>"])
        ks = self.known_tvs(scope)
        if ks and r.random() < .6:
            td = "Q<%s>" % r.choice(ks)
        x = self.fresh("s")
        f = self.fold(td, t, d - 1, scope)
        ft = (td, t)
        return "(let %s : %s = %s; %s)" % (x, show(ft), f, self.call_fold(x, ft, t, d, scope))

    def call_fold(self, x, ft, t, d, scope):
        r = self.r
        s = scope + [(x, ft)]
        arg = self.data_value(ft[0], r.choice([1, 2, 3]), s)
        return "%s %s" % (x, arg) if r.random() < .7 else self.ex(t, d - 1, s)

    def data_value(self, td, n, scope):
        r = self.r
        cs = fields(td)
        c, fs = cs[-1] if n > 0 else cs[0]
        return "(%s)" % " ".join([c] + [self.data_value(f, n - 1, scope) if f == td else self.small(f, scope) for f in fs])

    def program(self, n=None):
        r = self.r
        out = [TYPES]
        for i in range(n or r.choice([3, 4, 5, 6])):
            self.fuel = self.size
            name = "g%d" % i
            d = r.choice([2, 3, 3, 4, 5])
            if r.random() < .3:
                # a function with type variables
                self.tvs = set(r.choice(["a", "ab", "ab", "abc"]))
                vs = sorted(self.tvs)
                need = list(vs)
                pool = vs + ["I", "X<a>", "Q<a>", ("a", "I"), ("I", "a"), ("a", "a")]
                ts = need + [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2]))]
                r.shuffle(ts)
                rt = r.choice(vs + ["X<a>", "Q<a>", "I", "X<%s>" % vs[-1], ("a", vs[-1])])
                t = arrow(*ts + [rt])
                k = r.randrange(1, len(ts) + 1) if r.random() < .3 else len(ts)
                if r.random() < .25:
                    # that is given the rest of parameters after a fold
                    td = r.choice(["Q<a>", "L"])
                    t = (td, arrow(*ts + [rt]))
                    body = self.fold(td, t[1], d - 1, [])
                else:
                    body = self.lam(ts[:k], arrow(*ts[k:] + [rt]), d, [])
                out.append("%slet %s : %s = %s;\n" % (r.choice(["", "", "export "]), name, show(t), body))
                self.tvs = set()
                self.poly.append((name, t))
                continue
            if r.random() < .45:
                k = r.choice([1, 2, 2, 3, 4])
                t = arrow(*[self.ground() if r.random() < .8 else self.fun() for _ in range(k)] + [self.ground()])
                if r.random() < .2:
                    td = r.choice("LT")
                    rt = self.ground() if r.random() < .5 else self.fun()
                    t = (td, rt)
                    out.append("%slet %s : %s = %s;\n" % (r.choice(["", "export "]), name, show(t), self.fold(td, rt, d - 1, [])))
                else:
                    ts = []
                    u = t
                    while not isinstance(u, str):
                        ts.append(u[0])
                        u = u[1]
                    k = r.randrange(1, len(ts) + 1) if r.random() < .3 else len(ts)
                    rt = arrow(*(ts[k:] + [u]))
                    out.append("%slet %s : %s = %s;\n" % (r.choice(["", "", "export "]), name, show(t), self.lam(ts[:k], rt, d, [])))
            else:
                t = self.ground()
                out.append("%slet %s : %s = %s;\n" % (r.choice(["", "export ", "export "]), name, show(t), self.ex(t, d, [])))
            self.top.append((name, t))
        self.fuel = self.size
        for k in range(2):
            t = self.ground()
            out.append("export let out%d : %s = %s;\n" % (k, show(t), self.ex(t, 4, [])))
        return "".join(out)


BOUNDS = [0, 1, 2, 3, 10, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 62, 2 ** 62 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1,
          2 ** 64 - 2, 2 ** 64 - 1]
INTOPS = ["+", "-", "*", "/", "%", "<", "<=", ">", ">=", "==", "!="]


def tables(rng, per=120):
    """Programs that apply all operators to all pairs of boundary values, written
    in place and given to functions."""
    out = []
    cases = [(a, op, b) for a in BOUNDS for op in INTOPS for b in BOUNDS]
    rng.shuffle(cases)
    for k in range(0, len(cases), per):
        s = ""
        for i, op in enumerate(INTOPS):
            s += "let op%d = \\a -> \\b -> a %s b;\n" % (i, op)
        for i, (a, op, b) in enumerate(cases[k:k + per]):
            if rng.random() < .5:
                s += "export let v%d = %d %s %d;\n" % (i, a, op, b)
            else:
                s += "export let v%d = op%d %d %d;\n" % (i, INTOPS.index(op), a, b)
        out.append(s)
    return out


def applications(rng):
    """Functions of several parameters applied in all groupings."""
    r = rng
    s = ""
    for f in range(3):
        n = r.choice([2, 3, 4, 5, 6])
        xs = ["a%d" % i for i in range(n)]
        body = " + ".join("%s * %d" % (x, 10 ** i) for i, x in enumerate(xs))
        out = ""
        for i, x in enumerate(xs):
            if i and r.random() < .2:
                out += "let t%d = %s + 1; " % (i, xs[i - 1])
                body = body.replace("%s *" % xs[i - 1], "t%d *" % i)
            out += "\\%s -> " % x
        s += "let f%d = %s%s;\n" % (f, out, body)
        for g in range(3):
            args = [str(r.randrange(10)) for _ in range(n)]
            e = "f%d" % f
            i = 0
            lets = ""
            j = 0
            while i < n:
                k = r.randrange(1, n - i + 1)
                part = args[i:i + k]
                i += k
                e = "%s %s" % (e, " ".join(part))
                x = r.random()
                if i < n:
                    j += 1
                    if x < .4:
                        lets += "let p%d = %s; " % (j, e)
                        e = "p%d" % j
                    elif x < .6:
                        lets += "let p%d = %s; " % (j, e)
                        e = "(if p%d 0 %s == 1 then p%d else p%d)" % (j, " ".join("0" for _ in range(n - i - 1)), j, j) \
                            if n - i >= 1 else "p%d" % j
                    elif x < .8:
                        e = "(%s)" % e
                    else:
                        e = "(\\q -> q) (%s)" % e
            s += "export let r%d_%d = %s%s;\n" % (f, g, lets, e)
    s += "let twice = \\f -> \\x -> f (f x);\nlet comp = \\f -> \\g -> \\x -> f (g x);\nlet flip = \\f -> \\a -> \\b -> f b a;\n"
    s += "let sub : int -> int -> int = \\a -> \\b -> a - b;\n"
    for i in range(4):
        def e(d):
            if d == 0:
                return r.choice(["sub %d" % r.randrange(9), "flip sub %d" % r.randrange(9), "\\x -> x * %d" % r.randrange(5)])
            k = r.random()
            if k < .3:
                return "twice (%s)" % e(d - 1)
            if k < .6:
                return "comp (%s) (%s)" % (e(d - 1), e(d - 1))
            if k < .8:
                return "(\\f -> \\x -> f x + 1) (%s)" % e(d - 1)
            return "let k = %s; \\y -> k (k y)" % e(d - 1)
        s += "export let h%d = (%s) %d;\n" % (i, e(r.choice([1, 2, 3])), r.randrange(1000))
    return s


def wide(rng):
    """Constructors with many fields and functions that use many variables."""
    r = rng
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 20, 33, 63, 64, 65, 66, 129])
    fs = [r.choice(["int", "bool", "Small", "int"]) for _ in range(n)]
    if r.random() < .3:
        fs[r.randrange(n)] = "rec"
    s = "type Small = S int | N;\ntype Wide = W %s | End;\n" % " ".join(fs)

    def value(t, i):
        return {"int": str(i * 7 + 1), "bool": r.choice(["true", "false"]), "Small": "(S %d)" % i, "rec": "End"}[t]
    s += "export let w = W %s;\n" % " ".join(value(t, i) for i, t in enumerate(fs))
    s += "let pick = \\v -> match v with | W %s -> " % " ".join("x%d" % i for i in range(n))
    ints = [i for i in range(n) if fs[i] == "int"]
    smalls = [i for i in range(n) if fs[i] == "Small"]
    s += " + ".join(["0"] + ["x%d * %d" % (i, r.randrange(1, 1000)) for i in r.sample(ints, min(len(ints), 20))]
                    + ["(match x%d with | S q -> q | N -> 100 end)" % i for i in r.sample(smalls, min(len(smalls), 20))])
    s += " | End -> 0 end;\nexport let p = pick w;\nexport let e = pick End;\n"
    # a function that uses many variables
    k = r.choice([1, 2, 3, 5, 8, 33, 63, 64, 65, 66, 129])
    lets = "".join("let v%d = %s; " % (i, r.choice(["a + %d" % i, "S (a + %d)" % i, "a < %d" % i])) for i in range(k))
    kinds = [l.split("= ", 1)[1] for l in lets.split("; ") if l]
    use = []
    for i, e in enumerate(kinds):
        if e.startswith("S"):
            use.append("(match v%d with | S q -> q + b | N -> 0 end)" % i)
        elif "<" in e:
            use.append("(if v%d then b else 1)" % i)
        else:
            use.append("v%d * b" % i)
    s += "let many = \\a -> %s\\b -> %s;\n" % (lets, " + ".join(use))
    s += "let part = many %d;\nexport let m1 = part 3;\nexport let m2 = part 4;\nexport let m3 = many 1 1;\n" % r.randrange(100)
    # partial application of constructors and functions with many parameters
    c = r.randrange(n)
    s += "let c1 = W%s;\nexport let c2 = pick (c1 %s);\n" % (
        "".join(" " + value(t, i) for i, t in enumerate(fs[:c])), " ".join(value(t, i + 3) for i, t in enumerate(fs[c:])))
    j = min(n, r.choice([5, 20, 70]))
    s += "let f = %s%s;\n" % ("".join("\\y%d -> " % i for i in range(j)), " + ".join("y%d * %d" % (i, i + 1) for i in range(j)))
    c = r.randrange(1, j) if j > 1 else 1
    s += "let f1 = f %s;\n" % " ".join(str(i) for i in range(c))
    s += "export let f2 = f1 %s;\n" % " ".join(str(i + 5) for i in range(j - c)) if c < j else ""
    return s


def stages(rng):
    """Generic functions whose results are functions, so that there is more to
    simplify once they are put in place."""
    r = rng
    s = "type L = N | C int rec;\n"
    helpers = []
    for i in range(r.choice([1, 2, 3])):
        n = r.choice([1, 2, 2, 3])
        fold = r.random() < .65
        at = r.randrange(n + 1) if fold else -1
        used = [k for k in range(n) if r.random() < .8] or [0]
        r.shuffle(used)
        head = fold or r.random() < .3   # whether f gets an int first
        params = ["b%d" % k for k in range(n)]
        tys = [p if r.random() < .8 else "int" for p in params]
        f = "(%s%s -> t)" % ("int -> " if head else "", " -> ".join(tys[k] for k in used))
        names, types = list(params), list(tys)
        if fold:
            names.insert(at, "fold l")
            types.insert(at, "L")

        def call(x):
            return "f %s%s" % (x + " " if head else "", " ".join(params[k] for k in used))
        body = call("%d" % r.randrange(9))
        if fold and r.random() < .7:
            rest = params[at:]
            more = "xs" + "".join(" " + p for p in rest)
            x = r.random()
            if x < .5:
                body = "match l with | N -> %s | C x xs -> %s end" % (body, more)
            elif x < .8:
                body = "match l with | N -> %s | C x xs -> %s end" % (body, call("x"))
            else:
                body = "match l with | N -> %s | C x xs -> %s end" % (call("7"), "let y = x + 1; " + call("y"))
        if r.random() < .2:
            body = "let u = %s; u" % body
        s += "let h%d : %s -> %s -> t = \\f -> %s%s;\n" % (i, f, " -> ".join(types), "".join("\\%s -> " % x for x in names), body)
        helpers.append((i, head, [tys[k] for k in used], types))
    for j in range(r.choice([2, 3, 4, 5])):
        i, head, uses, types = r.choice(helpers)
        more = r.choice([0, 1, 1, 2, 3])
        funs = {t for t in types if t[0] == "b" and r.random() < .2}
        w = [10 ** k for k in range(8)]
        r.shuffle(w)
        ps = (["k"] if head else []) + ["p%d" % k for k in range(len(uses))] + ["q%d" % k for k in range(more)]
        kinds = (["int"] if head else []) + uses + ["int"] * more
        terms = ["%s * %d" % ("%s 3" % p if t in funs else p, w.pop()) for p, t in zip(ps, kinds)]
        if r.random() < .3:
            # a value between the parameters
            c = r.randrange(1, len(ps)) if len(ps) > 1 else 0
            first = "%s" % ("%s 3" % ps[0] if kinds[0] in funs else ps[0])
            lam = "".join("\\%s -> " % p for p in ps[:max(c, 1)]) + "let m = %s + 1; " % first + "".join(
                "\\%s -> " % p for p in ps[max(c, 1):]) + " + ".join(terms + ["m * 1000000000"])
        else:
            lam = "".join("\\%s -> " % p for p in ps) + " + ".join(terms)

        def value(t):
            if t == "L":
                return r.choice(["N", "(C %d N)" % r.randrange(9), "(C 1 (C 2 N))"])
            if t in funs:
                return r.choice(["(\\z -> z + %d)" % r.randrange(9), "(\\z -> z * %d)" % r.randrange(9)])
            return str(r.randrange(10))
        args = [value(t) for t in types] + [str(r.randrange(10)) for _ in range(more)]
        e = "h%d (%s)" % (i, lam)
        lets = ""
        x = r.random()
        if x < .25:
            lets = "let g = %s; " % lam
            e = "h%d g" % i
        elif x < .35:
            e = "(\\f -> h%d f) (%s)" % (i, lam)
        k = 0
        m = 0
        while k < len(args):
            c = r.randrange(1, len(args) - k + 1)
            e += " " + " ".join(args[k:k + c])
            k += c
            x = r.random()
            if k < len(args) and x < .3:
                m += 1
                lets += "let e%d = %s; " % (m, e)
                e = "e%d" % m
            elif k < len(args) and x < .5:
                e = "(\\i -> i) (%s)" % e
            elif k < len(args) and x < .6:
                e = "(if %s == 0 then %s else %s)" % (r.choice("01"), e, e)
        s += "export let v%d = %s%s;\n" % (j, lets, e)
    return s
