"""Programs that compute something: well-typed, mostly without holes, and with
exported values that can be printed in full."""
import gen
from gen import BOOL, INT, STR, fn, subst


class Dead(Exception):
    """There is no value of some type."""


class EvalGen(gen.Gen):
    tame = True

    def __init__(self, rng, size=60, **kw):
        kw.setdefault("holes", 0)
        super().__init__(rng, **kw)
        self.size = size

    def leaf(self, t, depth, scope):
        r = self.r
        cs = [c for c in self.candidates(t, scope) if not c[1]]
        if cs and r.random() < 0.85:
            return list(r.choice(cs)[0])
        lit = self.literal(t)
        if lit:
            return lit
        if t[0] == "fn":
            x = self.fresh()
            return ["\\", x, "->"] + self.leaf(t[2], depth - 1, self.without(scope, x) + [([x], t[1])])
        if t[0] == "named":
            td = next((d for d in self.types if d[0] == t[1]), None)
            if td and td[2]:
                return self.data(td, t, depth, scope)
        if cs:
            return list(r.choice(cs)[0])
        raise Dead()

    def data(self, td, t, depth, scope):
        r = self.r
        m = dict(zip(td[1], t[2]))
        cts = td[2]
        if depth < -2 or self.fuel < 0 and r.random() < .7:
            flat = [c for c in cts if "rec" not in c[1]]
            if not flat:
                raise Dead()
            cts = sorted(flat, key=lambda c: len(c[1]))[:1] if depth < -3 else flat
        if depth < -8:
            raise Dead()
        self.fuel -= 1
        c, fs = r.choice(cts)
        out = ([td[3], "."] if td[3] else []) + [c]
        for f in fs:
            out += self.atom(self.leaf(t if f == "rec" else subst(f, m), depth - 1, scope))
        return out

    def first_order(self, d=2):
        x = self.r.random()
        ok = [t for t in self.types if t[2]]
        if d == 0 or x < .45 or not ok:
            return self.r.choice([INT, INT, BOOL, STR])
        td = self.r.choice(ok)
        return ("named", td[0], tuple(self.first_order(d - 1) for _ in td[1]))

    def value(self, t=None, export=None):
        """A definition, if one is found."""
        for _ in range(20):
            state = (len(self.items), len(self.values), len(self.exported), self.counter)
            try:
                self.fuel = self.size
                return self.item(t() if t else None, export)
            except Dead:
                del self.items[state[0]:], self.values[state[1]:], self.exported[state[2]:]
        return None

    def item(self, t, export):
        r = self.r
        export = r.random() < .5 if export is None else export
        self.counter += 1
        name = r.choice(gen.NAMES) if not self.strict and r.random() < .3 else "g%d" % self.counter
        poly = t is None and r.random() < .25
        if t is None:
            t = self.rand_type(2, ("a", "b") if poly else ())
        annotated = poly or r.random() < .7
        body = self.expr(t, self.maxdepth, [])
        self.items.append((["export"] if export else []) + ["let", name]
                          + ([":"] + self.show_type(t) if annotated else []) + ["="] + body + [";"])
        self.values = [v for v in self.values if v[0] != [name]]
        self.exported = [v for v in self.exported if v[0] != name]
        if annotated or not gen.tvs(t):
            self.values.append(([name], t))
            if export:
                self.exported.append((name, t))
        return name, t

    def fold_item(self):
        """A function that folds a data type."""
        r = self.r
        ok = [t for t in self.types if t[2] and any("rec" in c[1] for c in t[2])]
        if not ok:
            return None
        td = r.choice(ok)
        args = tuple(self.first_order(1) for _ in td[1])
        result = r.choice([INT, INT, BOOL, STR, self.first_order(2), fn(INT, INT), fn(INT, self.first_order(1))])
        whole = ("named", td[0], args)
        for _ in range(10):
            self.fuel = self.size
            self.counter += 1
            x = self.fresh()
            try:
                body = self.match_on([x], td, dict(zip(td[1], args)), result, result, self.maxdepth, [])
            except Dead:
                continue
            name = "f%d" % self.counter
            t = fn(whole, result)
            self.items.append((["export"] if r.random() < .1 else []) + ["let", name, ":"] + self.show_type(t)
                              + ["=", "\\", "fold", x, "->"] + body + [";"])
            self.values.append(([name], t))
            return name
        return None


def computing(rng, std=None, holes=0.0, folds=None, depth=None, n=None, deps=0, big=.1, size=60):
    """[(path, generator)]"""
    out = []
    for i in range(deps + 1):
        g = EvalGen(rng, holes=holes, folds=rng.choice([0, .05, .15]) if folds is None else folds,
                    depth=depth or rng.choice([3, 4, 4, 5]), big=big, size=size)
        for path, m in out:
            if rng.random() < .9:
                g.import_item(path, m.exported, m.exports)
        if std and rng.random() < .8:
            for m in rng.sample(sorted(std), rng.choice([1, 1, 2, 3])):
                g.import_item("std/" + m, *std[m])
        for _ in range(rng.choice([0, 1, 1, 2] if std else [1, 1, 2])):
            g.type_item(.4)
        for _ in range(n or rng.choice([2, 3, 4, 5])):
            x = rng.random()
            if x < .3:
                g.fold_item()
            elif x < .6:
                g.value(export=None if i < deps else False)
            else:
                g.value(g.first_order, export=True)
        g.value(g.first_order, export=True)
        if rng.random() < .5:
            g.value(g.first_order, export=True)
        out.append(("m%d" % i if i < deps else "main", g))
    return out
