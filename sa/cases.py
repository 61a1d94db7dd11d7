"""Decision of piecewise arithmetic by cases: a value built of arithmetic, minima, maxima and choices is reduced, under sign assumptions
on its symbols, to its alternatives with their guards; signs of differences are decided from the signs of polynomial coefficients."""
from fractions import Fraction
from .terms import mk, const, subst, Norm, contains, walk, binop

KEEP = {"numpy.array", "numpy.asarray", "numpy.atleast_1d", "numpy.float64", "builtins.float", ".copy", "numpy.copy", "builtins.list", "builtins.tuple", ".tolist", "numpy.ravel"}
CMP = {"numpy.less": "<", "numpy.greater": ">", "numpy.less_equal": "<=", "numpy.greater_equal": ">=", "numpy.equal": "==", "numpy.not_equal": "!="}


class Unknown(Exception):
    pass


class Cases:
    def __init__(self, signs, alts=(), grid=None):
        self.signs = signs          # atom -> "pos" | "nonneg"
        self.alts = alts            # substitutions that may show a sign
        self.grid = grid or {}      # atom -> values for witnesses
        self.n = Norm()
        self.rounded = []

    # ---- signs
    def sign(self, t):
        best = {-1, 0, 1}
        for m in [{}] + list(self.alts):
            best &= self._sign(subst(t, m) if m else t)
        return best

    def _sign(self, t):
        p, q = self.n.ratio(t)
        s = self._psign(p)
        d = self._psign(q)
        if d == {1}:
            return s
        if d == {-1}:
            return {-x for x in s}
        return {-1, 0, 1}

    def _psign(self, p):
        if not p:
            return {0}
        plus = minus = strict_p = strict_m = False
        for m, c in p.items():
            strict = True
            for a, e in m:
                k = self.signs.get(a)
                if k is None and not (e % 2 == 0 and e > 0):
                    return {-1, 0, 1}
                strict = strict and k == "pos"
            if c > 0:
                plus, strict_p = True, strict_p or strict
            else:
                minus, strict_m = True, strict_m or strict
        if plus and minus:
            return {-1, 0, 1}
        return ({1} if strict_p else {0, 1}) if plus else ({-1} if strict_m else {0, -1})

    # ---- alternatives
    def ev(self, t, path=()):
        """[(path, value)]"""
        op = t.op
        if op in ("where", "ite"):
            return [r for p, b in self.cond(t.args[0], path) for r in self.ev(t.args[1] if b else t.args[2], p)]
        if op == "cmp" or op in ("not", "and", "or") or op == "call" and (t.args[0] in CMP or "logical_" in str(t.args[0])):
            return [(p, const(1 if b else 0)) for p, b in self.cond(t, path)]
        if op == "const" and isinstance(t.args[0], bool):
            return [(path, const(int(t.args[0])))]
        if op == "bin" and t.args[0] in ("+", "-", "*", "/"):
            return [(p2, binop(t.args[0], a, b)) for p1, a in self.ev(t.args[1], path) for p2, b in self.ev(t.args[2], p1)]
        if op == "un" and t.args[0] in ("-", "+"):
            return [(p, binop("*", const(-1 if t.args[0] == "-" else 1), a)) for p, a in self.ev(t.args[1], path)]
        if op == "call" and isinstance(t.args[0], str):
            n, a = t.args[0], [x for x in t.args[1:] if x.op != "kw"]
            l = n.rsplit(".", 1)[-1]
            if n in KEEP and a:
                return self.ev(a[0], path)
            if n == ".astype" and a:
                return self.round("astype" if "int" in str(a[1].args) else None, a[0], path)
            if n in ("numpy.ceil", "math.ceil", "numpy.floor", "math.floor", "numpy.round", "numpy.rint", "numpy.around", "builtins.round", "builtins.int", "numpy.trunc", "math.trunc") and len(a) == 1:
                return self.round(l, a[0], path)
            if l in ("maximum", "minimum", "fmax", "fmin") or n in ("builtins.max", "builtins.min", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin"):
                if len(a) == 1 and a[0].op in ("list", "tuple"):
                    a = list(a[0].args)
                if len(a) == 2 and len(a) + 1 >= len(t.args):
                    out = []
                    for p1, x in self.ev(a[0], path):
                        for p2, y in self.ev(a[1], p1):
                            for p3, b in self.cond(mk("cmp", "<", x, y), p2):
                                out.append((p3, y if b == ("max" in l) else x))
                    return out
            if n in ("numpy.clip", ".clip") and len(a) == 3:
                return self.ev(mk("call", "numpy.minimum", mk("call", "numpy.maximum", a[0], a[1]), a[2]), path)
            if n in ("numpy.abs", "builtins.abs", "numpy.absolute") and len(a) == 1:
                return self.ev(mk("ite", mk("cmp", "<", a[0], const(0)), mk("un", "-", a[0]), a[0]), path)
            if n == "numpy.where" and len(a) == 3:
                return self.ev(mk("ite", *a), path)
            if n in ("numpy.subtract", "numpy.add", "numpy.multiply", "numpy.divide", "numpy.true_divide") and len(a) == 2:
                return self.ev(mk("bin", {"subtract": "-", "add": "+", "multiply": "*", "divide": "/", "true_divide": "/"}[l], *a), path)
        return [(path, t)]

    def round(self, kind, x, path):
        out = []
        for p, v in self.ev(x, path):
            if kind not in (None, "ceil"):
                self.rounded.append((kind, p, v))
            out.append((p, v))
        return out

    def cond(self, c, path):
        op = c.op
        if op == "bool" and c.args[0] in ("and", "or"):
            c = mk("bin", "&" if c.args[0] == "and" else "|", *c.args[1:])
            op = "bin"
        if op == "const":
            return [(path, bool(c.args[0]))]
        if op == "not" or op == "un" and c.args[0] in ("~", "not"):
            return [(p, not b) for p, b in self.cond(c.args[-1], path)]
        if op in ("and", "or") or op == "bin" and c.args[0] in ("&", "|") or op == "call" and c.args[0] in ("numpy.logical_and", "numpy.logical_or"):
            parts = c.args[1:] if op in ("bin", "call") else c.args
            both = op == "and" or op == "bin" and c.args[0] == "&" or op == "call" and c.args[0].endswith("and")
            res = [(path, both)]
            for x in parts:
                nxt = []
                for p, b in res:
                    if b != both:
                        nxt.append((p, b))
                    else:
                        nxt += self.cond(x, p)
                res = nxt
            return res
        if op == "call" and c.args[0] == "numpy.logical_not":
            return [(p, not b) for p, b in self.cond(c.args[1], path)]
        if op == "call" and c.args[0] in CMP and len(c.args) == 3:
            c, op = mk("cmp", CMP[c.args[0]], c.args[1], c.args[2]), "cmp"
        if op in ("where", "ite"):
            return [r for p, b in self.cond(c.args[0], path) for r in self.cond(c.args[1] if b else c.args[2], p)]
        if op != "cmp" or c.args[0] not in ("<", "<=", ">", ">=", "==", "!="):
            raise Unknown("condition %s" % op)
        out = []
        for p1, a in self.ev(c.args[1], path):
            for p2, b in self.ev(c.args[2], p1):
                out += self._cmp(c.args[0], a, b, p2)
        return out

    def _cmp(self, o, a, b, path):
        d = mk("bin", "-", a, b)
        s = self.sign(d)
        k = self.n(d)
        for q, ss in path:
            if q is k:
                s = s & ss
        yes = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}}[o]
        out = []
        for b_, part in ((True, s & yes), (False, s - yes)):
            if part:
                out.append((path if part == s else path + ((k, frozenset(part)),), b_))
        return out

    # ---- witnesses
    def value(self, t, m):
        """exact value of a polynomial term at a point, None if it holds other atoms"""
        p, q = self.n.ratio(t)

        def at(pp):
            r = Fraction(0)
            for mon, c in pp.items():
                for a, e in mon:
                    if a not in m:
                        raise Unknown("atom %s" % a)
                    c = c * Fraction(m[a]) ** e
                r += c
            return r
        d = at(q)
        return at(p) / d if d else None

    def points(self):
        pts = [{}]
        for a, vs in self.grid.items():
            pts = [dict(m, **{}) | {a: v} for m in pts for v in vs]
        return pts

    def model(self, path, bad):
        """a point where the guards of the path hold and bad(value function) is true; None if none is found"""
        sg = lambda v: (v > 0) - (v < 0)
        for m in self.points():
            try:
                if all((lambda v: v is not None and sg(v) in ss)(self.value(k, m)) for k, ss in path) and bad(lambda t: self.value(t, m)):
                    return m
            except Unknown:
                return None
        return None
