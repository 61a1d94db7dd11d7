"""Statistical checks: the extracted decision (which p-values end in a failed assertion or False) and the statistic behind it
are compared with the stated tests; formulas are evaluated on the extracted terms, the repository's code is not run."""
import math

from rules.registry import prop
from rules.common import *
from sa.numid import FN, CONST, Open
from sa.repo import AnchorError

MOD = "mlmc.tool.stats_tests."
SAMPLES = [1.25, -0.5, 3.0, 0.75, 2.125]
LEVELS = [[1.5, 2.0, -0.25], [0.5, 0.125, 2.25, 1.0], [3.5, 4.0]]
LIB = ("ttest_1samp", "cdf", "sf", "f_oneway")


def bc(f, *xs):
    n = [len(x) for x in xs if isinstance(x, list)]
    if not n:
        return f(*xs)
    return [f(*[x[i] if isinstance(x, list) else x for x in xs]) for i in range(n[0])]


def mean(x):
    return sum(x) / len(x)


def var(x, ddof=0):
    m = mean(x)
    return sum((v - m) ** 2 for v in x) / (len(x) - ddof)


CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "**": lambda a, b: a ** b, "//": lambda a, b: a // b}


class Ev:
    def __init__(self, env, lib):
        self.env, self.lib, self.seen = env, lib, []

    def go(self, t):
        if t in self.env:
            return self.env[t]
        o = t.op
        if o == "const":
            return t.args[0]
        if o == "ext" and t.args[0] in CONST:
            return CONST[t.args[0]]
        if o == "cmp" and t.args[0] in CMP:
            return bc(CMP[t.args[0]], self.go(t.args[1]), self.go(t.args[2]))
        if o == "bin" and t.args[0] in BIN:
            return bc(BIN[t.args[0]], self.go(t.args[1]), self.go(t.args[2]))
        if o == "un":
            x = self.go(t.args[1])
            return bc(lambda v: -v, x) if t.args[0] == "-" else x if t.args[0] == "+" else not x
        if o == "not":
            return not self.go(t.args[0])
        if o == "and":
            return all(self.go(a) for a in t.args)
        if o == "or":
            return any(self.go(a) for a in t.args)
        if o == "ite":
            return self.go(t.args[1] if self.go(t.args[0]) else t.args[2])
        if o in ("list", "tuple"):
            return [self.go(a) for a in t.args]
        if o == "dim" and len(t.args) == 1 or o == "dim" and is_const(t.args[1]) and t.args[1].args[0] == 0:
            x = self.go(t.args[0])
            if isinstance(x, list):
                return len(x)
        if o == "sub" and len(t.args) == 2:
            x, i = self.go(t.args[0]), self.go(t.args[1])
            if isinstance(x, (tuple, list)) and isinstance(i, (int, slice)):
                return x[i]
        if o == "slice":
            return slice(*[self.go(a) for a in t.args])
        if o == "bsum" and t.args[0] not in self.env:
            out = 0
            for i in range(self.go(t.args[1])):
                self.env[t.args[0]] = i
                out += self.go(t.args[2])
            del self.env[t.args[0]]
            return out
        if o == "attr":
            if t.args[1] in ("pvalue", "statistic"):
                x = self.go(t.args[0])
                if isinstance(x, tuple):
                    return x[1 if t.args[1] == "pvalue" else 0]
            if t.args[1] == "size":
                x = self.go(t.args[0])
                if isinstance(x, list):
                    return len(x)
        if o == "cat":
            out = []
            for a in t.args:
                out += list(self.go(a.args[0])) if a.op == "spread" else [self.go(x) for x in a.args] if a.op == "list" else self.go(a)
            return out
        if o in ("call", "mcall"):
            return self.call(t)
        raise Open(t)

    def call(self, t):
        n = last(str(t.args[0])) if isinstance(t.args[0], str) or t.args[0].op != "attr" else None
        pos = [a for a in t.args[1:] if a.op != "kw"]
        kw = {a.args[0]: a.args[1] for a in t.args[1:] if a.op == "kw"}
        full = str(t.args[0])
        if t.op == "mcall" or full.startswith("."):
            if n in ("cdf", "sf") and pos and pos[0].op == "call" and ".chi2" in str(pos[0].args[0]):
                # frozen distribution
                df = [a for a in pos[0].args[1:]]
                full, kw = "scipy.stats.chi2." + n, dict(kw, **{a.args[0]: a.args[1] for a in df if a.op == "kw"})
                pos = pos[1:] + [a for a in df if a.op != "kw"]
        if "scipy" in full and n in LIB:
            self.seen.append((full, n, pos, kw))
            return self.lib(self, full, n, pos, kw)
        if full.split(".")[0] not in ("numpy", "math", "builtins", "scipy"):
            raise Open(t)
        a = [self.go(x) for x in pos]
        k = {x: self.go(y) for x, y in kw.items()}
        if n in ("array", "asarray", "atleast_1d", "bool", "bool_", "ravel") and not k:
            return a[0]
        if n == "var" and set(k) <= {"ddof", "axis"}:
            return var(a[0], k.get("ddof", 0))
        if n == "std" and set(k) <= {"ddof", "axis"}:
            return math.sqrt(var(a[0], k.get("ddof", 0)))
        if n in ("mean", "average") and not k and len(a) == 1:
            return mean(a[0])
        if n in ("min", "max", "minimum", "maximum", "amin", "amax") and not k:
            return (min if "min" in n else max)(a[0] if len(a) == 1 else a)
        if n == "sum" and not k and len(a) == 1:
            return sum(a[0])
        if n in ("len", "size") and isinstance(a[0], list):
            return len(a[0])
        if n == "sqrt":
            return bc(math.sqrt, a[0])
        if n in FN and not k:
            return bc(FN[n], *a)
        raise Open(t)


def close(a, b):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def two_sided(kw):
    for k, v in kw.items():
        if k == "alternative":
            if not (is_const(v) and v.args[0] == "two-sided"):
                return False
        elif k == "axis":
            if not (is_const(v) and v.args[0] in (0, None)):
                return False
        elif k not in ("nan_policy", "keepdims", "a", "popmean"):
            raise Open(v)
    return True


def rejected(ev, r):
    """some failed assertion or raised error is reached"""
    for e in r.events:
        if e.kind == "raise":
            if e.loops or e.tries:
                raise Open(e.args[0] if e.args else None)
            if all(bool(ev.go(c)) == p for c, p in conds(e)):
                return True
    return False


def setup(ctx, name):
    f = ctx.prog.func(MOD + name)
    return f, ctx.run(f, None)


def drive(ctx, key, f, levels, accepts, lib, want, prepare, bad_lib):
    """accepts(ev) -> bool for every p-value and level"""
    used = False
    for a in levels:
        for p in (a / 50, a * 0.5, a * 0.97, a * 1.03, min(2 * a, 0.9), 0.5, 0.9, 0.999):
            ev = Ev(prepare(a), lib(p))
            try:
                got = accepts(ev)
                for s in ev.seen:
                    why = bad_lib(ev, *s)
                    if why:
                        return ctx.bad("statistic@" + key, f.full, "NOT SATISFIED: " + why)
                used = used or bool(ev.seen)
            except Open as x:
                return ctx.und("decision@" + key, f.full, "not understood: %s" % show(x.args[0], 5))
            except (TypeError, ValueError, ZeroDivisionError, IndexError, KeyError, AttributeError, OverflowError) as x:
                return ctx.und("decision@" + key, f.full, "not evaluated: %r" % (x,))
            if got != want(p, a):
                return ctx.bad("decision@" + key, f.full, "NOT SATISFIED: samples with p-value %g at level %g are %s" % (p, a, "accepted" if got else "rejected"))
    if not used:
        return ctx.bad("statistic@" + key, f.full, "NOT SATISFIED: the decision does not use the p-value of the samples")
    ctx.ok("statistic@" + key, f.full, "statistic computed of the samples and the tested value")
    ctx.ok("decision@" + key, f.full, "accepted exactly if the p-value exceeds the level")


@prop("H01", "Extraction of the accept/reject condition and of the arguments of the distribution function; both are evaluated on the extracted terms over p-values on either side of several levels and on a fixed sample vector, and compared with the stated test.",
      ["scipy's test functions and distribution functions are what their documentation says"])
def h01_ttest(ctx):
    f, r = setup(ctx, "t_test")
    ps = f.params()
    mu, sm, mx = sym(ps[0]), sym(ps[1]), sym(ps[2])

    def lib(p):
        def call(ev, full, n, pos, kw):
            if n == "ttest_1samp":
                return (sign * 1.5, p)
            raise Open(sm)
        return call

    def bad_lib(ev, full, n, pos, kw):
        if not two_sided(kw):
            return "the test is not two-sided over the samples"
        a = pos[0] if pos else kw.get("a")
        b = pos[1] if len(pos) > 1 else kw.get("popmean")
        if a is None or b is None:
            raise Open(sm)
        if ev.go(a) != SAMPLES:
            return "%s is tested instead of the samples" % show(a, 5)
        if not close(ev.go(b), 0.3):
            return "the mean is compared with %s" % show(b, 5)

    for sign in (1, -1):
        drive(ctx, "t_test-" + ("above" if sign > 0 else "below"), f, (0.01, 0.05, 0.2), lambda ev: not rejected(ev, r), lib, lambda p, a: p > a,
              lambda a: {mu: 0.3, sm: SAMPLES, mx: a}, bad_lib)


@prop("H01", "", [])
def h01_chi2(ctx):
    f, r = setup(ctx, "chi2_test")
    ps = f.params()
    v0, sm, mx = sym(ps[0]), sym(ps[1]), sym(ps[2])
    for upper in (False, True):
        def lib(p):
            F = 1 - p / 2 if upper else p / 2

            def call(ev, full, n, pos, kw):
                if ".chi2." in full and n in ("cdf", "sf"):
                    return F if n == "cdf" else 1 - F
                raise Open(sm)
            return call

        def bad_lib(ev, full, n, pos, kw):
            df = pos[1] if len(pos) > 1 else kw.get("df")
            if not pos or df is None or set(kw) - {"df"}:
                raise Open(sm)
            x, d = ev.go(pos[0]), ev.go(df)
            if not close(d, len(SAMPLES) - 1):
                return "degrees of freedom are %s" % show(df, 5)
            if not close(x, var(SAMPLES) * len(SAMPLES) / 0.7):
                return "%s is not the sum of squared deviations over the tested variance" % show(pos[0], 6)

        drive(ctx, "chi2_test-" + ("large" if upper else "small"), f, (0.01, 0.05, 0.2), lambda ev: not rejected(ev, r), lib, lambda p, a: p > a,
              lambda a: {v0: 0.7, sm: SAMPLES, mx: a}, bad_lib)


@prop("H01", "", [])
def h01_anova(ctx):
    f, r = setup(ctx, "anova")
    lm = sym(f.params()[0])

    def lib(p):
        def call(ev, full, n, pos, kw):
            if n == "f_oneway":
                return (2.5, p)
            raise Open(lm)
        return call

    def bad_lib(ev, full, n, pos, kw):
        if not two_sided(kw):
            return "the levels are not compared over their samples"
        if len(pos) == 1 and pos[0].op == "star" and pos[0].args[0] is lm:
            return None
        if len(pos) == 1 and pos[0].op == "star" and pos[0].args[0].op in ("sub", "slice"):
            return "only %s of the levels is compared" % show(pos[0].args[0], 4)
        if len(pos) == 1 and pos[0].op == "star":
            x = ev.go(pos[0].args[0])
            return None if x == LEVELS else "the samples compared are not those of the given levels"
        if len(pos) >= 1 and pos[0] is lm:
            return "the levels are not handed over one by one"
        raise Open(lm)

    if r.value is None:
        return ctx.bad("decision@anova", f.full, "NOT SATISFIED: no answer is returned")
    drive(ctx, "anova", f, (0.05,), lambda ev: not rejected(ev, r) and bool(ev.go(r.value)), lib, lambda p, a: p > a, lambda a: {lm: LEVELS}, bad_lib)
