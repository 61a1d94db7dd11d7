"""Equality of extracted closed formulas: both are evaluated (by this module, on the formula, not on the repository's code)
at fixed pseudo-random points; unequal values refute equality, equal values at all points are taken as equality."""
import math
import random

from sa.terms import T, mk, walk, is_const

FN = {"sqrt": lambda x: math.sqrt(x), "exp": math.exp, "log": math.log, "cos": math.cos, "sin": math.sin, "tan": math.tan,
      "arctan": math.atan, "atan": math.atan, "abs": abs, "absolute": abs, "fabs": abs, "square": lambda x: x * x, "power": lambda x, y: x ** y,
      "log1p": math.log1p, "expm1": math.expm1, "negative": lambda x: -x, "float": float, "multiply": lambda x, y: x * y,
      "add": lambda x, y: x + y, "subtract": lambda x, y: x - y, "divide": lambda x, y: x / y, "true_divide": lambda x, y: x / y,
      "int": int, "ceil": math.ceil, "floor": math.floor, "max": max, "min": min, "maximum": max, "minimum": min, "pow": lambda x, y: x ** y, "log2": math.log2, "reciprocal": lambda x: 1 / x, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh}
CONST = {"numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e, "math.e": math.e, "scipy.pi": math.pi}


class Open(Exception):
    pass


def value(t, env):
    if t in env:
        return env[t]
    if t.op == "const":
        if isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
            return t.args[0]
    elif t.op == "ext" and t.args[0] in CONST:
        return CONST[t.args[0]]
    elif t.op == "un" and t.args[0] in "+-":
        x = value(t.args[1], env)
        return -x if t.args[0] == "-" else x
    elif t.op == "bin" and t.args[0] in ("+", "-", "*", "/", "**", "//", "%"):
        a, b = value(t.args[1], env), value(t.args[2], env)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a ** b, "//": lambda: a // b, "%": lambda: a % b}[t.args[0]]()
    elif t.op == "call":
        f = str(t.args[0])
        n = f.rsplit(".", 1)[-1]
        if f.split(".")[0] in ("numpy", "math", "builtins", "scipy") and n in FN and all(isinstance(x, T) and x.op != "kw" for x in t.args[1:]):
            return FN[n](*[value(x, env) for x in t.args[1:]])
    elif t.op == "attr" and t.args[0].op == "ext":
        n = "%s.%s" % (t.args[0].args[0], t.args[1])
        if n in CONST:
            return CONST[n]
    raise Open(t)


def equal(a, b, ranges, n=12):
    """ranges: {term: (lo, hi)}; True / False; Open when a part of a formula is not understood"""
    rng = random.Random(7)
    hit = 0
    for _ in range(n):
        env = {k: lo + (hi - lo) * rng.random() for k, (lo, hi) in ranges.items()}
        try:
            x, y = value(a, env), value(b, env)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        hit += 1
        if not abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
            return False
    if not hit:
        raise Open(a)
    return True
