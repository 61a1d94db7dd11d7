"""Moment functions: transformation to the reference domain, agreement of the evaluation entry points, derivatives."""
import math
from fractions import Fraction
from rules.registry import prop
from rules.common import *
from sa.ixform import Ix, Arr, Unk, SizeErr, fresh, ONE
from sa.repo import AnchorError

SELF = sym("self")
MOD = "mlmc.moments"
NAN = mk("ext", "numpy.nan")
PI = mk("ext", "numpy.pi")
BASES = ("Monomial", "Fourier", "Legendre")
DEFREF = {"Monomial": (const(0), const(1)), "Fourier": (const(0), mk("bin", "*", const(2), PI)), "Legendre": (const(-1), const(1))}


def fix_max(t):
    """max(d, eps) for a tiny positive eps is d (the domain is not degenerate)"""
    m = {}
    for x in walk(t):
        if x.op == "call" and last(x.args[0]) in ("max", "maximum") and len(x.args) == 3:
            a, b = x.args[1:]
            for p, q in ((a, b), (b, a)):
                if is_const(q) and isinstance(q.args[0], (int, float)) and 0 <= q.args[0] <= 1e-10:
                    m[x] = p
    return fix_max(subst(t, m)) if m else t


def build(ctx, cls, size, log, safe, ref=None, **kw):
    c = ctx.prog.cls(MOD + "." + cls)
    f = ctx.method(c, "__init__")
    args = {"size": const(size) if isinstance(size, int) else size, "log": const(log) if isinstance(log, bool) else log, "safe_eval": const(safe) if isinstance(safe, bool) else safe,
            "ref_domain": NONE if ref is None else ref}
    names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    for k in args:
        if k not in names:
            raise AnchorError("%s.__init__(%s)" % (cls, k))
    return ctx.run_method(c, "__init__", args=args, **kw), f


def at(f):
    return f.full


REFGIVEN = {cmpop("is", sym("ref_domain"), NONE): FALSE, cmpop("==", sym("ref_domain"), NONE): FALSE, cmpop("is not", sym("ref_domain"), NONE): TRUE}


def given(t):
    """with the reference domain passed explicitly"""
    return subst(t, REFGIVEN)


def fld(r, name):
    v = r.state.heap.get(("f", SELF, name))
    return v


# ---------------------------------------------------------------------------------------------------- M01
def xform_ix():
    ix = Ix({sym("x"): Arr((), lambda i: sym("x")), sym("domain"): Arr((const(2),), lambda i: mk("sub", sym("domain"), i[0])),
             sym("ref_domain"): Arr((const(2),), lambda i: mk("sub", sym("ref_domain"), i[0]))})

    def hook(t):
        if t.op == "sub" and is_const(t.args[1]) and t.args[0] in (sym("domain"), sym("ref_domain")):
            return ix.scalar(t)
        if t.op == "call":
            n, a = t.args[0], [y for y in t.args[1:] if isinstance(y, T) and y.op != "kw"]
            if n in ("numpy.ma.masked_greater", "numpy.ma.masked_less", "numpy.ma.masked_greater_equal", "numpy.ma.masked_less_equal") and len(a) >= 2:
                v, w = ix.ev(a[0]).fn([]), ix.ev(a[1]).fn([])
                c = cmpop({"greater": ">", "less": "<", "greater_equal": ">=", "less_equal": "<="}[n.split("masked_")[1]], v.args[1] if v.op == "MASKED" else v, w)
                return ix.scalar(mk("MASKED", boolop("or", v.args[0], c), v.args[1]) if v.op == "MASKED" else mk("MASKED", c, v))
            if n in ("numpy.ma.masked_outside", "numpy.ma.masked_where", "numpy.ma.masked_inside"):
                if n.endswith("masked_where") and len(a) >= 2:
                    c, v = ix.ev(a[0]).fn([]), ix.ev(a[1]).fn([])
                    return ix.scalar(mk("MASKED", c, v))
                if n.endswith("masked_outside") and len(a) >= 3:
                    v, lo, hi = [ix.ev(y).fn([]) for y in a[:3]]
                    return ix.scalar(mk("MASKED", boolop("or", cmpop("<", v, lo), cmpop(">", v, hi)), v))
                raise Unk(n)
            if n in ("numpy.ma.filled", ".filled") and len(a) == 2:
                v, f = ix.ev(a[0]).fn([]), ix.ev(a[1]).fn([])
                if v.op == "MASKED":
                    return ix.scalar(mk("ite", v.args[0], f, v.args[1]))
                return ix.scalar(v)
            if n == "numpy.clip" and len(a) == 3:
                v, lo, hi = [ix.ev(y).fn([]) for y in a]
                return ix.scalar(mk("ite", cmpop("<", v, lo), lo, mk("ite", cmpop(">", v, hi), hi, v)))
            if n in ("numpy.atleast_1d",):
                return ix.ev(a[0])
        if t.op == "store":
            b, k, v = t.args
            kk = ix.ev(k).fn([])
            if kk.op in ("cmp", "bool", "not"):
                return ix.scalar(mk("ite", kk, ix.ev(v).fn([]), ix.ev(b).fn([])))
        return None
    ix.hook = hook
    return ix


CASES = ("below the reference domain", "at its lower end", "inside", "at its upper end", "above the reference domain", "not a number")


def sign_of(a, b, v, r0, r1, scale, n):
    """order of the comparison a ? b expressed by the position of v:  ('lo'|'hi', +1/-1) or None"""
    d = n(mk("bin", "-", a, b))
    for nm, r in (("lo", r0), ("hi", r1)):
        w = n(mk("bin", "-", v, r))
        for s, f in ((1, ONE), (1, mk("bin", "/", ONE, scale)), (1, scale)):
            q = n(mk("bin", "*", w, f))
            if d is q:
                return nm, 1
            if n(mk("un", "-", q)) is d:
                return nm, -1
    return None


POS = {"lo": (-1, 0, 1, 1, 1, None), "hi": (-1, -1, -1, 0, 1, None)}


def in_case(t, k, v, r0, r1, scale, n):
    """value of a conditional term in one of the cases"""
    if t.op == "ite":
        c = truth(t.args[0], k, v, r0, r1, scale, n)
        return in_case(t.args[1] if c else t.args[2], k, v, r0, r1, scale, n)
    if t.op == "where":
        raise Unk("where")
    if t.op == "MASKED":
        return mk("MASKEDVALUE") if truth(t.args[0], k, v, r0, r1, scale, n) else in_case(t.args[1], k, v, r0, r1, scale, n)
    if any(x.op in ("ite", "cmp", "bool", "not") for x in walk(t)):
        raise Unk("condition inside an expression")
    return t


def truth(c, k, v, r0, r1, scale, n):
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        return not truth(c.args[0], k, v, r0, r1, scale, n)
    if c.op == "bool":
        xs = [truth(y, k, v, r0, r1, scale, n) for y in c.args[1:]]
        return all(xs) if c.args[0] == "and" else any(xs)
    if c.op == "call" and c.args[0] == "numpy.isnan":
        return k == 5
    if c.op == "cmp":
        o, a, b = c.args
        w = sign_of(a, b, v, r0, r1, scale, n)
        if w is None:
            raise Unk("comparison %s" % show(c))
        p = POS[w[0]][k]
        if p is None:
            return o == "!="
        p *= w[1]
        return {"<": p < 0, "<=": p <= 0, ">": p > 0, ">=": p >= 0, "==": p == 0, "!=": p != 0}[o]
    raise Unk("condition %s" % show(c))


def neval(t, env):
    """value of a closed term at concrete numbers"""
    if t in env:
        return env[t]
    o = t.op
    if o == "const" and isinstance(t.args[0], (int, float, bool)):
        return t.args[0]
    if o == "ext":
        if t.args[0] == "numpy.nan":
            return math.nan
        if t.args[0] in ("numpy.pi", "math.pi"):
            return math.pi
    if o == "ite":
        return neval(t.args[1] if neval(t.args[0], env) else t.args[2], env)
    if o == "MASKED":
        return "masked" if neval(t.args[0], env) else neval(t.args[1], env)
    if o == "not":
        return not neval(t.args[0], env)
    if o == "bool":
        xs = [neval(y, env) for y in t.args[1:]]
        return all(xs) if t.args[0] == "and" else any(xs)
    if o == "cmp" and t.args[0] in ("<", "<=", ">", ">=", "==", "!="):
        a, b = neval(t.args[1], env), neval(t.args[2], env)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[t.args[0]]
    if o == "un" and t.args[0] == "-":
        return -neval(t.args[1], env)
    if o == "bin" and t.args[0] in ("+", "-", "*", "/", "**"):
        a, b = neval(t.args[1], env), neval(t.args[2], env)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a ** b}[t.args[0]]()
    if o == "call" and t.args[0] in ("numpy.log", "numpy.exp", "numpy.isnan", "numpy.abs", "builtins.abs") and len(t.args) == 2:
        a = neval(t.args[1], env)
        return {"log": math.log, "exp": math.exp, "isnan": math.isnan, "abs": abs}[last(t.args[0])](a)
    raise Unk("value of " + show(t))


def differs(e, want, ref, r0, r1, v, safe):
    """a value for which the term differs from the specified map, decided with numbers; None when none is found"""
    for dom in ((2.0, 5.0), (0.25, 0.5)):
        for rd in ((-1.5, 3.0), (0.0, 1.0)) if ref is not None else ((None, None),):
            env = {mk("sub", sym("domain"), const(k)): dom[k] for k in (0, 1)}
            if ref is not None:
                env.update({mk("sub", ref, const(k)): rd[k] for k in (0, 1)})
            a, b = neval(r0, env), neval(r1, env)
            for q in (-0.3, -1e-4, 0.1, 0.4, 0.6, 0.9, 1.0001, 1.3):
                x = dom[0] + q * (dom[1] - dom[0])
                if x <= 0:
                    continue
                env[sym("x")] = x
                got, w = neval(e, env), neval(want, env)
                if safe and not 0 <= q <= 1:
                    w = math.nan
                if got == "masked" or isinstance(got, complex) or math.isnan(got) != math.isnan(w) or not math.isnan(w) and abs(got - w) > 1e-9 * max(1, abs(w)):
                    return "x = %g on the domain %s%s is mapped to %s, expected %s" % (x, dom, "" if ref is None else " with reference domain %s" % (rd,), got, w)
    return None


@prop("M01", "The transformation of every basis is evaluated for every combination of log and safe_eval and both kinds of reference domain; it must be the affine map of the (logarithm of the) "
             "domain onto the reference domain, with values outside replaced by NaN when safe_eval is on, and inv_transform must be its inverse.",
      ["exact arithmetic; the domain is wider than the guard value used against division by zero"])
def m01(ctx):
    x = sym("x")
    dom = sym("domain")
    for cls in BASES:
        for log in (False, True):
            for safe in (False, True):
                for ref in (None, sym("ref_domain")):
                    r, f = build(ctx, cls, 3, log, safe, ref)
                    key = "%s,log=%s,safe=%s,ref=%s" % (cls, log, safe, "given" if ref is not None else "default")
                    tr, inv = fld(r, "transform"), fld(r, "inv_transform")
                    n = Norm()
                    r0, r1 = DEFREF[cls] if ref is None else (mk("sub", ref, const(0)), mk("sub", ref, ONE))
                    d0, d1 = mk("sub", dom, const(0)), mk("sub", dom, ONE)
                    L = (lambda y: mk("call", "numpy.log", y)) if log else (lambda y: y)
                    B = lambda o, a, b: mk("bin", o, a, b)
                    scale = B("/", B("-", r1, r0), B("-", L(d1), L(d0)))
                    v = B("+", B("*", B("-", L(x), L(d0)), scale), r0)
                    iv = B("+", B("/", B("-", x, r0), scale), L(d0))
                    if log:
                        iv = mk("call", "numpy.exp", iv)
                    for nm, want in (("transform", v), ("inv_transform", iv)):
                        e = None
                        try:
                            got = r.eng.deref(r.eng.call_method(SELF, nm, [x], {}, r.state, None), r.state)
                            got = fix_max(given(got))
                            e = xform_ix().ev(got).fn([])
                            if nm == "inv_transform" or not safe:
                                if any(y.op in ("ite", "cmp") for y in walk(e)):
                                    if nm == "transform":
                                        bad = [CASES[k] for k in range(5) if not same_n(n, in_case(e, k, v, r0, r1, scale, n), v)]
                                        ctx.req(not bad, nm + "@" + key, at(f), "without safe_eval every value is mapped by the affine map; differs for values %s" % ", ".join(bad))
                                    else:
                                        ctx.und(nm + "@" + key, at(f), "conditional inverse " + show(e))
                                    continue
                                ctx.req(same_n(n, e, want), nm + "@" + key, at(f), "%s(x) is %s; expected %s" % (nm, show(n(e), 8), show(n(want), 8)), "affine map%s" % (" of the logarithm" if log else ""))
                                continue
                            wrong = []
                            for k in range(6):
                                c = in_case(e, k, v, r0, r1, scale, n)
                                if k in (0, 4):
                                    good = c is NAN or n(c) is n(NAN)
                                elif k == 5:
                                    good = c is NAN or same_n(n, c, v)
                                else:
                                    good = same_n(n, c, v) or k == 1 and same_n(n, c, r0) or k == 3 and same_n(n, c, r1)
                                if not good:
                                    wrong.append("%s: %s" % (CASES[k], show(n(c), 8)))
                            ctx.req(not wrong, nm + "@" + key, at(f), "a value mapped inside [%s, %s] stays %s and one outside becomes NaN; %s" % (show(r0), show(r1), show(v, 8), "; ".join(wrong)),
                                    "affine map with NaN outside, decided in %d cases" % len(CASES))
                        except Unk as ex:
                            why = None
                            if e is not None and nm == "transform":
                                try:
                                    why = differs(e, v, ref, r0, r1, v, safe)
                                except (Unk, ArithmeticError, ValueError):
                                    why = None
                            if why:
                                ctx.bad(nm + "@" + key, at(f), why)
                            else:
                                ctx.und(nm + "@" + key, at(f), str(ex))


def same_n(n, a, b):
    return n(a) is n(b) or n(mk("bin", "-", a, b)) is const(0)


# ---------------------------------------------------------------------------------------------------- basis functions
def trv(x):
    return mk("call", "TR", x)


def leg(j, t):
    return ONE if j == 0 else t if j == 1 else mk("call", "LEG", const(j), t)


def legder(c, m):
    c = [Fraction(y) for y in c]
    for _ in range(m):
        if len(c) <= 1:
            return [Fraction(0)]
        out = [Fraction(0)] * (len(c) - 1)
        for k, y in enumerate(c):
            for j in range(k - 1, -1, -2):
                out[j] += (2 * j + 1) * y
        c = out
    return c


def frac(q):
    return const(int(q)) if q.denominator == 1 else mk("bin", "/", const(q.numerator), const(q.denominator))


def lincomb(cs, t):
    s = const(0)
    for j, c in enumerate(cs):
        if c:
            s = mk("bin", "+", s, mk("bin", "*", c if isinstance(c, T) else frac(Fraction(c)), leg(j, t)))
    return s


def intval(t):
    if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool) and t.args[0] == int(t.args[0]):
        return int(t.args[0])
    return None


def basis_ix(rank, value=sym("value")):
    """denotations of the numpy polynomial functions; `value` is an array with `rank` axes"""
    axes = [mk("dim", value, const(k)) for k in range(rank)]
    ix = Ix({value: Arr(axes, lambda i: mk("elt", value, *i)), sym("domain"): Arr((const(2),), lambda i: mk("sub", sym("domain"), i[0]))})
    ix.max_sum = max(LARGE)

    def num(t):
        if t.op == "call" and last(t.args[0]) in ("min", "max", "minimum", "maximum") and len(t.args) == 3 and not any(y.op == "kw" for y in t.args[1:]):
            return (min if last(t.args[0]).startswith("min") else max)(num(t.args[1]), num(t.args[2]))
        k = intval(ix.norm(ix.sc(t)))
        if k is None:
            raise Unk("number " + show(t))
        return k

    def items(t):
        """elements of a list built from repeated and joined lists"""
        if t.op in ("list", "tuple"):
            out = []
            for y in t.args:
                out += items(y.args[0]) if y.op == "spread" else [y]
            return out
        if t.op == "cat" or t.op == "bin" and t.args[0] == "+":
            return [z for y in (t.args if t.op == "cat" else t.args[1:]) for z in items(y)]
        if t.op == "spread":
            return items(t.args[0])
        if t.op == "bin" and t.args[0] == "*":
            for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if a.op in ("list", "tuple", "cat", "spread"):
                    return items(a) * max(num(b), 0)
        raise Unk("list " + show(t))

    def coeffs(t, exact=True):
        try:
            out = []
            for y in items(t):
                q = ix.norm(ix.sc(y))
                if not is_const(q):
                    raise Unk("coefficient " + show(q))
                out.append(Fraction(q.args[0]))
            return out
        except Unk:
            pass
        c = ix.ev(t)
        if c.rank != 1 or intval(ix.norm(c.dims[0])) is None:
            raise Unk("coefficients " + show(t))
        out = []
        for k in range(intval(ix.norm(c.dims[0]))):
            q = ix.norm(c.fn([const(k)]))
            if not is_const(q) and exact:
                raise Unk("coefficient " + show(q))
            out.append(Fraction(q.args[0]) if is_const(q) else q)
        return out

    def hook(t):
        if t.op != "call":
            return None
        n = t.args[0]
        a = [y for y in t.args[1:] if isinstance(y, T) and y.op != "kw"]
        kw = {y.args[0]: y.args[1] for y in t.args[1:] if isinstance(y, T) and y.op == "kw"}
        s = last(n)
        if n == "TR" and len(a) == 1:
            v = ix.ev(a[0])
            return Arr(v.dims, lambda i: trv(v.fn(i)))
        if n == "numpy.atleast_1d" and len(a) == 1:
            v = ix.ev(a[0])
            return v if v.rank else Arr((ONE,), lambda i: v.fn([]))
        if n == "numpy.multiply.outer" and len(a) == 2:
            u, v = ix.ev(a[0]), ix.ev(a[1])
            return Arr(tuple(u.dims) + tuple(v.dims), lambda i: mk("bin", "*", u.fn(i[:u.rank]), v.fn(i[u.rank:])))
        if n.startswith("numpy.polynomial.") or n == "numpy.vander":
            if s in ("polyvander", "legvander"):
                v = ix.ev(a[0] if a else kw["x"])
                k = num(kw["deg"] if "deg" in kw else a[1])
                if k < 0:
                    raise SizeErr("%s of degree %d" % (s, k))
                v1 = v if v.rank else Arr((ONE,), lambda i: v.fn([]))

                def fn(i):
                    j = intval(ix.norm(i[-1]))
                    if j is None:
                        raise Unk("column " + show(i[-1]))
                    return mk("bin", "**", v1.fn(i[:-1]), const(j)) if s == "polyvander" else leg(j, v1.fn(i[:-1]))
                return Arr(v1.dims + (const(k + 1),), fn)
            if s == "vander" and (is_const(kw.get("increasing", FALSE), True) or len(a) > 2 and is_const(a[2], True)):
                v = ix.ev(a[0])
                if v.rank != 1:
                    raise SizeErr("numpy.vander of an array with %d axes" % v.rank)
                k = num(a[1] if len(a) > 1 else kw["N"])
                return Arr(v.dims + (const(k),), lambda i: mk("bin", "**", v.fn(i[:1]), i[1]))
            if s == "legder":
                c = legder(coeffs(a[0]), num(a[1] if len(a) > 1 else kw.get("m", ONE)))
                return Arr((const(len(c)),), lambda i: frac(c[intval(ix.norm(i[0]))]))
            if s in ("legval", "polyval") and len(a) == 2:
                v, c = ix.ev(a[0]), coeffs(a[1], False)
                if s == "legval":
                    return Arr(v.dims, lambda i: lincomb(c, v.fn(i)))
                raise Unk(n)
            raise Unk(n)
        return None
    ix.hook = hook
    return ix


def column(cls, j, t):
    if cls == "Monomial":
        return ONE if j == 0 else mk("bin", "**", t, const(j))
    if cls == "Legendre":
        return leg(j, t)
    if j == 0:
        return ONE
    return mk("call", "numpy.cos" if j % 2 else "numpy.sin", mk("bin", "*", const((j + 1) // 2), t))


def with_tr(r):
    r.state.heap[("f", SELF, "transform")] = mk("ext", "TR")


def elements(ix, t, rank, ncol, n):
    """(elements per column as terms, problem)"""
    a = ix.ev(t)
    want = rank + (0 if ncol is None else 1)
    if a.rank != want:
        return None, "result has %d axes, expected %d" % (a.rank, want)
    idx = [fresh() for _ in range(rank)]
    for k in range(rank):
        d, e = a.dims[k], mk("dim", sym("value"), const(k))
        if d is not e and not (rank == 0) and n(d) is not n(e):
            return None, "axis %d has length %s" % (k, show(d))
    if ncol is None:
        return ([a.fn(idx)], idx), None
    m = intval(n(a.dims[-1]))
    if m is None:
        raise Unk("number of columns " + show(a.dims[-1]))
    if m != ncol:
        return None, "%d columns, expected %d" % (m, ncol)
    return ([a.fn(idx + [const(j)]) for j in range(ncol)], idx), None


def entry(ctx, key, where, cls, r, name, args, rank, ncol, want, what):
    """decide one call of an evaluation method: its columns must be `want(j, t)`"""
    try:
        n = Norm()
        got = fix_max(r.eng.deref(r.eng.call_method(SELF, name, args, {}, r.state, None), r.state))
        ix = basis_ix(rank)
        res, problem = elements(ix, got, rank, ncol, n)
        if problem is None:
            es, idx = res
            t = trv(mk("elt", sym("value"), *idx))
            for j, e in enumerate(es):
                if any(y.op in ("ite", "where", "cmp") for y in walk(e)):
                    raise Unk("conditional element " + show(e, 4))
                w = want(j, t)
                if not same_n(n, e, w):
                    if not contains(e, lambda y: y.op == "call" and y.args[0] == "TR") and contains(e, lambda y: y.op in ("call",) and y.args[0] not in ("numpy.cos", "numpy.sin", "LEG")):
                        raise Unk("element " + show(e, 6))
                    problem = "function %d is %s, expected %s" % (j, show(n(e), 6), show(n(w), 6))
                    break
        if problem:
            ctx.bad(key, where, "%s: %s" % (what, problem))
        else:
            ctx.ok(key, where, what)
    except SizeErr as ex:
        ctx.bad(key, where, "%s: %s" % (what, ex))
    except Unk as ex:
        ctx.und(key, where, "%s: %s" % (what, ex))


SIZES = range(1, 10)


@prop("M02", "For each basis the functions evaluated by eval_all, __call__, eval and eval_single_moment are computed symbolically (sizes 1..9, orders 0..8, values with 1 and 3 axes) and compared with the "
             "documented basis functions of the transformed value; change_size and equality are decided for symbolic parameters.",
      ["numpy.polynomial polyvander/legvander compute the monomials / Legendre polynomials", "columns decided for sizes up to 9"])
def m02(ctx):
    val = sym("value")
    for cls in BASES:
        c = ctx.prog.cls(MOD + "." + cls)
        full = lambda j, t: column(cls, j, t)
        for rank in (1, 3):
            for size in SIZES if rank == 1 else (1, 4, 5):
                r, f = build(ctx, cls, size, False, False)
                with_tr(r)
                k = "%s,size=%d,axes=%d" % (cls, size, rank)
                w = at(ctx.method(c, "_eval_all"))
                entry(ctx, "eval_all@" + k, w, cls, r, "eval_all", [val], rank, size, full, "eval_all(value)")
                entry(ctx, "call@" + k, at(ctx.method(c, "__call__")), cls, r, "__call__", [val], rank, size, full, "__call__(value)")
                for s2 in sorted({1, size - 1, size}):
                    if s2 > 0:
                        entry(ctx, "prefix@%s,first=%d" % (k, s2), w, cls, r, "eval_all", [val, const(s2)], rank, s2, full, "eval_all(value, %d): the first functions of the same basis" % s2)
            r, f = build(ctx, cls, 9, False, False)
            with_tr(r)
            for i in range(9):
                k = "%s,i=%d,axes=%d" % (cls, i, rank)
                one = lambda j, t: column(cls, i, t)
                entry(ctx, "eval@" + k, at(ctx.method(c, "eval")), cls, r, "eval", [const(i), val], rank, None, one, "eval(%d, value) is function %d" % (i, i))
                entry(ctx, "single@" + k, at(ctx.method(c, "eval_single_moment")), cls, r, "eval_single_moment", [const(i), val], rank, None, one, "eval_single_moment(%d, value) is function %d" % (i, i))


@prop("M02", "", [])
def m02_beyond(ctx):
    """functions beyond the number of moments of the object, too: the documented basis does not end"""
    val = sym("value")
    for cls in BASES:
        c = ctx.prog.cls(MOD + "." + cls)
        for size in (1, 4, 5):
            r, f = build(ctx, cls, size, False, False)
            with_tr(r)
            full = lambda j, t: column(cls, j, t)
            for s2 in (size + 1, size + 2, 9):
                entry(ctx, "extended@%s,size=%d,first=%d" % (cls, size, s2), at(ctx.method(c, "_eval_all")), cls, r, "eval_all", [val, const(s2)], 1, s2, full, "eval_all(value, %d) of %d moments" % (s2, size))
            for i in range(size, 9):
                one = lambda j, t, i=i: column(cls, i, t)
                for nm in ("eval", "eval_single_moment"):
                    entry(ctx, "beyond@%s,%s,size=%d,i=%d" % (cls, nm, size, i), at(ctx.method(c, nm)), cls, r, nm, [const(i), val], 1, None, one, "%s(%d, value) of %d moments is function %d" % (nm, i, size, i))


LARGE = (17, 26, 41)


@prop("M02", "", [])
def m02_large(ctx):
    """orders used by the density approximation"""
    val = sym("value")
    for cls in BASES:
        c = ctx.prog.cls(MOD + "." + cls)
        full = lambda j, t: column(cls, j, t)
        for size in LARGE:
            r, f = build(ctx, cls, size, False, False, unroll=size)
            with_tr(r)
            k = "%s,size=%d,axes=1" % (cls, size)
            entry(ctx, "eval_all@" + k, at(ctx.method(c, "_eval_all")), cls, r, "eval_all", [val], 1, size, full, "eval_all(value)")
        for i in list(range(9, max(LARGE))) + [64, 101]:
            one = lambda j, t, i=i: column(cls, i, t)
            entry(ctx, "eval@%s,i=%d,axes=1" % (cls, i), at(ctx.method(c, "eval")), cls, r, "eval", [const(i), val], 1, None, one, "eval(%d, value) is function %d" % (i, i))


def bound(ctx, f, e, skip_self=True):
    """arguments of a construction bound to the parameters of __init__"""
    names = [a.arg for a in f.node.args.args][1:]
    out = dict(zip(names, e.args))
    out.update(e.kw or {})
    return out


@prop("M02", "", [])
def m02_params(ctx):
    P = ("domain", "ref_domain", "log", "safe_eval")
    for cls in BASES:
        c = ctx.prog.cls(MOD + "." + cls)
        # ---- change_size
        r, f = build(ctx, cls, sym("size"), sym("log"), sym("safe_eval"), sym("ref_domain"))
        g = ctx.method(c, "change_size")
        n0 = len(r.eng.events)
        r.eng.call_method(SELF, "change_size", [sym("newsize")], {}, r.state, None)
        news = [e for e in r.eng.events[n0:] if e.kind == "new" or e.kind == "call" and last(e.name) in ("__class__", cls, "type(self)", "apply:apply", "apply")]
        news = [e for e in news if any(a is sym("newsize") for a in list(e.args) + list((e.kw or {}).values()))]
        key = "change_size@" + cls
        if len(news) != 1:
            ctx.und(key, at(g), "construction of the resized moments not found")
        else:
            b = bound(ctx, f, news[0])
            b = {k: given(r.eng.deref(v, r.state)) for k, v in b.items()}
            wrong = ["size: %s" % show(b.get("size", NONE))] if b.get("size") is not sym("newsize") else []
            wrong += ["%s: %s" % (p, show(b[p]) if p in b else "left at its default") for p in P if b.get(p) is not sym(p)]
            if wrong and any("mu" in w or "ite" in w for w in wrong):
                ctx.und(key, at(g), "; ".join(wrong))
            else:
                ctx.req(not wrong, key, news[0].where() if callable(news[0].where) else at(g), "change_size(n) keeps domain, ref_domain, log and safe_eval; " + "; ".join(wrong), "all parameters are passed on")
        # ---- equality
        g = ctx.method(c, "__eq__")
        key = "equality@" + cls
        o = sym("other")
        r, f = build(ctx, cls, sym("size"), sym("log"), sym("safe_eval"), sym("ref_domain"))
        mine = {k[2]: v for k, v in r.state.heap.items() if k[0] == "f" and k[1] is SELF}
        ren = {sym(p): sym("other_" + p) for p in P + ("size",)}
        for k, v in list(mine.items()):
            if v.op == "fn":
                continue
            r.state.heap[("f", o, k)] = subst(given(r.eng.deref(v, r.state)), ren)
        t = given(r.eng.deref(r.eng.call_method(SELF, "__eq__", [o], {}, r.state, None), r.state))
        miss = []
        try:
            base = eq_eval(t, ren, None)
            if base is not True:
                miss.append("not equal to an object with the same parameters")
            for p in P + ("size", "type"):
                # the intervals differ in one end only
                for d in ([(p, 0), (p, 1)] if p in ("domain", "ref_domain") else [p]):
                    if eq_eval(t, ren, d) is not False:
                        miss.append("%s is not compared" % (p if d is p else "%s[%d]" % d))
            ctx.req(not miss, key, at(g), "moments are equal exactly if type, size, domain, ref_domain, log and safe_eval agree: " + "; ".join(miss), "type, size, domain, ref_domain, log and safe_eval are compared")
        except Unk as ex:
            ctx.und(key, at(g), str(ex))


def eq_eval(t, ren, differ):
    """truth of an equality test when all parameters agree except `differ`"""
    if t.op == "const":
        return bool(t.args[0])
    if t.op == "not":
        return not eq_eval(t.args[0], ren, differ)
    if t.op == "bool":
        xs = [eq_eval(x, ren, differ) for x in t.args[1:]]
        return all(xs) if t.args[0] == "and" else any(xs)
    if t.op == "ite":
        return eq_eval(t.args[1] if eq_eval(t.args[0], ren, differ) else t.args[2], ren, differ)
    if t.op == "call" and t.args[0] in ("numpy.all", "builtins.all", "builtins.bool", "numpy.array_equal", ".all", "numpy.allclose"):
        a = [x for x in t.args[1:] if isinstance(x, T) and x.op != "kw"]
        if len(a) == 1:
            return eq_eval(a[0], ren, differ)
        return eq_eval(mk("cmp", "==", a[0], a[1]), ren, differ)
    if t.op == "call" and t.args[0] in ("numpy.any", "builtins.any", ".any") and len(t.args) == 2:
        # two arrays that differ may still agree in some of their elements
        return eq_eval(t.args[1], ren, differ) or t.args[1].op == "cmp" and t.args[1].args[0] == "=="
    if t.op == "call" and t.args[0] in ("builtins.isinstance", "builtins.issubclass"):
        return True
    if t.op == "cmp" and t.args[0] in ("==", "is", "!=", "is not", "isnot"):
        a, b = t.args[1:]
        sw = t.args[0] in ("!=", "is not", "isnot")
        if contains(a, lambda x: x.op == "call" and x.args[0] == "builtins.type") or a.op == "attr" and a.args[1] == "__class__":
            return sw if differ == "type" else not sw
        if a.op in ("list", "tuple") and b.op == a.op and len(a.args) == len(b.args):
            r = all(eq_eval(mk("cmp", "==", x, y), ren, differ) for x, y in zip(a.args, b.args))
            return r != sw
        s = {k for k in ren if contains(a, lambda x: x is k)} | {k for k in ren if contains(b, lambda x: x is k)}
        if subst(a, ren) is b or subst(b, ren) is a:
            p, comp = differ if isinstance(differ, tuple) else (differ, None)
            if not any(k.args[0] == p for k in s):
                return not sw
            if a.op == "sym" or b.op == "sym":
                return sw
            if comp is not None and a.op == "sub" and a.args[0].op == "sym" and a.args[1].op == "const" and isinstance(a.args[1].args[0], int):
                return (a.args[1].args[0] % 2 == comp) == sw
            # a derived quantity: the difference may or may not show
            raise Unk("comparison of %s" % show(a))
        if a.op == b.op == "sym" and len(s | {k for k in ren if ren[k] in (a, b)}) == 2 and (a in ren or a in ren.values()) and (b in ren or b in ren.values()):
            # two different parameters, which need not have the same value
            return sw
        raise Unk("comparison %s" % show(t))
    raise Unk("test %s" % show(t))


# ---------------------------------------------------------------------------------------------------- M03
@prop("M03", "Derivatives of the Legendre basis are computed symbolically (sizes 1..8, first to third derivative, values with 1 and 3 axes) and compared with the exact expansion of the derivatives of the Legendre "
             "polynomials; transformed moments must be the given matrix applied to the corresponding values of the original functions.",
      ["numpy.polynomial legval/legder/legvander are the Legendre functions", "derivatives are taken with respect to the reference variable"])
def m03(ctx):
    val = sym("value")
    cls = "Legendre"
    c = ctx.prog.cls(MOD + "." + cls)
    der = lambda m: lambda j, t: lincomb(legder([0] * j + [1], m), t)
    for rank in (1, 3):
        for size in range(1, 9) if rank == 1 else (1, 4):
            r, f = build(ctx, cls, size, False, False)
            with_tr(r)
            for s2 in sorted({size, max(1, size - 1), 1}):
                k = "size=%d,first=%d,axes=%d" % (size, s2, rank)
                entry(ctx, "diff@" + k, at(ctx.method(c, "_eval_diff")), cls, r, "eval_diff", [val, const(s2)], rank, s2, der(1), "eval_diff(value, %d): first derivatives of the basis" % s2)
                entry(ctx, "diff2@" + k, at(ctx.method(c, "_eval_diff2")), cls, r, "eval_diff2", [val, const(s2)], rank, s2, der(2), "eval_diff2(value, %d): second derivatives of the basis" % s2)
                for m in (1, 2, 3):
                    entry(ctx, "der%d@%s" % (m, k), at(ctx.method(c, "_eval_all_der")), cls, r, "eval_all_der", [val, const(s2), const(m)], rank, s2, der(m),
                          "eval_all_der(value, %d, degree=%d): derivatives of the basis" % (s2, m))


@prop("M03", "", [])
def m03_large(ctx):
    val = sym("value")
    cls = "Legendre"
    c = ctx.prog.cls(MOD + "." + cls)
    der = lambda m: lambda j, t: lincomb(legder([0] * j + [1], m), t)
    size = LARGE[1]
    r, f = build(ctx, cls, size, False, False, unroll=size)
    with_tr(r)
    k = "size=%d,axes=1" % size
    entry(ctx, "diff@" + k, at(ctx.method(c, "_eval_diff")), cls, r, "eval_diff", [val, const(size)], 1, size, der(1), "eval_diff(value, %d): first derivatives of the basis" % size)
    for m in (1, 2):
        entry(ctx, "der%d@%s" % (m, k), at(ctx.method(c, "_eval_all_der")), cls, r, "eval_all_der", [val, const(size), const(m)], 1, size, der(m),
              "eval_all_der(value, %d, degree=%d): derivatives of the basis" % (size, m))


@prop("M03", "", [])
def m03_transformed(ctx):
    c = ctx.prog.cls(MOD + ".TransformedMoments")
    f = ctx.method(c, "__init__")
    val, mat, org = sym("value"), sym("matrix"), sym("other_moments")
    r = ctx.run_method(c, "__init__")
    N, M = mk("dim", mat, const(0)), mk("dim", mat, ONE)
    # size and equality
    sz = r.eng.deref(r.state.heap.get(("f", SELF, "size"), NONE), r.state)
    D0 = (N, mk("dim", mat), sub(attr(mat, "shape"), const(0)))
    ctx.req(sz in D0, "transformed@size", at(f), "number of new functions is the number of rows of the matrix: " + show(sz, 4))
    dm = r.eng.deref(r.state.heap.get(("f", SELF, "domain"), NONE), r.state)
    ctx.req(dm is attr(org, "domain"), "transformed@domain", at(f), "domain of the original functions: " + show(dm, 4))
    ren = {org: sym("other_other_moments"), mat: sym("other_matrix")}
    o = sym("other")
    for k, v in [(k[2], v) for k, v in r.state.heap.items() if k[0] == "f" and k[1] is SELF]:
        r.state.heap[("f", o, k)] = subst(r.eng.deref(v, r.state), ren)
    t = r.eng.deref(r.eng.call_method(SELF, "__eq__", [o], {}, r.state, None), r.state)
    dims = lambda x: (mk("dim", x, const(0)), mk("dim", x, ONE), mk("dim", x), attr(x, "shape"), sub(attr(x, "shape"), const(0)), sub(attr(x, "shape"), ONE))
    same = {y: z for x in ren.values() for y, z in zip(dims(x), dims(mat))}
    same.update({mk("attr", x, "size"): mk("attr", org, "size") for x in ren.values()})
    t = subst(t, same)
    t = subst(t, {mk("cmp", "==", y, y): TRUE for y in dims(mat)})
    g = at(ctx.method(c, "__eq__"))
    try:
        miss = [] if eq_eval(t, ren, None) is True else ["not equal to an object with the same parameters"]
        if eq_eval(t, ren, "type") is not False:
            miss.append("type is not compared")
        miss += [k.args[0] + " is not compared" for k in ren if eq_eval(t, ren, k.args[0]) is not False]
        ctx.req(not miss, "transformed@equality", g, "equal exactly if the original functions and the matrix agree: " + "; ".join(miss), "original functions and matrix are compared")
    except Unk as ex:
        ctx.und("transformed@equality", g, str(ex))
    r = ctx.run_method(c, "__init__")
    for pub, kinds in (("eval_all", "value"), ("eval_all_der", "der"), ("eval_diff", "diff"), ("eval_diff2", "diff2")):
        for rank in (1, 3):
            for extra in ([], [const(3)]) if pub != "eval_all_der" else ([], [const(3), const(2)]):
                key = "transformed@%s,axes=%d%s" % (pub, rank, ",first=3" if extra else "")
                w = at(ctx.method(c, "_" + pub))
                axes = [mk("dim", val, const(k)) for k in range(rank)]
                ix = Ix({val: Arr(axes, lambda i: mk("elt", val, *i)), mat: Arr((N, M), lambda i: mk("sub", mat, i[0], i[1]))})
                deg = extra[1] if len(extra) > 1 else ONE

                def hook(t):
                    if t.op == "call" and t.args[0].startswith(".") and len(t.args) > 2 and t.args[1] is org:
                        s = t.args[0][1:].lstrip("_")
                        a = [y for y in t.args[2:] if y.op != "kw"]
                        kw = {y.args[0]: y.args[1] for y in t.args[2:] if y.op == "kw"}
                        if s not in ("eval_all", "eval_all_der", "eval_diff", "eval_diff2", "__call__"):
                            raise Unk(s)
                        v = ix.ev(a[0])
                        size = a[1] if len(a) > 1 else kw.get("size")
                        if size is not None and size is not NONE and size is not mk("attr", org, "size") and ix.norm(ix.sc(size)) is not M:
                            raise SizeErr("the original functions are evaluated for size %s instead of their own" % show(size))
                        d = a[2] if len(a) > 2 else kw.get("degree", ONE)
                        what = {"eval_all": "value", "eval_all_der": "der", "eval_diff": "diff", "eval_diff2": "diff2", "call__": "value"}[s.replace("__call__", "call__")]
                        tag = const("%s%s" % (what, "" if what != "der" else show(d)))
                        return Arr(v.dims + (M,), lambda i: mk("ORIG", tag, v.fn(i[:-1]), i[-1]))
                    if t.op == "call" and t.args[0] == "numpy.atleast_1d":
                        return ix.ev(t.args[1])
                    if t.op == "attr" and t.args[1] == "size" and t.args[0] is org:
                        return ix.scalar(M)
                    return None
                ix.hook = hook
                try:
                    got = r.eng.deref(r.eng.call_method(SELF, pub, [val] + extra, {}, r.state, None), r.state)
                    tag = const("%s%s" % (kinds, "" if kinds != "der" else show(deg)))
                    orig = Arr(tuple(axes) + (M,), lambda i: mk("ORIG", tag, mk("elt", val, *i[:-1]), i[-1]))
                    want = ix.matmul(orig, Arr((M, N), lambda i: mk("sub", mat, i[1], i[0])))
                    a = ix.ev(got)
                    problem = None
                    if a.rank != rank + 1:
                        problem = "%d axes" % a.rank
                    else:
                        q = [fresh() for _ in range(rank + 1)]
                        g, e = ix.norm(a.fn(q)), ix.norm(want.fn(q))
                        if g is not e:
                            problem = "element %s, expected %s" % (show(g, 8), show(e, 8))
                        for k in range(rank):
                            dk, ek = ix.norm(a.dims[k]), ix.norm(axes[k])
                            if problem is None and dk is not ek and not (dk.op == "dim" and ek.op == "dim"):
                                problem = "axis %d of the result has length %s instead of that of the values" % (k, show(dk, 6))
                        d = ix.norm(a.dims[-1])
                        if problem is None and extra and is_const(d) and d is not const(3):
                            problem = "%s columns" % show(d)
                    if problem:
                        ctx.bad(key, w, "new functions are matrix . original functions: " + problem)
                    else:
                        ctx.ok(key, w, "matrix applied to the %s of the original functions" % tag.args[0])
                except SizeErr as ex:
                    ctx.bad(key, w, str(ex))
                except Unk as ex:
                    ctx.und(key, w, str(ex))
