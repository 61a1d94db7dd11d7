"""Array denotations: a numpy expression is turned into  (axes, element as a function of the index variables).

Two expressions with the same axes and the same normalised element denote the same array, however they are written
(np.sum / .sum / einsum, slicing vs. Ellipsis, transpose + swapped axis, ...).  Anything outside the fragment raises Unk:
the caller then reports 'undecided', never a violation."""
import itertools
from .terms import *
from .terms import T, mk, Poly
from .terms import _pconst
from fractions import Fraction
from . import terms as _terms


def boolop(o, *xs):
    """conjunctions and disjunctions of elements do not depend on the order of their operands"""
    t = _terms.boolop(o, *xs)
    return mk("bool", o, *sorted(t.args[1:], key=lambda z: z._h)) if t.op == "bool" else t



def resort(t):
    if not isinstance(t, T) or t.op not in ("bool", "not"):
        return t
    if t.op == "not":
        return neg(resort(t.args[0]))
    return boolop(t.args[0], *[resort(x) for x in t.args[1:]])


_fresh = itertools.count()


class Unk(Exception):
    pass


class SizeErr(Unk):
    """an array is given a shape of another size"""


def fresh():
    return mk("tv", next(_fresh))


class Arr:
    """dims: axis tokens; fn: index terms -> element term.  A selected axis is mk('filt', axis, var, predicate):
    its elements keep the index of the axis they were selected from."""

    def __init__(self, dims, fn):
        self.dims, self.fn = tuple(dims), fn

    @property
    def rank(self):
        return len(self.dims)

    def at(self, *ix):
        return self.fn(list(ix))


ONE = const(1)
ELEM = {"numpy.sqrt", "numpy.exp", "numpy.log", "numpy.abs", "numpy.absolute", "numpy.isnan", "numpy.cos", "numpy.sin", "numpy.isfinite", "numpy.isinf",
        "numpy.round", "numpy.floor", "numpy.ceil", "numpy.square", "numpy.negative", "numpy.logical_not", "numpy.rint", "numpy.around", "numpy.invert", "builtins.abs", "numpy.float_power"}
ELEM2 = {"numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*", "numpy.divide": "/", "numpy.true_divide": "/", "numpy.power": "**", "numpy.mod": "%"}
CMP2 = {"numpy.less": "<", "numpy.greater": ">", "numpy.equal": "==", "numpy.not_equal": "!=", "numpy.less_equal": "<=", "numpy.greater_equal": ">="}
OPER = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "pow": "**", "mod": "%"}
OPERC = {"lt": "<", "gt": ">", "eq": "==", "ne": "!=", "le": "<=", "ge": ">="}
ASIS = {"numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "builtins.list", "builtins.tuple", "copy.copy", "copy.deepcopy", "builtins.float"}


def dims_same(a, b):
    return a is b


class Ix:
    def __init__(self, atoms=None, axes=None, rename=None):
        self.atoms = dict(atoms or {})       # term -> Arr
        self.axes = axes or {}
        self.norm = Norm()
        self.hook = None                     # term -> Arr or None, tried first
        self.max_sum = 12                    # longest sum written out

    # ------------------------------------------------------------------ scalars
    def scalar(self, t):
        return Arr((), lambda ix: t)

    def count(self, d):
        if d.op == "filt":
            base, v, p = d.args
            if p.op == "not":
                return binop("-", base, self.count(mk("filt", base, v, p.args[0])))
            return mk("SUM", d, mk("bv", height(d) + 1), ONE)
        return d

    # ------------------------------------------------------------------ evaluation
    def ev(self, t):
        if self.hook is not None:
            r = self.hook(t)
            if r is not None:
                return r
        r = self.atoms.get(t)
        if r is not None:
            return r
        f = getattr(self, "e_" + t.op, None)
        if f is not None:
            return f(t)
        raise Unk("%s: %s" % (t.op, show(t, 3)))

    def e_const(self, t):
        return self.scalar(t)

    def e_ext(self, t):
        return self.scalar(t)

    def e_un(self, t):
        o, a = t.args
        x = self.ev(a)
        if o == "-":
            return Arr(x.dims, lambda ix: mk("un", "-", x.fn(ix)))
        if o == "+":
            return x
        if o == "~":
            return Arr(x.dims, lambda ix: neg(x.fn(ix)))
        raise Unk("un " + o)

    def e_not(self, t):
        x = self.ev(t.args[0])
        return Arr(x.dims, lambda ix: neg(x.fn(ix)))

    def bcast(self, xs):
        r = max(x.rank for x in xs)
        dims = []
        for k in range(r):
            cand = []
            for x in xs:
                j = k - (r - x.rank)
                if j >= 0:
                    cand.append(x.dims[j])
            big = [d for d in cand if d is not ONE]
            if not big:
                dims.append(ONE)
                continue
            d0 = big[0]
            for d in big[1:]:
                if not dims_same(d, d0):
                    if d.op == "filt" or d0.op == "filt":
                        raise Unk("selected axis combined with another axis")
                    # equal lengths are required at run time; take the first
            dims.append(d0)

        def get(x):
            off = r - x.rank

            def g(ix):
                return x.fn([const(0) if x.dims[j] is ONE and dims[j + off] is not ONE else ix[j + off] for j in range(x.rank)])
            return g
        return tuple(dims), [get(x) for x in xs]

    def elementwise(self, f, *ts):
        xs = [t if isinstance(t, Arr) else self.ev(t) for t in ts]
        dims, gs = self.bcast(xs)
        return Arr(dims, lambda ix: f(*[g(ix) for g in gs]))

    def e_bin(self, t):
        o, a, b = t.args
        if o == "@":
            return self.matmul_t(a, b)
        if o == "*":
            xa, xb = a, b
            for p, q in ((a, b), (b, a)):
                if p.op == "list" and len(p.args) == 1 and p.args[0].op != "spread":
                    x = self.ev(p.args[0])
                    return Arr((q if q.op == "dim" else self.norm(self.sc(q)),) + tuple(x.dims), lambda ix: x.fn(ix[1:]))
                if p.op in ("list", "cat"):
                    raise Unk("list repetition")
        if o in ("+", "-", "*", "/", "**", "%", "//"):
            if o == "**" and is_const(b, 0.5):
                return self.elementwise(self.sqrt, a)
            if o == "//":
                def fdiv(x, y):
                    q = self.norm(binop("/", x, y))
                    # lengths of axes that divide each other
                    return q if q.op == "sym" and str(q.args[0]).startswith("#") or is_const(q, 1) else binop(o, x, y)
                return self.elementwise(fdiv, a, b)
            return self.elementwise(lambda x, y: binop(o, x, y), a, b)
        if o in ("&", "|"):
            return self.elementwise(lambda x, y: boolop("and" if o == "&" else "or", x, y), a, b)
        raise Unk("bin " + o)

    def sqrt(self, x):
        """square root; even powers of (positive) atoms are halved"""
        p, q = self.norm.ratio(x)
        out = []
        for z in (p, q):
            if len(z) != 1:
                return mk("call", "numpy.sqrt", self.norm(x))
            (m, c), = z.items()
            r = c.numerator ** 0.5, c.denominator ** 0.5
            if c <= 0 or any(v != int(v) for v in r) or any(e % 2 for _, e in m):
                return mk("call", "numpy.sqrt", self.norm(x))
            t = binop("/", const(int(r[0])), const(int(r[1]))) if r[1] != 1 else const(int(r[0]))
            for a, e in m:
                f = a if e == 2 else binop("**", a, const(e // 2))
                t = f if t is ONE else binop("*", t, f)
            out.append(t)
        return out[0] if out[1] is ONE else binop("/", out[0], out[1])

    def e_cmp(self, t):
        o, a, b = t.args
        if o in ("in", "notin", "is", "isnot"):
            raise Unk("cmp " + o)
        return self.elementwise(lambda x, y: cmpop(o, x, y), a, b)

    def e_bool(self, t):
        o = t.args[0]
        return self.elementwise(lambda *x: boolop(o, *x), *t.args[1:])

    def e_store(self, t):
        """array after an assignment to a part of it; decided for known positions"""
        base, key, val = t.args
        b, v = self.ev(base), self.ev(val)
        keys = list(key.args) if key.op == "tuple" else [key]
        ell = [k for k in keys if is_const(k) and k.args[0] is Ellipsis]
        full = mk("slice", NONE, NONE, NONE)
        seq = []
        for k in keys:
            if k in ell:
                seq += [full] * (b.rank - len(keys) + 1)
            else:
                seq.append(k)
        seq += [full] * (b.rank - len(seq))
        if len(ell) > 1 or len(seq) != b.rank:
            raise Unk("assignment to %s" % show(key))
        num = lambda x: x.args[0] if x is not None and x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool) else None
        plan = []
        for k, d in zip(seq, b.dims):
            if k.op == "slice":
                if k is full or k.args[0] in (NONE, const(0)) and k.args[1] is NONE and k.args[2] in (NONE, ONE):
                    plan.append(("all",))
                    continue
                lo, hi, st = [None if x is NONE else num(self.norm(self.sc(x))) for x in k.args]
                if any(x is not NONE and y is None for x, y in zip(k.args, (lo, hi, st))):
                    raise Unk("assignment to %s" % show(key))
                plan.append(("range", lo, hi, st or 1, num(d)))
            elif k.op == "ext":
                raise Unk("assignment to %s" % show(key))
            else:
                a = self.ev(k)
                if a.rank:
                    raise Unk("assignment to %s" % show(key))
                p = self.norm(a.fn([]))
                if num(p) is not None and num(p) < 0:
                    p = self.norm(binop("+", d, p))
                plan.append(("at", p))

        # lengths of the assigned part and of the value
        part = []
        for p, d in zip(plan, b.dims):
            if p[0] == "all":
                part.append(num(d))
            elif p[0] == "range":
                part.append(len(range(*slice(*p[1:4]).indices(p[4]))) if p[4] is not None else None)
        if v.rank <= len(part):
            for q, d in zip(part[len(part) - v.rank:], v.dims):
                if q is not None and num(d) is not None and num(d) not in (1, q):
                    raise SizeErr("%d values are assigned to %d places %s" % (num(d), q, show(key)))

        def fn(ix):
            vi = []
            for p, i in zip(plan, ix):
                if p[0] == "all":
                    vi.append(i)
                elif p[0] == "at":
                    if p[1] is i or self.norm(i) is p[1]:
                        continue
                    if num(self.norm(i)) is not None and num(p[1]) is not None:
                        return b.fn(ix)
                    raise Unk("position %s against %s" % (show(i), show(p[1])))
                else:
                    _, lo, hi, st, n = p
                    j = num(self.norm(i))
                    if j is None or n is None and (lo is not None and lo < 0 or hi is not None and hi < 0 or st < 0):
                        raise Unk("position %s in a range" % show(i))
                    r = range(*slice(lo, hi, st).indices(n if n is not None else 10 ** 6))
                    if j not in r:
                        return b.fn(ix)
                    vi.append(const(r.index(j)))
            if v.rank > len(vi):
                raise Unk("assigned value has more axes")
            off = len(vi) - v.rank
            return v.fn([const(0) if d is ONE else i for d, i in zip(v.dims, vi[off:])])
        return Arr(b.dims, fn)

    def e_fstore(self, t):
        """array filled row by row in a loop over one of its axes"""
        base, idx, dom, key, val, g = t.args
        if g is not TRUE or val.op == "accum":
            raise Unk("conditional filling")
        b = self.ev(base)
        keys = list(key.args) if key.op == "tuple" else [key]
        full = mk("slice", NONE, NONE, NONE)
        ell = [k for k in keys if is_const(k) and k.args[0] is Ellipsis]
        seq = []
        for k in keys:
            seq += [full] * (b.rank - len(keys) + 1) if k in ell else [k]
        seq += [full] * (b.rank - len(seq))
        on = [i for i, k in enumerate(seq) if k is not full]
        if len(seq) != b.rank or len(on) != 1:
            raise Unk("filling at %s" % show(key))
        ax = on[0]
        if seq[ax] is not idx:
            return self.fill_shifted(b, ax, idx, dom, seq[ax], val, key)
        if self.norm(self.domain(dom)) is not self.norm(b.dims[ax]):
            raise Unk("filling over %s of %s" % (show(dom), show(b.dims[ax])))
        v = self.ev(val)
        if v.rank > b.rank - 1:
            raise Unk("filling by a value with more axes")

        def fn(ix):
            rest = ix[:ax] + ix[ax + 1:]
            vi = rest[len(rest) - v.rank:] if v.rank else []
            e = v.fn([const(0) if d is ONE else i for d, i in zip(v.dims, vi)])
            return subst(e, {idx: ix[ax]})
        return Arr(b.dims, fn)

    def fill_shifted(self, b, ax, idx, dom, k, val, key):
        """row off + i is assigned for i = 0, ..., n - 1; off and n are known numbers"""
        num = lambda x: x.args[0] if x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool) else None
        off, n = num(self.norm(binop("-", k, idx))), num(self.norm(self.domain(dom)))
        if off is None or n is None or off < 0:
            raise Unk("filling at %s over %s" % (show(key), show(self.domain(dom))))
        size = num(self.norm(b.dims[ax]))
        if size is not None and off + n > size:
            raise SizeErr("rows up to %d of %d are assigned" % (off + n - 1, size))
        v = self.ev(val) if n > 0 else None
        if v is not None and v.rank > b.rank - 1:
            raise Unk("filling by a value with more axes")

        def fn(ix):
            j = num(self.norm(ix[ax]))
            if j is None:
                raise Unk("position in a partly filled axis")
            if not off <= j < off + n:
                return b.fn(ix)
            rest = ix[:ax] + ix[ax + 1:]
            vi = rest[len(rest) - v.rank:] if v.rank else []
            e = v.fn([const(0) if d is ONE else i for d, i in zip(v.dims, vi)])
            return subst(e, {idx: const(j - off)})
        return Arr(b.dims, fn)

    def e_where(self, t):
        return self.elementwise(self.pick, *t.args)

    def pick(self, c, x, y):
        """x where c, y elsewhere; the smaller / larger of two values when c compares them"""
        if c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">="):
            a, b, p, q = [self.norm(z) for z in (c.args[1], c.args[2], x, y)]
            if {a, b} == {p, q} and a is not b:
                small = (c.args[0][0] == "<") == (p is a)
                return self.extremum("min" if small else "max", p, q)
        return ite(c, x, y)

    def extremum(self, o, x, y):
        return mk("call", o, *sorted((self.norm(x), self.norm(y)), key=lambda z: z._h))

    def e_ite(self, t):
        c, a, b = t.args
        try:
            xc = self.ev(c)
        except Unk:
            xc = self.scalar(c)
        if xc.rank:
            raise Unk("array condition")
        cv = self.norm(xc.fn([]))
        if cv.op == "const":
            return self.ev(a if cv.args[0] else b)
        x, y = self.ev(a), self.ev(b)
        if x.rank != y.rank:
            raise Unk("ranks of alternatives")
        return Arr(x.dims, lambda ix: ite(xc.fn([]), x.fn(ix), y.fn(ix)))

    def e_list(self, t):
        if len(t.args) == 1 and t.args[0].op == "sub" and t.args[0].args[0].op == "star":
            # element k of every row: zip(*rows)[k]
            return self.index(self.ev(t.args[0].args[0].args[0]), tup(mk("slice", NONE, NONE, NONE), t.args[0].args[1]))
        xs = [self.ev(a) for a in t.args]
        return self.stack(xs, 0)

    e_tuple = e_list

    def join(self, xs):
        """parts one after another along the first axis; sizes of all but the last are known"""
        if not xs or any(not x.rank or x.rank != xs[0].rank or x.dims[1:] != xs[0].dims[1:] for x in xs):
            raise Unk("parts to be joined")
        ns = []
        for x in xs[:-1]:
            d = ONE if x.dims[0] is ONE else x.dims[0]
            if d.op != "const":
                raise Unk("size of a joined part %s" % show(d, 4))
            ns.append(d.args[0])
        off = sum(ns)
        dims = list(xs[0].dims)
        dims[0] = self.norm(mk("bin", "+", xs[-1].dims[0], const(off)))

        def fn(ix):
            k = ix[0]
            if k.op != "const":
                # the general element is taken from the last part; elements before are compared by themselves
                o = off
                r = xs[-1].fn([self.norm(mk("bin", "-", k, const(off)))] + ix[1:])
                for x, m in reversed(list(zip(xs, ns))):
                    o -= m
                    r = ite(mk("cmp", "<", k, const(o + m)), x.fn([self.norm(mk("bin", "-", k, const(o)))] + ix[1:]), r)
                return r
            o = k.args[0]
            for x, m in zip(xs, ns):
                if o < m:
                    return x.fn([const(o)] + ix[1:])
                o -= m
            return xs[-1].fn([const(o)] + ix[1:])
        return Arr(dims, fn)

    def stack(self, xs, axis):
        if not xs:
            raise Unk("empty stack")
        r = xs[0].rank
        if any(x.rank != r for x in xs):
            raise Unk("stack of different ranks")
        if axis < 0:
            axis += r + 1
        dims = list(xs[0].dims)
        dims.insert(axis, const(len(xs)))

        def fn(ix):
            k = ix[axis]
            rest = ix[:axis] + ix[axis + 1:]
            if len(xs) == 1:
                return xs[0].fn(rest)
            if k.op == "const":
                return xs[k.args[0]].fn(rest)
            return mk("pick", k, *[x.fn(rest) for x in xs])
        return Arr(dims, fn)

    def ev_moved(self, x, a, b):
        """axis a put to position b"""
        p = list(range(x.rank))
        p.remove(a)
        p.insert(b, a)
        inv = [p.index(i) for i in range(x.rank)]
        return Arr([x.dims[i] for i in p], lambda ix: x.fn([ix[inv[i]] for i in range(x.rank)]))

    def e_cat(self, t):
        if len(t.args) == 1 and t.args[0].op == "each":
            idx, dom, part, g = t.args[0].args
            if g is not TRUE or part.op != "list" or len(part.args) != 1:
                raise Unk("filtered comprehension")
            old = self.atoms.get(idx)
            self.atoms[idx] = self.scalar(idx)
            try:
                x = self.ev(part.args[0])
            finally:
                if old is None:
                    self.atoms.pop(idx, None)
                else:
                    self.atoms[idx] = old
            d = self.domain(dom)
            return Arr((d,) + x.dims, lambda ix: subst(x.fn(ix[1:]), {idx: ix[0]}))
        if len(t.args) == 1 and t.args[0].op == "spread":
            return self.ev(t.args[0].args[0])
        if len(t.args) > 1:
            return self.join([self.ev(p) if p.op in ("list", "tuple") else self.e_cat(mk("cat", p)) for p in t.args])
        raise Unk("concatenated list")

    def e_each(self, t):
        return self.e_cat(mk("cat", t))

    def domain(self, dom):
        if dom in self.axes:
            return self.axes[dom]
        if dom.op == "dim":
            b = dom.args[0]
            if b.op == "call" and b.args[0] in ("builtins.enumerate", "builtins.reversed", "builtins.list", "builtins.tuple") and len(b.args) == 2:
                return self.domain(mk("dim", b.args[1]))
            if b.op == "call" and b.args[0] == "builtins.zip" and len(b.args) > 1:
                ds = {self.domain(mk("dim", a)) for a in b.args[1:]}
                if len(ds) == 1:
                    return ds.pop()
                raise Unk("lengths of " + show(b, 4))
            try:
                return self.ev(b).dims[0]
            except (Unk, IndexError):
                pass
        try:
            x = self.ev(dom)
            if x.rank == 0:
                return x.fn([])
        except Unk:
            pass
        return dom

    def e_idx(self, t):
        return self.scalar(t)

    def e_dim(self, t):
        if t.args[0].op == "attr" and t.args[0].args[1] == "shape":
            return self.scalar(const(self.ev(t.args[0].args[0]).rank))
        x = self.ev(t.args[0])
        if not x.rank:
            raise Unk("dim of scalar")
        return self.scalar(self.count(x.dims[0]))

    def e_attr(self, t):
        b, n = t.args
        if n == "T":
            x = self.ev(b)
            return Arr(x.dims[::-1], lambda ix: x.fn(ix[::-1]))
        if n == "size":
            x = self.ev(b)
            r = ONE
            for d in x.dims:
                r = binop("*", r, self.count(d))
            return self.scalar(r)
        if n == "ndim":
            return self.scalar(const(self.ev(b).rank))
        raise Unk("attr " + n)

    def e_sub(self, t):
        b, k = t.args
        if b.op == "attr" and b.args[1] == "shape" and k.op == "const" and isinstance(k.args[0], int):
            x = self.ev(b.args[0])
            try:
                return self.scalar(self.count(x.dims[k.args[0]]))
            except IndexError:
                raise Unk("axis")
        if b.op == "call" and b.args[0] == "builtins.zip" and len(b.args) == 2 and b.args[1].op == "star" and k.op == "const" and isinstance(k.args[0], int):
            x = self.ev(b.args[1].args[0])
            if x.rank >= 2:               # column k of the rows
                return self.index(x, tup(mk("slice", NONE, NONE, NONE), k))
        x = self.ev(b)
        return self.index(x, k)

    def index(self, x, key):
        if x.rank == 2 and ONE in x.dims and key.op != "tuple" and key.op not in ("const", "slice"):
            try:
                m = self.ev(key)
            except Unk:
                m = None
            if m is not None and m.rank == 2 and self.is_mask(m) and tuple(m.dims) == tuple(x.dims):
                # selected elements of a single row or column
                a = 0 if x.dims[0] is ONE else 1
                put = lambda i: [const(0), i[0]] if a == 0 else [i[0], const(0)]
                flat, mask = Arr((x.dims[1 - a],), lambda i: x.fn(put(i))), Arr((x.dims[1 - a],), lambda i: m.fn(put(i)))
                fx, fm = sym("#flat"), sym("#mask")
                return Ix({fx: flat, fm: mask}).index(flat, fm)
        keys = list(key.args) if key.op == "tuple" else [key]
        if key.op == "list" and all(is_const(k) for k in key.args):
            keys = [key]
        isnew = lambda k: k is NONE or k.op == "ext" and k.args[0] == "numpy.newaxis"
        isell = lambda k: is_const(k) and k.args[0] is Ellipsis
        used = 0
        ks = []
        for k in keys:
            if isnew(k) or isell(k):
                ks.append((k, None))
                continue
            if k.op == "slice" or k.op == "const":
                ks.append((k, None))
                used += 1
                continue
            m = positions_of(k)
            a = None
            if m is not None:
                a = self.ev(m)
                if a.rank != 1 or not self.is_mask(a):
                    a = None
            if a is None:
                a = self.ev(k)
            ks.append((k, a))
            used += 1 if a.rank == 0 else max(1, a.rank if self.is_mask(a) else 1)
        if used > x.rank:
            raise Unk("too many indices")
        out, n_ell = [], sum(1 for k, _ in ks if isell(k))
        if n_ell > 1:
            raise Unk("ellipsis")
        seq = []
        for k, a in ks:
            if isell(k):
                seq += [(mk("slice", NONE, NONE, NONE), None)] * (x.rank - used)
            else:
                seq.append((k, a))
        if not n_ell:
            seq += [(mk("slice", NONE, NONE, NONE), None)] * (x.rank - used)
        dims, plan = [], []      # plan: for each source axis a function out-index -> source index
        ax = 0
        nfancy = 0
        for k, a in seq:
            if isnew(k):
                dims.append(ONE)
                continue
            d = x.dims[ax]
            if k.op == "slice":
                lo, hi, st = k.args
                full = lo in (NONE, const(0)) and hi is NONE and st in (NONE, ONE)
                pos = len(dims)
                if full:
                    dims.append(d)
                    plan.append(lambda ix, pos=pos: ix[pos])
                else:
                    if d.op == "filt":
                        raise Unk("slice of a selected axis")
                    if st not in (NONE, ONE):
                        if is_const(st, -1) and lo is NONE and hi is NONE:
                            dims.append(d)
                            plan.append(lambda ix, pos=pos, d=d: binop("-", binop("-", d, ONE), ix[pos]))
                        else:
                            s0 = const(0) if lo is NONE else lo
                            dims.append(mk("strided", d, s0, hi, st))
                            plan.append(lambda ix, pos=pos, s0=s0, st=st: binop("+", s0, binop("*", st, ix[pos])))
                    else:
                        fix = lambda v, dflt: dflt if v is NONE else binop("+", d, v) if v.op == "const" and isinstance(v.args[0], int) and v.args[0] < 0 else self.sc(v)
                        l2, h2 = fix(lo, const(0)), fix(hi, d)
                        l3, h3, d3 = self.norm(l2), self.norm(h2), self.norm(d)
                        if all(x.op == "const" and isinstance(x.args[0], int) for x in (l3, h3, d3)):
                            dims.append(const(max(0, min(h3.args[0], d3.args[0]) - max(0, l3.args[0]))))
                        else:
                            dims.append(mk("range", l3, h3) if l2 is not const(0) or h2 is not d else d)
                        plan.append(lambda ix, pos=pos, l2=l2: binop("+", l2, ix[pos]) if l2 is not const(0) else ix[pos])
                ax += 1
                continue
            if k.op == "const":
                if not isinstance(k.args[0], int) or isinstance(k.args[0], bool):
                    raise Unk("index %s" % show(k))
                v = k
                if k.args[0] < 0:
                    if d.op == "filt":
                        raise Unk("negative index of a selected axis")
                    v = self.norm(binop("+", d, k))
                elif d.op == "filt":
                    raise Unk("position in a selected axis")
                plan.append(lambda ix, v=v: v)
                ax += 1
                continue
            if a.rank == 0:
                v = a.fn([])
                plan.append(lambda ix, v=v: v)
                ax += 1
                continue
            if self.is_mask(a):
                if a.rank != 1:
                    raise Unk("mask of rank %d" % a.rank)
                pos = len(dims)
                var = fresh()
                p = a.fn([var])
                if d.op == "filt":
                    p = boolop("and", subst(d.args[2], {d.args[1]: var}), p)
                    base = d.args[0]
                else:
                    base = d
                dims.append(self.filt(base, var, p))
                plan.append(lambda ix, pos=pos: ix[pos])
                ax += 1
                continue
            if a.rank == 1:
                nfancy += 1
                if nfancy > 1:
                    raise Unk("several index arrays")
                pos = len(dims)
                dims.append(a.dims[0])
                plan.append(lambda ix, pos=pos, a=a: a.fn([ix[pos]]))
                ax += 1
                continue
            nfancy += 1
            if nfancy > 1:
                raise Unk("several index arrays")
            pos = len(dims)
            dims += list(a.dims)
            plan.append(lambda ix, pos=pos, a=a: a.fn(ix[pos:pos + a.rank]))
            ax += 1
            continue
        return Arr(dims, lambda ix: x.fn([p(ix) for p in plan]))

    def sc(self, t):
        x = self.ev(t)
        if x.rank:
            raise Unk("array where a scalar is expected")
        return x.fn([])

    def is_mask(self, a):
        if a.rank == 0:
            return False
        e = a.fn([mk("tv", -1 - i) for i in range(a.rank)])
        return boolish(e)

    def filt(self, base, var, p):
        """canonical variable name for a selection"""
        p = self.canon_bool(p)
        h = height(p) + 1
        v = mk("bv", h)
        return mk("filt", base, v, resort(subst(p, {var: v})))

    def canon_bool(self, p):
        return p

    # ------------------------------------------------------------------ reductions
    def axis_of(self, x, a):
        if a is None or a is NONE:
            return list(range(x.rank))
        if a.op == "bin" and a.args[0] == "+" and any(y.op in ("tuple", "list", "range") or y.op == "call" and y.args[0] in ("builtins.tuple", "builtins.list", "builtins.range") for y in a.args[1:]):
            return self.axis_of(x, a.args[1]) + self.axis_of(x, a.args[2])
        if a.op == "star":
            return self.axis_of(x, a.args[0])
        if a.op in ("tuple", "list"):
            out = []
            for y in a.args:
                out += self.axis_of(x, y)
            return out
        if a.op == "call" and a.args[0] in ("builtins.tuple", "builtins.list") and len(a.args) == 2:
            a = a.args[1]
        if a.op == "call" and a.args[0] == "builtins.range" or a.op == "range":
            v = [self.norm(self.sc(y)) for y in (a.args[1:] if a.op == "call" else a.args)]
            if not all(is_const(y) and isinstance(y.args[0], int) for y in v):
                raise Unk("axis range")
            out = []
            for k in range(*[y.args[0] for y in v]):
                out += self.axis_of(x, const(k))
            return out
        if a.op == "const" and isinstance(a.args[0], int):
            k = a.args[0]
            if k < 0:
                k += x.rank
            if not 0 <= k < x.rank:
                raise Unk("axis")
            return [k]
        if a.op in ("bin", "attr", "un"):
            v = self.norm(self.sc(a))
            if is_const(v) and isinstance(v.args[0], int):
                return self.axis_of(x, v)
        raise Unk("axis")

    def reduce(self, x, axes, f, keep=False):
        axes = sorted(axes)
        rest = [i for i in range(x.rank) if i not in axes]
        dims = [x.dims[i] for i in rest]

        def fn(ix):
            def full(vs):
                it = iter(vs)
                full_ = [None] * x.rank
                for j, i in enumerate(rest):
                    full_[i] = ix[j]
                for i in axes:
                    full_[i] = next(it)
                return x.fn(full_)
            return f([x.dims[i] for i in axes], full)
        if keep:
            kd = [ONE if i in axes else x.dims[i] for i in range(x.rank)]
            return Arr(kd, lambda ix: fn([ix[i] for i in rest]))
        return Arr(dims, fn)

    def sumterm(self, d, f):
        return self.sums([d], lambda vs: f(vs[0]))

    def sums(self, ds, body):
        for k, d in enumerate(ds):
            if d.op == "const" and isinstance(d.args[0], int) and d.args[0] <= self.max_sum:
                e = const(0)
                for j in range(d.args[0]):
                    x = self.sums(list(ds[:k]) + list(ds[k + 1:]), lambda vs: body(list(vs[:k]) + [const(j)] + list(vs[k:])))
                    e = x if j == 0 else binop("+", e, x)
                return e
        vs = [fresh() for _ in ds]
        e = body(vs)
        for v, d in sorted(zip(vs, ds), key=lambda p: p[1]._h if hasattr(p[1], "_h") else hash(p[1])):
            e = self.sum1(v, d, e)
        return e

    def sum1(self, v, d, e):
        if d.op == "const" and isinstance(d.args[0], int) and d.args[0] <= 4:
            r = const(0)
            for k in range(d.args[0]):
                r = binop("+", r, subst(e, {v: const(k)}))
            return r
        if e.op == "ite" and not contains(e.args[0], v):
            return ite(e.args[0], self.sum1(v, d, e.args[1]), self.sum1(v, d, e.args[2]))
        p, q = self.norm.ratio(e)
        qterm = poly_term(q)
        if contains(qterm, v):
            return self._sum_atom(v, d, e)
        out = const(0)
        for m, c in p.items():
            dep, ind = ONE, const(int(c) if c.denominator == 1 else float(c))
            for a, ex in m:
                f = a if ex == 1 else binop("**", a, const(ex))
                if contains(a, v):
                    dep = f if dep is ONE else mk("bin", "*", dep, f)
                else:
                    ind = binop("*", ind, f)
            s = self._sum_atom(v, d, dep)
            out = binop("+", out, binop("*", ind, s)) if out is not const(0) else binop("*", ind, s)
        if qterm is not ONE:
            out = binop("/", out, qterm)
        return out

    def _sum_atom(self, v, d, dep):
        if dep is ONE:
            return self.count(d)
        dep = self.norm(dep)
        if d.op != "filt":
            vs, fs = [(v, d)], []
            if self._flat(dep, v, vs, fs) and 1 < len(vs) <= 4 and not any(contains(y, x) for x, _ in vs for _, y in vs):
                return min((self._nest(p, fs) for p in itertools.permutations(vs)), key=lambda t: t._h)
        return self._sum_raw(v, d, dep)

    def _flat(self, dep, v, vs, fs):
        """factors of a product of sums with all bound variables in front; False when it is not of that form"""
        p, q = self.norm.ratio(dep)
        if poly_term(q) is not ONE or len(p) != 1:
            fs.append(dep)
            return True
        (m, c), = p.items()
        if c != 1:
            fs.append(const(int(c) if c.denominator == 1 else float(c)))
        for a, ex in m:
            if ex == 1 and a.op == "SUM" and any(contains(a, x) for x, _ in vs):
                if a.args[0].op == "filt" or a.args[2] is ONE:
                    return False
                w = fresh()
                vs.append((w, a.args[0]))
                if not self._flat(subst(a.args[2], {a.args[1]: w}), w, vs, fs):
                    return False
            else:
                fs.append(a if ex == 1 else binop("**", a, const(ex)))
        return True

    def _nest(self, vs, fs):
        fs = list(fs)
        for v, d in vs:
            dep = [f for f in fs if contains(f, v)]
            fs = [f for f in fs if not contains(f, v)]
            e = ONE
            for f in dep:
                e = f if e is ONE else mk("bin", "*", e, f)
            fs.append(self._sum_raw(v, d, self.norm(e)) if dep else self.count(d))
        e = ONE
        for f in fs:
            e = f if e is ONE else mk("bin", "*", e, f)
        return self.norm(e)

    def _sum_raw(self, v, d, dep):
        h = height(dep) + 1
        if d.op == "filt":
            h = max(h, height(d) + 1)
        b = mk("bv", h)
        return mk("SUM", d, b, subst(dep, {v: b}))

    def anyterm(self, ds, body, quant="ANY"):
        vs = [fresh() for _ in ds]
        e = body(vs)
        return self.quantify(quant, list(zip(vs, ds)), e)

    def quantify(self, quant, pairs, e):
        # merge nested quantifiers of the same kind
        if e.op == quant:
            ds, bs, body = e.args
            m = {}
            for b, d in zip(bs.args, ds.args):
                f = fresh()
                m[b] = f
                pairs = pairs + [(f, d)]
            e = subst(body, m)
        if quant == "ANY":
            for v, d in pairs:
                if d.op == "const" and isinstance(d.args[0], int) and not isinstance(d.args[0], bool) and 0 < d.args[0] <= 4:
                    rest = [(w, c) for w, c in pairs if w is not v]
                    parts = [subst(e, {v: const(k)}) for k in range(d.args[0])]
                    return boolop("or", *[self.quantify(quant, list(rest), x) if rest else x for x in parts])
            if e.op == "bool" and e.args[0] == "or":
                return boolop("or", *[self.quantify(quant, list(pairs), x) for x in e.args[1:]])
        if quant in ("MAX", "MIN") and e.op == "call" and e.args[0] == quant.lower() and len(e.args) == 3:
            # of a maximum of two values, one of which may not depend on the index
            return self.extremum(e.args[0], *[self.quantify(quant, list(pairs), x) if any(contains(x, v) for v, _ in pairs) else x for x in e.args[1:]])
        pairs = sorted(pairs, key=lambda p: show(p[1], 12))
        h = height(e) + 1
        m, bs = {}, []
        for i, (v, d) in enumerate(pairs):
            b = mk("bv", h + i)
            m[v] = b
            bs.append(b)
        return mk(quant, tup(*[d for _, d in pairs]), tup(*bs), subst(e, m))

    def e_call(self, t):
        n = t.args[0]
        pos = [a for a in t.args[1:] if isinstance(a, T) and a.op != "kw"]
        kw = {a.args[0]: a.args[1] for a in t.args[1:] if isinstance(a, T) and a.op == "kw"}
        s = n.split(".")[-1]
        if n in ASIS or n in (".copy", ".tolist"):
            x = self.ev(pos[0])
            ty = kw.get("dtype", pos[1] if n in ("numpy.array", "numpy.asarray") and len(pos) > 1 else None)
            if ty is not None and ty.op in ("ext", "const") and str(ty.args[0]).split(".")[-1].startswith(("int", "uint", "long")):
                return Arr(x.dims, lambda ix: toint(x.fn(ix)))
            return x
        if n in ELEM and len(pos) >= 1:
            c = {"numpy.absolute": "numpy.abs", "builtins.abs": "numpy.abs", "numpy.around": "numpy.round"}.get(n, n)
            if n in ("numpy.logical_not", "numpy.invert"):
                return self.elementwise(neg, pos[0])
            if n == "numpy.negative":
                return self.elementwise(lambda x: mk("un", "-", x), pos[0])
            if n == "numpy.square":
                return self.elementwise(lambda x: binop("**", x, const(2)), pos[0])
            if n == "numpy.sqrt":
                return self.elementwise(self.sqrt, pos[0])
            return self.elementwise(lambda x: mk("call", c, x), pos[0])
        if n in ELEM2:
            return self.elementwise(lambda x, y: binop(ELEM2[n], x, y), *pos[:2])
        if n.startswith("operator.") and len(pos) == 2 and s in OPER:
            return self.elementwise(lambda x, y: binop(OPER[s], x, y), *pos)
        if n.startswith("operator.") and len(pos) == 2 and s in OPERC:
            return self.elementwise(lambda x, y: cmpop(OPERC[s], x, y), *pos)
        if n in CMP2:
            return self.elementwise(lambda x, y: cmpop(CMP2[n], x, y), *pos[:2])
        if n in ("numpy.logical_and", "numpy.logical_or"):
            return self.elementwise(lambda x, y: boolop(n[14:], x, y), *pos[:2])
        if n in ("numpy.maximum", "numpy.minimum") and len(pos) == 2:
            return self.elementwise(lambda x, y: mk("call", n[6:9], *sorted((self.norm(x), self.norm(y)), key=lambda z: z._h)), *pos)
        if n in (".astype",):
            x = self.ev(pos[0])
            ty = pos[1] if len(pos) > 1 else kw.get("dtype")
            if ty is not None and ty.op in ("ext", "const") and str(ty.args[0]).split(".")[-1].startswith("float"):
                return x
            return Arr(x.dims, lambda ix: toint(x.fn(ix)))
        if n == "builtins.int":
            x = self.ev(pos[0])
            return Arr(x.dims, lambda ix: toint(x.fn(ix)))
        if n in ("numpy.prod", "math.prod") and len(pos) == 1 and not kw:
            v = self.shape_product(pos[0])
            if v is not None:
                return self.scalar(v)
        if n in ("numpy.logical_and.reduce", "numpy.logical_or.reduce", "numpy.add.reduce", "numpy.maximum.reduce", "numpy.minimum.reduce") and pos:
            ax = kw.get("axis", pos[1] if len(pos) > 1 else const(0))
            f = {"logical_and": "all", "logical_or": "any", "add": "sum", "maximum": "max", "minimum": "min"}[n.split(".")[1]]
            return self.e_call(mk("call", "numpy." + f, pos[0], mk("kw", "axis", ax), *[mk("kw", k, v) for k, v in kw.items() if k != "axis"]))
        if n in ("numpy.compress", ".compress") and len(pos) >= 2:
            m, y = (pos[0], pos[1]) if n[0] == "n" else (pos[1], pos[0])
            ax = kw.get("axis", pos[2] if len(pos) > 2 else None)
            x = self.ev(y)
            if ax is None or set(kw) - {"axis"}:
                raise Unk(n)
            k, = self.axis_of(x, ax)
            return self.index(x, tup(*[mk("slice", NONE, NONE, NONE)] * k, m))
        if n in ("numpy.take", ".take") and len(pos) >= 2 and not set(kw) - {"axis"}:
            ax = kw.get("axis", pos[2] if len(pos) > 2 else None)
            x = self.ev(pos[0])
            if ax is None:
                raise Unk(n)
            k, = self.axis_of(x, ax)
            return self.index(x, tup(*[mk("slice", NONE, NONE, NONE)] * k, pos[1]))
        if n in ("numpy.delete",) and len(pos) >= 2 and not set(kw) - {"axis"}:
            ax = kw.get("axis", pos[2] if len(pos) > 2 else None)
            x = self.ev(pos[0])
            m = positions_of(pos[1]) or pos[1]
            if ax is None or not self.is_mask(self.ev(m)):
                raise Unk(n)
            k, = self.axis_of(x, ax)
            return self.index(x, tup(*[mk("slice", NONE, NONE, NONE)] * k, mk("un", "~", m)))
        if n == "numpy.atleast_1d" and len(pos) == 1:
            x = self.ev(pos[0])
            return x if x.rank else Arr((ONE,), lambda ix: x.fn([]))
        if n in ("numpy.nansum", "numpy.nanprod") and len(pos) == 1 and not set(kw) - {"axis", "keepdims"}:
            x = pos[0]
            a, y = self.ev(x), fresh()
            self.atoms[y] = Arr(a.dims, lambda ix: mk("call", "nan_as_" + ("0" if s.endswith("sum") else "1"), a.fn(ix)))
            return self.ev(mk("call", "numpy." + s[3:], y, *[mk("kw", k, v) for k, v in kw.items()]))
        if n in ("numpy.sum", "builtins.sum", "numpy.any", "numpy.all", "numpy.mean", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.prod", ".sum", ".any", ".all",
                 "builtins.any", "builtins.all", "numpy.count_nonzero", "numpy.var", ".var", "builtins.max", "builtins.min", "numpy.std", ".std"):
            if n.startswith("builtins.") and len(pos) != 1:
                if n in ("builtins.max", "builtins.min") and len(pos) == 2 and not kw:
                    return self.elementwise(lambda x, y: mk("call", n[9:], *sorted((self.norm(x), self.norm(y)), key=lambda z: z._h)), *pos)
                raise Unk(n)
            x = self.ev(pos[0])
            ax = kw.get("axis", pos[1] if len(pos) > 1 else None)
            if n.startswith("builtins."):
                ax = const(0)
            if set(kw) - {"axis", "keepdims", "ddof"}:
                raise Unk("arguments of " + n)
            axes = self.axis_of(x, ax)
            keep = is_const(kw.get("keepdims", FALSE), True)
            if s == "sum" and not (x.rank and len(axes) == 1 and self.is_mask(x)):
                return self.reduce(x, axes, self.sums, keep)
            if s in ("sum", "count_nonzero"):
                def cn(ds, body):
                    vs = [fresh() for _ in ds]
                    e = body(vs)
                    if not boolish(e):
                        e = cmpop("!=", e, const(0))
                    if len(ds) == 1 and ds[0].op != "filt":
                        return self.count(self.filt(ds[0], vs[0], e))
                    raise Unk("count over several axes")
                return self.reduce(x, axes, cn, keep)
            if s == "mean":
                def mean(ds, body):
                    c = ONE
                    for d in ds:
                        c = binop("*", c, self.count(d))
                    return binop("/", self.sums(ds, body), c)
                return self.reduce(x, axes, mean, keep)
            if s in ("var", "std"):
                dd = kw.get("ddof", const(0))

                def var(ds, body):
                    c = ONE
                    for d in ds:
                        c = binop("*", c, self.count(d))
                    s1 = self.sums(ds, body)
                    s2 = self.sums(ds, lambda vs: binop("**", body(vs), const(2)))
                    r = binop("/", binop("-", s2, binop("/", binop("**", s1, const(2)), c)), binop("-", c, dd))
                    return r if s == "var" else mk("call", "numpy.sqrt", r)
                return self.reduce(x, axes, var, keep)
            if s == "any":
                return self.reduce(x, axes, lambda ds, b: self.anyterm(ds, b), keep)
            if s == "all":
                return self.reduce(x, axes, lambda ds, b: neg(self.anyterm(ds, lambda vs: neg(b(vs)))), keep)
            if s in ("max", "min", "amax", "amin", "prod"):
                q = {"amax": "MAX", "amin": "MIN"}.get(s, s.upper())
                return self.reduce(x, axes, lambda ds, b: self.quantify(q, list(zip(*(lambda vs: (vs, ds))([fresh() for _ in ds]))), NONE) if False else self._q(q, ds, b), keep)
        if n == "numpy.transpose":
            x = self.ev(pos[0])
            if len(pos) == 1:
                p = list(range(x.rank))[::-1]
            elif pos[1].op in ("tuple", "list") and all(y.op == "const" for y in pos[1].args):
                p = [y.args[0] % x.rank for y in pos[1].args]
            else:
                raise Unk("transpose")
            if sorted(p) != list(range(x.rank)):
                raise Unk("transpose of rank %d with %s" % (x.rank, p))
            inv = [p.index(i) for i in range(x.rank)]
            return Arr([x.dims[i] for i in p], lambda ix: x.fn([ix[inv[i]] for i in range(x.rank)]))
        if n in ("numpy.moveaxis", "numpy.swapaxes", ".swapaxes") and len(pos) == 3 and all(y.op == "const" for y in pos[1:]):
            x = self.ev(pos[0])
            a, b = [y.args[0] % x.rank for y in pos[1:]]
            p = list(range(x.rank))
            if s == "swapaxes":
                p[a], p[b] = p[b], p[a]
            else:
                p.remove(a)
                p.insert(b, a)
            inv = [p.index(i) for i in range(x.rank)]
            return Arr([x.dims[i] for i in p], lambda ix: x.fn([ix[inv[i]] for i in range(x.rank)]))
        if n == "numpy.tile" and len(pos) == 2 and not kw and pos[1].op in ("tuple", "list"):
            x = self.ev(pos[0])
            reps = pos[1].args
            if len(reps) == x.rank + 1 and all(is_const(y, 1) for y in reps[1:]):
                return Arr((reps[0] if reps[0].op == "dim" else self.norm(self.sc(reps[0])),) + tuple(x.dims), lambda ix: x.fn(ix[1:]))
            raise Unk("tile")
        if n == "builtins.zip" and len(pos) == 1 and pos[0].op == "star":
            x = self.ev(pos[0].args[0])
            if x.rank < 2:
                raise Unk(n)
            return self.ev_moved(x, 0, 1)
        if n == "numpy.rollaxis" and len(pos) in (2, 3) and all(y.op == "const" for y in pos[1:]):
            x = self.ev(pos[0])
            a, b = pos[1].args[0] % x.rank, (pos[2].args[0] if len(pos) > 2 else 0)
            if b < 0:
                b += x.rank
            return self.ev_moved(x, a, b - 1 if b > a else b)
        if n == "numpy.column_stack" and len(pos) == 1 and pos[0].op in ("tuple", "list"):
            xs = [self.ev(a) for a in pos[0].args]
            if all(x.rank == 1 for x in xs):
                return self.stack(xs, 1)
            raise Unk(n)
        if n == "numpy.concatenate" and len(pos) == 1 and pos[0].op in ("tuple", "list") and is_const(kw.get("axis", const(0)), 0) and set(kw) <= {"axis"}:
            return self.join([self.ev(a) for a in pos[0].args])
        if n == "numpy.stack":
            ax = kw.get("axis", pos[1] if len(pos) > 1 else const(0))
            if pos[0].op not in ("tuple", "list") and ax.op == "const":
                x = self.ev(pos[0])
                return self.ev_moved(x, 0, ax.args[0] % x.rank)
            if pos[0].op not in ("tuple", "list") or ax.op != "const":
                raise Unk("stack")
            return self.stack([self.ev(a) for a in pos[0].args], ax.args[0])
        if n in ("numpy.squeeze", ".squeeze") and len(pos) + len(kw) <= 2:
            x = self.ev(pos[0])
            ax = kw.get("axis", pos[1] if len(pos) > 1 else None)
            if ax is None:
                keep = [i for i, d in enumerate(x.dims) if d is not ONE]
            else:
                drop = set(self.axis_of(x, ax))
                if any(x.dims[i] is not ONE for i in drop):
                    raise Unk("squeeze of a longer axis")
                keep = [i for i in range(x.rank) if i not in drop]
            return Arr([x.dims[i] for i in keep], lambda ix: x.fn([ix[keep.index(i)] if i in keep else const(0) for i in range(x.rank)]))
        if n in ("numpy.ravel", ".ravel", ".flatten") and len(pos) == 1 and not kw:
            return self.reshape(self.ev(pos[0]), tup(const(-1)))
        if n in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "numpy.empty", "numpy.empty_like"):
            v = const(0) if "zeros" in n else mk("el", "uninitialised") if "empty" in n else ONE
            if "full" in n:
                w = self.ev(pos[1])
                if w.rank:
                    if n != "numpy.full":
                        raise Unk("full of array")
                    # the value is broadcast to the shape
                    shp = self.ev(mk("call", "numpy.zeros", pos[0]))
                    if w.rank > shp.rank or any(a is not b and a is not ONE for a, b in zip(w.dims, shp.dims[shp.rank - w.rank:])):
                        raise Unk("full of array")
                    return Arr(shp.dims, lambda ix: w.fn([const(0) if d is ONE else i for d, i in zip(w.dims, ix[shp.rank - w.rank:])]))
                v = w.fn([])
            if n.endswith("_like"):
                return Arr(self.ev(pos[0]).dims, lambda ix: v)
            return Arr(self.shape(pos[0]), lambda ix: v)
        if n in ("numpy.dot", "numpy.matmul") and len(pos) == 2:
            return self.matmul_t(pos[0], pos[1])
        if n in ("numpy.eye", "numpy.identity") and not [k for k in kw if k != "dtype"]:
            a = self.sc(pos[0])
            b = self.sc(pos[1]) if len(pos) > 1 else a
            return Arr((a, b), lambda ix: mk("DELTA", *sorted(ix, key=repr)))
        if n == "numpy.diag" and len(pos) == 1 and not kw:
            a = self.ev(pos[0])
            if a.rank == 2 and a.dims[0] is a.dims[1]:
                return Arr(a.dims[:1], lambda ix: a.fn([ix[0], ix[0]]))
            if a.rank == 1:
                return Arr(a.dims * 2, lambda ix: binop("*", a.fn(ix[:1]), mk("DELTA", *sorted(ix, key=repr))))
            raise Unk("diagonal of shape %s" % (a.dims,))
        if n == "numpy.outer" and len(pos) == 2:
            a, b = self.ev(pos[0]), self.ev(pos[1])
            if a.rank != 1 or b.rank != 1:
                raise Unk("outer")
            return Arr(a.dims + b.dims, lambda ix: binop("*", a.fn(ix[:1]), b.fn(ix[1:])))
        if n == "numpy.einsum":
            return self.einsum(pos)
        if n == "numpy.arange":
            if len(pos) == 1:
                d = self.sc(pos[0])
                return Arr((d,), lambda ix: ix[0])
            if len(pos) == 2:
                a, b = self.sc(pos[0]), self.sc(pos[1])
                return Arr((self.norm(binop("-", b, a)),), lambda ix: binop("+", a, ix[0]))
        if n == "numpy.expand_dims" and len(pos) == 2 and pos[1].op == "const":
            x = self.ev(pos[0])
            k = pos[1].args[0]
            if k < 0:
                k += x.rank + 1
            d = list(x.dims)
            d.insert(k, ONE)
            return Arr(d, lambda ix: x.fn(ix[:k] + ix[k + 1:]))
        if n in (".reshape", "numpy.reshape", ".ravel", ".flatten", "numpy.ravel") and set(kw) == {"order"} and is_const(kw["order"]):
            o = kw["order"].args[0]
            x = self.ev(pos[0])
            shp = tup(const(-1)) if s in ("ravel", "flatten") else pos[1] if len(pos) == 2 else tup(*pos[1:])
            if o in ("C", "c"):
                return self.reshape(x, shp)
            if o in ("F", "f"):
                if shp.op not in ("tuple", "list"):
                    its = self.shape(shp)
                else:
                    its = shp.args
                y = self.reshape(Arr(x.dims[::-1], lambda ix: x.fn(list(ix)[::-1])), tup(*list(its)[::-1]))
                return Arr(y.dims[::-1], lambda ix: y.fn(list(ix)[::-1]))
        if n == "numpy.vander" and len(pos) in (1, 2) and set(kw) <= {"N", "increasing"} and is_const(kw.get("increasing", FALSE), True):
            x = self.ev(pos[0])
            if x.rank != 1:
                raise Unk("numpy.vander")
            k = pos[1] if len(pos) > 1 else kw.get("N")
            return Arr((x.dims[0], self.norm(self.sc(k)) if k is not None else x.dims[0]), lambda ix: binop("**", x.fn(ix[:1]), ix[1]))
        if n == "numpy.reshape" and len(pos) == 2 and not kw:
            return self.reshape(self.ev(pos[0]), pos[1])
        if n in (".reshape", "numpy.reshape") and len(pos) >= 2 and not kw:
            return self.reshape(self.ev(pos[0]), pos[1] if len(pos) == 2 else tup(*pos[1:]))
        if n in (".ravel", ".flatten", "numpy.ravel") and len(pos) == 1 and not kw:
            return self.reshape(self.ev(pos[0]), tup(const(-1)))
        raise Unk(n)

    def reshape(self, x, shp):
        """C-order reshape that keeps, merges or splits whole axes (axes of length one come and go freely)"""
        if shp.op == "call" and shp.args[0] in ("builtins.tuple", "builtins.list") and len(shp.args) == 2:
            shp = shp.args[1]
        new = self.shape_items(shp)
        if new.count(None) > 1:
            raise Unk("reshape")
        if x.rank == 1 and new == [None]:
            return x
        if any(d.op == "filt" for d in x.dims):
            # only the untouched tail of a selected axis
            k = len(new) - 1
            if len(new) and k <= x.rank - 1 and all(nd is not None and Norm().equal(nd, self.count(d)) for nd, d in zip(new[1:], x.dims[x.rank - k:])) and not any(d.op == "filt" for d in x.dims[:x.rank - k]):
                if x.rank - k == 1:
                    return x
                new = [None if n is None else n for n in new[:1]] + [d for d in x.dims[x.rank - k:]]
            else:
                raise Unk("reshape of a selected axis")
        eq = lambda a, b: a is b or a is not None and b is not None and a.op != "filt" and b.op != "filt" and Norm().equal(self.count(a), self.count(b))
        old = [(i, d) for i, d in enumerate(x.dims) if d is not ONE]
        nw = [(i, d) for i, d in enumerate(new) if d is None or not is_const(d, 1)]
        pre, suf = [], []
        while old and nw and eq(old[0][1], nw[0][1]):
            pre.append((old.pop(0), nw.pop(0)))
        while old and nw and eq(old[-1][1], nw[-1][1]):
            suf.insert(0, (old.pop(), nw.pop()))
        pairs = pre + suf                      # axis by axis
        dims = [ONE] * len(new)
        for (i, d), (j, n) in pairs:
            dims[j] = d
        take = {i: (lambda ix, j=j: ix[j]) for (i, d), (j, n) in pairs}
        zero = lambda ix: const(0)
        prod = lambda ds: self.product(ds)
        if not old and (not nw or len(nw) == 1 and nw[0][1] is None):
            pass
        elif len(nw) == 1 and old:
            j, n = nw[0]
            if n is not None and not Norm().equal(n, prod([d for _, d in old])):
                sz = prod([d for _, d in old])
                raise SizeErr("reshape of %s items to %s" % (show(self.norm(sz), 9), show(self.norm(n), 9))) if plain(n) and plain(sz) else Unk("reshape size %s" % show(n))
            m = len(old)
            if m == 1:
                dims[j] = old[0][1]
                take[old[0][0]] = lambda ix, j=j: ix[j]
            else:
                parts = [a for _, d in old for a in (d.args if d.op == "merged" else (d,))]
                dims[j] = mk("merged", *parts)
                m = len(parts)
                q, nest = 0, []
                for i, d in old:
                    if d.op == "merged":
                        v = fresh()
                        take[i] = lambda ix, v=v: v
                        nest.append((v, d.args, q))
                        q += len(d.args)
                    else:
                        take[i] = lambda ix, j=j, q=q: mk("unfl", const(q), const(m), ix[j])
                        q += 1
                if nest:
                    for o in range(x.rank):
                        take.setdefault(o, zero)

                    def flat(ix):
                        e = x.fn([take[o](ix) for o in range(x.rank)])
                        for v, ds, q in nest:
                            k = len(ds)
                            at = [mk("unfl", const(q + r), const(m), ix[j]) for r in range(k)]
                            e = subst(e, {mk("unfl", const(r), const(k), v): at[r] for r in range(k)})
                            h = at[0]
                            for a, b in zip(ds[1:], at[1:]):
                                h = binop("+", binop("*", h, a), b)
                            e = subst(e, {v: h})
                        return e
                    return Arr(dims, flat)
        elif len(old) == 1 and len(nw) > 1:
            i, d = old[0]
            nd = [n for _, n in nw]
            if d.op == "merged" and len(d.args) == len(nd) and all(n is None or eq(n, a) for n, a in zip(nd, d.args)):
                v = fresh()
                for (j, _), a in zip(nw, d.args):
                    dims[j] = a
                js = [j for j, _ in nw]
                m = len(js)
                for o in range(x.rank):
                    take.setdefault(o, zero)
                take[i] = lambda ix: v
                return Arr(dims, lambda ix: subst(x.fn([take[o](ix) for o in range(x.rank)]), {mk("unfl", const(q), const(m), v): ix[j] for q, j in enumerate(js)}))
            if None in nd:
                q = nd.index(None)
                rest = prod([n for n in nd if n is not None])
                nd[q] = self.norm(binop("/", self.count(d), rest))
            elif not Norm().equal(prod(nd), self.count(d)):
                raise SizeErr("reshape of %s items to %s" % (show(self.norm(self.count(d)), 9), show(self.norm(prod(nd)), 9))) if plain(prod(nd)) and plain(self.count(d)) else Unk("reshape size")
            for (j, _), n in zip(nw, nd):
                dims[j] = n
            js = [j for j, _ in nw]

            def horner(ix):
                t = ix[js[0]]
                for j, n in zip(js[1:], nd[1:]):
                    t = binop("+", binop("*", t, n), ix[j])
                return t
            take[i] = horner
        else:
            if len(old) == len(nw) >= 2 and None not in [n for _, n in nw]:
                a, b = [self.norm(self.count(d)) for _, d in old], [n for _, n in nw]
                if all(plain(z) for z in a + b) and len(set(a)) == len(a) and a != b and sorted(map(id, a)) == sorted(map(id, b)):
                    raise SizeErr("reshape of the axes %s to %s mixes the items of different axes" % ([show(z) for z in a], [show(z) for z in b]))
            raise Unk("reshape mixing axes")
        for o in range(x.rank):
            take.setdefault(o, zero)
        return Arr(dims, lambda ix: x.fn([take[o](ix) for o in range(x.rank)]))

    def shape_items(self, shp):
        """items of a shape given to reshape (None: to be filled in)"""
        if shp.op == "bin" and shp.args[0] == "+":
            return self.shape_items(shp.args[1]) + self.shape_items(shp.args[2])
        if shp.op == "call" and shp.args[0] in ("builtins.tuple", "builtins.list") and len(shp.args) == 2:
            return self.shape_items(shp.args[1])
        b, sl = (shp.args if shp.op == "sub" and shp.args[1].op == "slice" else (shp, None))
        if b.op == "attr" and b.args[1] == "shape":
            ds = [self.norm(self.count(d)) for d in self.ev(b.args[0]).dims]
            if sl is not None:
                if not all(v is NONE or is_const(v) and isinstance(v.args[0], int) for v in sl.args):
                    raise Unk("reshape")
                ds = ds[slice(*[None if v is NONE else v.args[0] for v in sl.args])]
            return ds
        if shp.op not in ("tuple", "list", "cat"):
            return [None if is_const(shp, -1) else self.shape_item(shp)]
        new = []
        for a in shp.args:
            if a.op in ("star", "spread", "list") and shp.op == "cat" or a.op in ("star", "spread"):
                new += self.shape_items(a.args[0] if a.op != "list" else a)
            else:
                new.append(None if is_const(a, -1) else self.shape_item(a))
        return new

    def product(self, ds):
        r = ONE
        for d in ds:
            if d.op == "merged":
                for a in d.args:
                    r = binop("*", r, self.count(a))
            else:
                r = binop("*", r, self.count(d))
        return r

    def shape_item(self, h):
        if h.op == "call" and h.args[0] in ("numpy.prod", "math.prod") and len(h.args) == 2 and h not in self.atoms:
            v = self.shape_product(h.args[1])
            if v is not None:
                return v
        return self.norm(self.sc(h))

    def shape_product(self, a):
        """product of (a part of) a shape"""
        sl = mk("slice", NONE, NONE, NONE)
        if a.op == "sub" and a.args[0].op == "attr" and a.args[0].args[1] == "shape" and a.args[1].op == "slice":
            a, sl = a.args
        if a.op == "attr" and a.args[1] == "shape" and a not in self.atoms:
            y = self.ev(a.args[0])
            if not all(v is NONE or is_const(v) and isinstance(v.args[0], int) for v in sl.args):
                raise Unk("reshape size")
            return self.norm(self.product(y.dims[slice(*[None if v is NONE else v.args[0] for v in sl.args])]))
        if a.op in ("tuple", "list") and not any(x.op == "spread" for x in a.args):
            r = ONE
            for x in a.args:
                r = binop("*", r, self.sc(x))
            return self.norm(r)
        return None

    def _q(self, q, ds, b):
        vs = [fresh() for _ in ds]
        e = b(vs)
        if all(d.op == "const" and isinstance(d.args[0], int) and d.args[0] == 1 for d in ds):
            return subst(e, {v: const(0) for v in vs})
        return self.quantify(q, list(zip(vs, ds)), self.norm(e))

    def shape(self, t):
        if t.op == "bin" and t.args[0] == "+":
            return self.shape(t.args[1]) + self.shape(t.args[2])
        if t.op in ("tuple", "list"):
            return [self.sc(a) for a in t.args]
        if t.op == "attr" and t.args[1] == "shape":
            return list(self.ev(t.args[0]).dims)
        return [self.sc(t)]

    def diagonal(self, t):
        """v when t is diag(v)"""
        if t.op == "call" and t.args[0] in ("numpy.diag", "numpy.diagflat") and len(t.args) == 2:
            v = self.ev(t.args[1])
            return v if v.rank == 1 else None
        return None

    def matmul_t(self, a, b):
        d = self.diagonal(b)
        if d is not None:
            x = self.ev(a)
            if x.rank >= 1:
                return Arr(x.dims, lambda ix: binop("*", x.fn(ix), d.fn([ix[-1]])))
        d = self.diagonal(a)
        if d is not None:
            x = self.ev(b)
            if x.rank >= 1:
                return Arr(x.dims, lambda ix: binop("*", d.fn([ix[0]]), x.fn(ix)))
        return self.matmul(self.ev(a), self.ev(b))

    def matmul(self, a, b):
        if a.rank == 0 or b.rank == 0:
            return self.elementwise(lambda x, y: binop("*", x, y), a, b)
        if b.rank == 1:
            return Arr(a.dims[:-1], lambda ix: self.sumterm(a.dims[-1], lambda v: binop("*", a.fn(ix + [v]), b.fn([v]))))
        if a.rank == 1 and b.rank == 2:
            return Arr(b.dims[1:], lambda ix: self.sumterm(a.dims[-1], lambda v: binop("*", a.fn([v]), b.fn([v] + ix))))
        if b.rank == 2:
            return Arr(a.dims[:-1] + b.dims[1:], lambda ix: self.sumterm(a.dims[-1], lambda v: binop("*", a.fn(ix[:-1] + [v]), b.fn([v, ix[-1]]))))
        raise Unk("matmul of ranks %d, %d" % (a.rank, b.rank))

    def einsum(self, pos):
        if pos[0].op != "const" or not isinstance(pos[0].args[0], str):
            raise Unk("einsum")
        spec = pos[0].args[0].replace(" ", "")
        xs = [self.ev(a) for a in pos[1:]]
        if "->" in spec:
            lhs, out = spec.split("->")
        else:
            lhs, out = spec, None
        ins = lhs.split(",")
        if len(ins) != len(xs):
            raise Unk("einsum operands")
        names, ellr = [], 0
        for s_, x in zip(ins, xs):
            if "..." in s_:
                k = x.rank - (len(s_) - 3)
                if k < 0:
                    raise Unk("einsum rank")
                ellr = max(ellr, k)
        for s_, x in zip(ins, xs):
            if "..." in s_:
                k = x.rank - (len(s_) - 3)
                i = s_.index("...")
                names.append(list(s_[:i]) + ["#%d" % j for j in range(ellr - k, ellr)] + list(s_[i + 3:]))
            else:
                names.append(list(s_))
            if len(names[-1]) != x.rank:
                raise Unk("einsum rank")
        ell = ["#%d" % j for j in range(ellr)]
        letters = [c for nm in names for c in nm if not c.startswith("#")]
        if out is None:
            o = ell + sorted(c for c in set(letters) if letters.count(c) == 1)
        else:
            o = []
            i = 0
            while i < len(out):
                if out[i:i + 3] == "...":
                    o += ell
                    i += 3
                else:
                    o.append(out[i])
                    i += 1
        dim_ = {}
        for nm, x in zip(names, xs):
            for c, d in zip(nm, x.dims):
                dim_.setdefault(c, d)
        summed = [c for c in dim_ if c not in o]

        def fn(ix):
            env = dict(zip(o, ix))

            def body(vs):
                e2 = dict(env)
                e2.update(zip(summed, vs))
                r = None
                for nm, x in zip(names, xs):
                    f = x.fn([e2[c] for c in nm])
                    r = f if r is None else binop("*", r, f)
                return r
            return self.sums([dim_[c] for c in summed], body) if summed else body([])
        return Arr([dim_[c] for c in o], fn)

    # ------------------------------------------------------------------ comparison
    def element(self, t, *ix):
        x = t if isinstance(t, Arr) else self.ev(t)
        return self.norm(x.fn(list(ix)))

    def same(self, t, want, n=None):
        """(True/False, shown element, shown expectation)"""
        x = t if isinstance(t, Arr) else self.ev(t)
        y = want if isinstance(want, Arr) else self.ev(want)
        if x.rank != y.rank:
            return False, "rank %d" % x.rank, "rank %d" % y.rank
        ix = [mk("ix", i) for i in range(x.rank)]
        a, b = x.fn(ix), y.fn(ix)
        dims = all(p is q for p, q in zip(x.dims, y.dims))
        ok = Norm().equal(a, b) and dims
        if not ok and dims:
            ok = Norm().equal(demorgan(a), demorgan(b))
        return ok, show(Norm()(a), 9), show(Norm()(b), 9)


def demorgan(t):
    """negations of connectives moved to their operands"""
    if not isinstance(t, T):
        return t
    if t.op == "not" and t.args[0].op == "bool":
        q = t.args[0]
        return boolop("or" if q.args[0] == "and" else "and", *[demorgan(neg(x)) for x in q.args[1:]])
    if t.op == "bool":
        return boolop(t.args[0], *[demorgan(x) for x in t.args[1:]])
    if t.op == "not":
        return neg(demorgan(t.args[0]))
    return t


def plain(t):
    """a size made of axis lengths and numbers only"""
    from .terms import walk
    return all(x.op in ("bin", "const", "sym", "poly") and (x.op != "sym" or str(x.args[0]).startswith("#")) for x in walk(t))


def toint(t):
    """conversion to an integer; counts and earlier conversions are integers already"""
    if t.op == "SUM" and t.args[2] is ONE or t.op == "call" and t.args[0] == "toint" or t.op == "const" and isinstance(t.args[0], int):
        return t
    if t.op == "sym" and t.args[0].startswith("#"):
        return t
    c = Norm()(t)
    if c.op == "const" and isinstance(c.args[0], (int, float, Fraction)) and not isinstance(c.args[0], bool):
        return const(int(c.args[0]))
    if c.op in ("bin", "poly"):
        num, den = Norm().ratio(t)
        if den == Norm().ratio(const(1))[0] and all(Fraction(v).denominator == 1 and all(a.op == "sym" and a.args[0].startswith("#") for a, _ in m) for m, v in num.items()):
            return t
    if t.op == "bin" and t.args[0] in ("+", "-", "*") and toint(t.args[1]) is t.args[1] and toint(t.args[2]) is t.args[2]:
        return t
    return mk("call", "toint", t)


def poly_term(p):
    out = None
    for m, c in p.items():
        t = const(int(c) if c.denominator == 1 else float(c))
        for a, e in m:
            f = a if e == 1 else binop("**", a, const(e))
            t = f if is_const(t, 1) else binop("*", t, f)
        out = t if out is None else binop("+", out, t)
    return out if out is not None else const(0)


_hm = {}


def height(t):
    """largest bound-variable number inside t"""
    r = _hm.get(t)
    if r is None:
        r = t.args[0] if t.op == "bv" else 0
        for a in children(t):
            r = max(r, height(a))
        _hm[t] = r
    return r


def boolish(e):
    if e.op in ("cmp", "not", "ANY", "bool"):
        return True
    if e.op == "const":
        return isinstance(e.args[0], bool)
    if e.op == "call":
        return e.args[0] in ("numpy.isnan", "numpy.isfinite", "numpy.isinf")
    if e.op == "ite":
        return boolish(e.args[1]) and boolish(e.args[2])
    return False


def positions_of(k):
    """mask whose true positions k lists"""
    if k.op == "call" and k.args[0] in ("numpy.flatnonzero",) and len(k.args) == 2:
        return k.args[1]
    if k.op == "sub" and is_const(k.args[1], 0) and k.args[0].op == "call" and k.args[0].args[0] in ("numpy.nonzero", ".nonzero", "numpy.where") and len(k.args[0].args) == 2:
        return k.args[0].args[1]
    if k.op == "call" and k.args[0] in ("numpy.nonzero", ".nonzero", "numpy.where") and len(k.args) == 2:
        return k.args[1]
    return None
