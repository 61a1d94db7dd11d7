"""Hash-consed value terms (the nodes of the value graph) and their algebra."""
from fractions import Fraction

_TABLE = {}


class T:
    __slots__ = ("op", "args", "_h", "_d")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, T) else a for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._h = len(_TABLE)
        t._d = 1 + max([a._d for a in args if isinstance(a, T)] or [0])
        _TABLE[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def sym(n):
    return mk("sym", n)


def is_const(t, v=...):
    if not isinstance(t, T) or t.op != "const":
        return False
    if v is ...:
        return True
    c = t.args[0]
    if isinstance(v, bool) or isinstance(c, bool) or v is None or c is None:
        return c is v
    try:
        return bool(c == v)
    except Exception:
        return False


def attr(b, n):
    return mk("attr", b, n)


def tup(*a):
    return mk("tuple", *a)


def neg(c):
    if c.op == "not":
        return c.args[0]
    if c.op == "const":
        return const(not c.args[0])
    if c.op == "cmp":
        o = c.args[0]
        inv = {"==": "!=", "!=": "==", "is": "isnot", "isnot": "is", "in": "notin", "notin": "in"}
        if o in inv:
            return mk("cmp", inv[o], c.args[1], c.args[2])
    return mk("not", c)


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "const":
        return a if c.args[0] else b
    if c.op in ("list", "tuple") and (not c.args or any(x.op not in ("spread", "star") for x in c.args)):
        return a if c.args else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "cmp" and c.args[0] in ("!=", "isnot", "notin"):
        return ite(neg(c), b, a)
    # prune nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_const(a, True) and is_const(b, False):
        return c
    if is_const(a, False) and is_const(b, True):
        return neg(c)
    return mk("ite", c, a, b)


def children(t):
    if t.op == "idx":       # a loop variable: its domain is its identity, not an operand
        return
    for a in t.args:
        if isinstance(a, T):
            yield a


def walk(t, seen=None):
    """All distinct subterms."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, pred):
    if isinstance(pred, T):
        return any(x is pred for x in walk(t))
    return any(pred(x) for x in walk(t))


def find(t, pred):
    return [x for x in walk(t) if pred(x)]


def subst(t, mapping, memo=None):
    """Replace subterms (dict T->T), rebuilding through simplifying constructors."""
    memo = {} if memo is None else memo

    def go(x):
        if x in mapping:
            return mapping[x]
        if x in memo:
            return memo[x]
        if x.op == "idx":
            return x
        if x.op == "poly" and x in _RAT:
            r = repoly(x, go)
            memo[x] = r
            return r
        ch = False
        na = []
        for a in x.args:
            if isinstance(a, T):
                b = go(a)
                ch |= b is not a
                na.append(b)
            else:
                na.append(a)
        r = rebuild(x.op, na) if ch else x
        memo[x] = r
        return r

    return go(t)


def repoly(x, f):
    """a frozen rational function with every atom mapped by f, normalised again"""
    p, q = _RAT[x]
    m = {a: f(a) for z in (p, q) for k in z for a, _ in k}
    if all(k is v for k, v in m.items()):
        return x
    n = Norm()
    rat = {a: n.ratio(v) for a, v in m.items()}

    def ev(z):
        num, den = Poly(), _pconst(1)
        for k, c in z.items():
            a, b = _pconst(c), _pconst(1)
            for at, e in k:
                u, v = rat[at]
                if e < 0:
                    u, v = v, u
                for _ in range(abs(int(e))):
                    a, b = _pmul(a, u), _pmul(b, v)
            if b == den:
                num = _padd(num, a)
            else:
                num, den = _padd(_pmul(num, b), _pmul(a, den)), _pmul(den, b)
        return num, den
    (a, b), (c, d) = ev(p), ev(q)
    return n._freeze(_pmul(a, d), _pmul(b, c))


def rebuild(op, args):
    if op == "call" and args[0] in ("max", "min"):
        return mk("call", args[0], *sorted(args[1:], key=lambda z: z._h))
    if op == "ite":
        return ite(*args)
    if op == "not":
        return neg(args[0])
    if op == "sub":
        return sub(args[0], args[1])
    if op == "dim":
        return dim(args[0])
    if op == "cat":
        return cat(*args)
    if op == "bin":
        return binop(*args)
    if op == "cmp":
        return cmpop(*args)
    if op == "bool":
        return boolop(args[0], *args[1:])
    if op == "each":
        return each(*args)
    if op == "fmt":
        return fmt(list(args))
    if op == "fpart":
        return fpart(*args)
    if op == "path":
        out = []
        for x in args:
            out.extend(x.args if x.op == "path" else [x])
        return mk("path", *out)
    if op == "call" and args[0] in ("builtins.int", "builtins.float") and len(args) == 2 and args[1].op == "const" \
            and isinstance(args[1].args[0], (int, float)):
        return const(int(args[1].args[0]) if args[0].endswith("int") else float(args[1].args[0]))
    return mk(op, *args)


NOTNONE = ("obj", "tuple", "list", "cat", "fmt", "new", "dict", "store", "bound", "func", "fn", "cls", "path", "bin", "un", "range", "bsum", "dim", "asset", "cmp", "bool", "not")


def not_none(t):
    return t.op in NOTNONE or t.op == "const" and t.args[0] is not None or t.op == "call" and t.args[0].startswith("os.path.")


def cmpop(o, a, b):
    if o in ("is", "isnot", "==", "!=") and (b is NONE and not_none(a) or a is NONE and not_none(b)):
        return const(o in ("isnot", "!="))
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                 "is": lambda: x is y or x == y, "isnot": lambda: not (x is y or x == y)}.get(o)
            if r is not None:
                return const(bool(r()))
        except Exception:
            pass
    if a is b and o in ("==", "<=", "is"):
        return TRUE
    if a is b and o in ("!=", "<", "isnot"):
        return FALSE
    if o in ("==", "!=") and a._h > b._h:
        a, b = b, a
    return mk("cmp", o, a, b)


def boolop(o, *xs):
    out = []
    for x in xs:
        if x.op == "const":
            if bool(x.args[0]) != (o == "and"):
                return const(o != "and")
            continue
        if x.op == "bool" and x.args[0] == o:
            out.extend(y for y in x.args[1:] if y not in out)
        elif x not in out:
            out.append(x)
    if not out:
        return const(o == "and")
    return out[0] if len(out) == 1 else mk("bool", o, *out)


# ---------------------------------------------------------------- sequences
def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.args)
        elif p.op == "list" and not p.args:
            continue
        elif p.op == "list" and out and out[-1].op == "list":
            out[-1] = mk("list", *(out[-1].args + p.args))
        else:
            out.append(p)
    if not out:
        return mk("list")
    if len(out) == 1 and out[0].op == "list":
        return out[0]
    return mk("cat", *out)


SEQ = ("list", "tuple", "cat")


def spread(t):
    """Elements of t as a sequence part."""
    if t.op in ("list", "cat"):
        return t
    if t.op == "tuple":
        return mk("list", *t.args)
    return mk("spread", t)


def each(idx, dom, part, guard=TRUE):
    """part repeated for every value of loop index `idx` < dom (under guard)."""
    if part.op == "list" and not part.args:
        return part
    # identity map -> spread of the base
    if guard is TRUE and part.op == "list" and len(part.args) == 1:
        e = part.args[0]
        if e.op == "sub" and e.args[1] is idx and not contains(e.args[0], idx) and dim(e.args[0]) is dom:
            return spread(e.args[0])
    return mk("each", idx, dom, part, guard)


def dim(t):
    """len(t) along axis 0."""
    if t.op in ("list", "tuple", "set"):
        if not any(a.op in ("spread", "star") for a in t.args if isinstance(a, T)):
            return const(len(t.args))
    if t.op == "const" and isinstance(t.args[0], (str, bytes, tuple)):
        return const(len(t.args[0]))
    if t.op == "cat":
        tot = None
        for p in t.args:
            if p.op == "list":
                d = const(len(p.args))
            elif p.op == "spread":
                d = dim(p.args[0])
            elif p.op == "each" and p.args[3] is TRUE and p.args[2].op == "list" and len(p.args[2].args) == 1:
                d = p.args[1]
            else:
                return mk("dim", t)
            tot = d if tot is None else binop("+", tot, d)
        return tot
    if t.op == "asset" and t.args[0].op == "list" and all(a.op == "const" for a in t.args[0].args):
        return const(len(set(t.args[0].args)))
    if t.op == "range":
        lo, hi = t.args[0], t.args[1]
        return hi if is_const(lo, 0) else binop("-", hi, lo)
    if t.op == "spread":
        return dim(t.args[0])
    if t.op == "call" and t.args[0] in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "builtins.enumerate", "builtins.sorted", "builtins.reversed", "builtins.iter") and len(t.args) >= 2:
        return dim(t.args[1])
    if t.op == "call" and t.args[0] == ".items" or t.op == "call" and t.args[0] in (".keys", ".values"):
        return dim(t.args[1])
    if t.op == "call" and t.args[0] == "builtins.zip" and len(t.args) > 1:
        ds = [dim(a) for a in t.args[1:] if isinstance(a, T)]
        if len(ds) == len(t.args) - 1:
            if all(d is ds[0] for d in ds):
                return ds[0]
            n = Norm()
            if len({n(_slice_dims(d)) for d in ds}) == 1:
                return [d for d in ds if not contains(d, lambda x: x.op == "slice")][0:1][0] if any(not contains(d, lambda x: x.op == "slice") for d in ds) else ds[0]
    if t.op == "fstore":
        b = t.args[0]
        while b.op in ("fstore", "store"):
            b = b.args[0]
        if b.op == "dict":
            return mk("dim", t)
        return dim(t.args[0])
    if t.op == "store" and False:
        return dim(t.args[0])
    return mk("dim", t)


def _slice_dims(d):
    """lengths of slices that leave out a fixed number of items (of sequences long enough)"""
    m = {}
    for x in walk(d):
        if x.op == "dim" and x.args[0].op == "sub" and x.args[0].args[1].op == "slice":
            lo, hi, st = x.args[0].args[1].args
            if st is not NONE and not is_const(st, 1):
                continue
            k = 0
            if is_const(lo) and isinstance(lo.args[0], int) and lo.args[0] >= 0:
                k += lo.args[0]
            elif lo is not NONE:
                continue
            if is_const(hi) and isinstance(hi.args[0], int) and hi.args[0] < 0:
                k -= hi.args[0]
            elif hi is not NONE:
                continue
            m[x] = binop("-", dim(x.args[0].args[0]), const(k))
    return subst(d, m) if m else d


def sub(b, i):
    """b[i] with simplification."""
    if b.op == "ite":
        return ite(b.args[0], sub(b.args[1], i), sub(b.args[2], i))
    if i.op == "ite" and b.op in ("tuple", "list", "dict"):
        return ite(i.args[0], sub(b, i.args[1]), sub(b, i.args[2]))
    if i.op == "const" and isinstance(i.args[0], int) and not isinstance(i.args[0], bool):
        n = i.args[0]
        if b.op in ("tuple", "list") and not any(a.op in ("spread", "star") for a in b.args):
            if -len(b.args) <= n < len(b.args):
                return b.args[n]
        if b.op == "attr" and b.args[1] == "shape" and n == 0:
            return dim(b.args[0])
        if b.op == "const" and isinstance(b.args[0], (str, tuple)) and -len(b.args[0]) <= n < len(b.args[0]):
            return const(b.args[0][n])
        if b.op == "cat" and n >= 0:
            if b.args[0].op == "list" and n < len(b.args[0].args):
                return b.args[0].args[n]
            if b.args[0].op == "list" and len(b.args) > 1:
                return sub(cat(*b.args[1:]), const(n - len(b.args[0].args)))
    if b.op == "cat" and len(b.args) == 1:
        p = b.args[0]
        if p.op == "spread":
            return sub(p.args[0], i)
        if p.op == "each" and p.args[3] is TRUE and p.args[2].op == "list" and len(p.args[2].args) == 1 \
                and i.op not in ("slice", "tuple"):
            return subst(p.args[2].args[0], {p.args[0]: i})
    if b.op == "sub" and b.args[1].op == "slice" and i.op not in ("slice", "tuple"):
        lo, hi, stp = b.args[1].args
        if (stp is NONE or is_const(stp, 1)) and (lo is NONE or lo.op == "const" and isinstance(lo.args[0], int) and lo.args[0] >= 0) \
                and (i.op == "idx" or i.op == "const" and isinstance(i.args[0], int) and i.args[0] >= 0):
            return sub(b.args[0], i if lo is NONE else binop("+", i, lo))
    if i.op == "slice" and b.op in ("tuple", "list") and all(a is NONE or a.op == "const" and isinstance(a.args[0], int) for a in i.args) \
            and not any(a.op in ("spread", "star") for a in b.args):
        return mk(b.op, *b.args[slice(*[None if a is NONE else a.args[0] for a in i.args])])
    if b.op == "range" and i.op not in ("slice", "tuple"):
        return i if is_const(b.args[0], 0) and is_const(b.args[2], 1) else binop("+", b.args[0], binop("*", i, b.args[2]))
    if b.op == "call" and i.op not in ("slice", "tuple"):
        n = b.args[0]
        if n == "builtins.enumerate":
            st = b.args[2] if len(b.args) > 2 and isinstance(b.args[2], T) else const(0)
            if st.op == "kw":
                st = st.args[1]
            return tup(binop("+", i, st) if not is_const(st, 0) else i, sub(b.args[1], i))
        if n == "builtins.zip":
            return tup(*[sub(a, i) for a in b.args[1:]])
        if n in ("builtins.list", "builtins.tuple", "builtins.iter") and len(b.args) == 2:
            return sub(b.args[1], i)
        if n == ".items" and not (i.op == "const"):
            k = mk("key", b.args[1], i)
            return tup(k, sub(b.args[1], k))
        if n == ".keys":
            return mk("key", b.args[1], i)
        if n == ".values":
            return sub(b.args[1], mk("key", b.args[1], i))
    if b.op == "dict":
        for k, v in zip(b.args[::2], b.args[1::2]):
            if k is i:
                return v
    if b.op == "store":
        base, j, v = b.args
        if j is i:
            if v.op == "const" and any(x.op == "slice" or x.op == "const" and x.args[0] is Ellipsis or x.op == "ext" and x.args[0].endswith("Ellipsis") for x in (j.args if j.op == "tuple" else (j,))):
                return mk("sub", b, i)      # a scalar written to many places
            return v
        if j.op == "const" and i.op == "const":
            return sub(base, i)
    if b.op == "fstore":
        # array filled at every loop index:  (base, idx, dom, index-term, value, guard)
        base, idx, dom, it, v, g = b.args
        if it is idx and g is TRUE and i.op in ("idx",) and i.args[0] is dom:
            return subst(v, {idx: i})
    return mk("sub", b, i)


def binop(o, a, b):
    if a.op == "const" and b.op == "const":
        x, y = a.args[0], b.args[0]
        try:
            if o == "+" and type(x) is type(y) and isinstance(x, (str, int, float, tuple, bytes)):
                return const(x + y)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool) and not isinstance(y, bool):
                if o == "+":
                    return const(x + y)
                if o == "-":
                    return const(x - y)
                if o == "*":
                    return const(x * y)
                if o in ("%", "//") and isinstance(x, int) and isinstance(y, int) and y != 0:
                    return const(x % y if o == "%" else x // y)
        except Exception:
            pass
    if o == "*" and a.op == "tuple" and b.op == "const" and type(b.args[0]) is int and 0 <= b.args[0] <= 16:
        return tup(*(a.args * b.args[0]))
    if o == "+":
        if a.op in ("list", "cat") and b.op in ("list", "cat"):
            return cat(a, b)
        if a.op == "tuple" and b.op == "tuple":
            return tup(*(a.args + b.args))
        if is_str(a) or is_str(b):
            return fmt([a, b])
    return mk("bin", o, a, b)


def is_str(t):
    return (t.op == "const" and isinstance(t.args[0], str)) or t.op == "fmt"


def fmt(parts):
    """string concatenation of parts; each part a T, or ('f', T, spec)."""
    out = []
    for p in parts:
        if p.op == "fmt":
            seq = p.args
        else:
            seq = (p,)
        for q in seq:
            if q.op == "const" and isinstance(q.args[0], str) and out and out[-1].op == "const" and isinstance(out[-1].args[0], str):
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif is_const(q, ""):
                continue
            else:
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const" and isinstance(out[0].args[0], str):
        return out[0]
    if len(out) == 1 and out[0].op == "const":
        pass
    return mk("fmt", *out)


def fpart(t, spec="", conv=""):
    if spec == "" and conv in ("", "s"):
        if is_str(t):
            return t
        if t.op == "const" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool):
            return const(str(t.args[0]))
    return mk("fpart", t, spec, conv)


# ---------------------------------------------------------------- printing
def show(t, d=7):
    if not isinstance(t, T):
        return repr(t)
    if d == 0:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, d - 1)
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if o == "sub":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "bin":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    if o == "tuple":
        return "(%s)" % ", ".join(map(s, a))
    if o == "list":
        return "[%s]" % ", ".join(map(s, a))
    if o == "obj":
        return "<%s#%s>" % (a[1], a[0])
    if o == "kw":
        return "%s=%s" % (a[0], s(a[1]))
    if o == "idx":
        return "i%d" % a[1]
    if o == "each":
        return "each(%s<%s: %s if %s)" % tuple(map(s, a))
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else repr(x) for x in a))


# ---------------------------------------------------------------- algebra
# rational normal form:  polynomial = {monomial: Fraction};  monomial = sorted tuple of (atom, power)
class Poly(dict):
    pass


def _padd(p, q, k=1):
    r = Poly(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: (x[0]._h, x[1])))


def _pmul(p, q):
    r = Poly()
    for m, c in p.items():
        for n, d in q.items():
            k = _mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def _pconst(c):
    return Poly({(): Fraction(c)}) if c else Poly()


def _freeze_poly(p):
    return mk("poly", tuple(sorted(((tuple((a._h, str(e)) for a, e in m), str(c)) for m, c in p.items()))),
              *[a for m in sorted(p, key=lambda m: [x[0]._h for x in m]) for a, e in m])


class Norm:
    """Rational-function normal form of arithmetic terms.  `canon` maps a leaf/opaque term to its canonical atom."""

    def __init__(self, canon=None):
        self.canon = canon
        self.memo = {}

    def atom(self, t):
        # normalise inside opaque terms too
        if t.op in ("const", "sym", "idx"):
            r = t
        elif t.op == "poly" and t in _RAT:
            r = repoly(t, self.atom) if self.canon else t
        else:
            na = []
            for a in t.args:
                if isinstance(a, T):
                    na.append(self(a))
                else:
                    na.append(a)
            r = rebuild(t.op, na) if na != list(t.args) else t
        if self.canon:
            r = self.canon(r) or r
        return r

    def ratio(self, t):
        """-> (num, den)"""
        one = _pconst(1)
        if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
            v = t.args[0]
            if v == v and abs(v) != float("inf"):
                return _pconst(Fraction(v)), one
        if t.op == "bin":
            o, a, b = t.args
            if o in "+-":
                (p, q), (r, s) = self.ratio(a), self.ratio(b)
                k = 1 if o == "+" else -1
                if q == s:
                    return _padd(p, r, k), q
                return _padd(_pmul(p, s), _pmul(r, q), k), _pmul(q, s)
            if o == "*":
                (p, q), (r, s) = self.ratio(a), self.ratio(b)
                return _pmul(p, r), _pmul(q, s)
            if o == "/":
                (p, q), (r, s) = self.ratio(a), self.ratio(b)
                return _pmul(p, s), _pmul(q, r)
            if o == "**" and b.op == "const" and isinstance(b.args[0], (int, float)) and not isinstance(b.args[0], bool) \
                    and float(b.args[0]).is_integer() and 0 <= abs(b.args[0]) <= 6 or o == "**" and b.op == "const" and type(b.args[0]) is int and abs(b.args[0]) <= 64 \
                    and all(len(x) <= 1 for x in self.ratio(a)):
                p, q = self.ratio(a)
                n = int(b.args[0])
                if n < 0:
                    p, q, n = q, p, -n
                P, Q = one, one
                for _ in range(n):
                    P, Q = _pmul(P, p), _pmul(Q, q)
                return P, Q
        if t.op == "un" and t.args[0] == "-":
            p, q = self.ratio(t.args[1])
            return _padd(Poly(), p, -1), q
        if t.op == "un" and t.args[0] == "+":
            return self.ratio(t.args[1])
        if t.op == "call" and t.args[0] in ("numpy.square",):
            p, q = self.ratio(t.args[1])
            return _pmul(p, p), _pmul(q, q)
        if t.op == "call" and t.args[0] in ("numpy.power", "builtins.pow") and len(t.args) == 3:
            return self.ratio(mk("bin", "**", t.args[1], t.args[2]))
        if t.op == "call" and t.args[0] in ("numpy.subtract", "numpy.add", "numpy.multiply", "numpy.divide", "numpy.true_divide") and len(t.args) == 3:
            o = {"subtract": "-", "add": "+", "multiply": "*", "divide": "/", "true_divide": "/"}[t.args[0].split(".")[1]]
            return self.ratio(mk("bin", o, t.args[1], t.args[2]))
        a = self.atom(t)
        if a.op == "poly" and a in _RAT:
            return _RAT[a]
        if a is not t and a.op in ("bin", "un", "const"):
            return self.ratio(a)
        return Poly({((a, 1),): Fraction(1)}), one

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        if t.op in ("bin", "un") or (t.op == "call" and t.args[0] in ("numpy.square", "numpy.power", "numpy.subtract", "numpy.add", "numpy.multiply", "numpy.divide", "numpy.true_divide", "builtins.pow")):
            if t.op == "bin" and t.args[0] not in ("+", "-", "*", "/", "**"):
                r = self.atom(t)
            else:
                p, q = self.ratio(t)
                r = self._freeze(p, q)
        else:
            r = self.atom(t)
        self.memo[t] = r
        return r

    def _freeze(self, p, q):
        # cancel monomial content
        if not p:
            return const(0)
        if len(q) == 1:
            (m, c), = q.items()
            inv = tuple((a, -e) for a, e in m)
            p = Poly({_mmul(k, inv): v / c for k, v in p.items()})
            q = _pconst(1)
        else:
            # scale so that the smallest denominator monomial has coeff 1
            k0 = min(q, key=lambda m: [(a._h, e) for a, e in m])
            c = q[k0]
            p = Poly({m: v / c for m, v in p.items()})
            q = Poly({m: v / c for m, v in q.items()})
            if p == q:
                return const(1)
        if q == _pconst(1):
            if len(p) == 1:
                (m, c), = p.items()
                if not m:
                    return const(int(c) if c.denominator == 1 else float(c))
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    return m[0][0]
        t = mk("poly", _fz(p), _fz(q), *_atoms(p, q))
        _RAT[t] = (p, q)
        return t

    def equal(self, a, b):
        if self(a) is self(b):
            return True
        (p, q), (r, s) = self.ratio(a), self.ratio(b)
        return _pmul(p, s) == _pmul(r, q)


_RAT = {}


def _fz(p):
    return tuple(sorted((tuple((a._h, str(e)) for a, e in m), str(c)) for m, c in p.items()))


def _atoms(p, q):
    s = {a._h: a for m in list(p) + list(q) for a, e in m}
    return [s[k] for k in sorted(s)]
