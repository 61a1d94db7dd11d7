"""Mesh and field files: lines written by the writer are read back by the reader column by column."""
import re

from rules.registry import prop
from rules.common import *
from sa.ixform import Unk
from sa.repo import AnchorError
from sa.terms import Norm

CLS = "mlmc.tool.gmsh_io.GmshIO"
SELF = sym("self")
FILE = sym("mshfile")
norm = Norm()


def with_file(t):
    """the branch with a file given"""
    while True:
        m = {}
        for x in walk(t):
            if x.op == "ite" and x.args[0] is FILE:
                m[x] = x.args[1]
            elif x.op == "ite" and x.args[0].op == "not" and x.args[0].args[0] is FILE:
                m[x] = x.args[2]
        if not m:
            return t
        t = subst(t, m)


# ------------------------------------------------------------------------------------------------ written lines
def pieces(t):
    """string term -> list of const strings and value terms"""
    if is_const(t) and isinstance(t.args[0], str):
        return [t.args[0]]
    if t.op == "fmt":
        out = []
        for x in t.args:
            if isinstance(x, str):
                out.append(x)
            elif x.op == "fpart":
                inner = x.args[0]
                if inner.op == "call" and last(inner.args[0]) == "join":
                    out += pieces(inner)
                else:
                    out.append(exact(inner, x.args[1]))
            else:
                out += pieces(x)
        return out
    if t.op == "call" and last(t.args[0]) == "join" and is_const(t.args[1]) and t.args[1].args[0].strip() == "" and t.args[1].args[0]:
        out = []
        seq = t.args[2]
        if seq.op in ("list", "tuple") and not any(a.op in ("spread", "star") for a in seq.args):
            qs = [pieces(a) for a in seq.args]
        elif seq.op == "cat" and len(seq.args) > 1:
            qs = []
            for a in seq.args:
                if a.op == "list":
                    qs += [pieces(b) for b in a.args]
                elif a.op == "each":
                    qs += [[q] for q in row_parts(sequence(mk("cat", a)))]
                else:
                    raise Unk("joined " + show(seq, 5))
        else:
            qs = [[q] for q in row_parts(sequence(seq))]
        for q in qs:
            out += ([t.args[1].args[0]] if out else []) + q
        return out
    if t.op == "call" and t.args[0] in ("builtins.str", "builtins.repr") and len(t.args) == 2:
        return [t.args[1]]
    if t.op == "bin" and t.args[0] == "+" and (stringy(t.args[1]) or stringy(t.args[2])):
        return pieces(t.args[1]) + pieces(t.args[2])
    return [t]


def stringy(t):
    return is_const(t) and isinstance(t.args[0], str) or t.op == "fmt" or t.op == "call" and (last(t.args[0]) in ("join", "format") or t.args[0] in ("builtins.str", "builtins.repr")) or t.op == "bin" and t.args[0] == "+" and (stringy(t.args[1]) or stringy(t.args[2]))


SPEC = re.compile(r"(.?[<>=^])?[+\- ]?#?0?\d*(\.\d+)?([a-zA-Z]?)$")


def exact(t, spec):
    """value written with a format; formats that keep fewer digits than a float has are marked"""
    if not isinstance(spec, str):
        raise Unk("format %r" % (spec,))
    m = SPEC.match(spec)
    if not m:
        raise Unk("format " + spec)
    p, k = int(m.group(2)[1:]) if m.group(2) else None, m.group(3)
    if k in ("", "s", "r", "d", "i") and p is None:
        return mk("integer", t) if k in ("d", "i") else t
    if k in ("g", "G", "") and p is not None and p >= 17 or k in ("e", "E") and p is not None and p >= 16:
        return t
    return mk("rounded", t, spec)


def mdim(t):
    return dim(t.args[0] if t.op in ("integer", "rounded") else t)


def plain(t):
    """integers written as integers"""
    return t.args[0] if isinstance(t, T) and t.op == "integer" else t


def sequence(t):
    """term X of join(str(x) for x in X)"""
    if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "each":
        idx, dom, part, g = t.args[0].args
        if g is TRUE and part.op == "list" and len(part.args) == 1:
            p = pieces(part.args[0])
            if len(p) == 1 and isinstance(p[0], T):
                q, wrap = p[0], None
                if q.op in ("rounded", "integer"):
                    q, wrap = q.args[0], q
                x = None
                if q.op == "sub" and q.args[1] is idx and norm(dom) is norm(dim(q.args[0])):
                    x = q.args[0]
                elif q.op == "sub" and q.args[1] is idx and dom.op == "dim" and dom.args[0].op == "sub" and dom.args[0].args[0] is q.args[0] and dom.args[0].args[1].op == "slice" and dom.args[0].args[1].args[0] in (NONE, const(0)):
                    x = dom.args[0]
                if x is not None:
                    return mk(wrap.op, x, *wrap.args[1:]) if wrap is not None else x
    if t.op == "call" and t.args[0] == "builtins.map" and len(t.args) == 3 and show(t.args[1]).endswith(("str')", "repr')")):
        return t.args[2]
    raise Unk("joined " + show(t, 5))


def row_parts(x):
    """pieces of a joined row: single values and ("many", sequence)"""
    if x.op in ("rounded", "integer"):
        return [mk(x.op, q, *x.args[1:]) if isinstance(q, T) else ("many", mk(x.op, q[1], *x.args[1:])) for q in row_parts(x.args[0])]
    if x.op in ("list", "tuple"):
        if any(a.op in ("spread", "star") for a in x.args):
            raise Unk("joined " + show(x, 4))
        return list(x.args)
    if x.op == "cat":
        out = []
        for a in x.args:
            if a.op == "list":
                out += row_parts(a)
            elif a.op == "spread":
                out += row_parts(a.args[0])
            else:
                raise Unk("joined " + show(x, 4))
        return out
    if x.op == "bin" and x.args[0] == "+":
        return row_parts(x.args[1]) + row_parts(x.args[2])
    if x.op == "call" and x.args[0] in ("builtins.list", "builtins.tuple") and len(x.args) == 2:
        return row_parts(x.args[1])
    if x.op in ("sub", "attr", "sym"):
        return [("many", x)]
    raise Unk("joined " + show(x, 4))


def by_key(t):
    """items of a (sorted) dictionary as pairs of key and value"""
    while True:
        m = {}
        for x in walk(t):
            if x.op == "sub" and is_const(x.args[1]) and x.args[1].args[0] in (0, 1) and x.args[0].op == "sub":
                q = x.args[0].args[0]
                if q.op == "call" and q.args[0] in ("builtins.sorted", "builtins.list") and len(q.args) == 2 and q.args[1].op == "call" and last(q.args[1].args[0]) == "items":
                    D = q.args[1].args[1]
                    K = sub(mk("call", q.args[0], mk("call", ".keys", D)), x.args[0].args[1])
                    m[x] = K if x.args[1].args[0] == 0 else sub(D, K)
        if not m:
            return t
        t = subst(t, m)


def print_text(e):
    kw = e.kw if isinstance(e.kw, dict) else dict(e.kw)
    sep = kw.get("sep", const(" "))
    end = kw.get("end", const("\n"))
    if not (is_const(sep) and is_const(end)):
        raise Unk("separators")
    out = []
    for k, a in enumerate(e.args):
        if k:
            out.append(sep.args[0])
        if a.op in ("star", "spread"):
            for n, q in enumerate(row_parts(by_key(a.args[0]))):
                out += ([sep.args[0]] if n else []) + [q]
            continue
        out += pieces(by_key(a))
    return out + [end.args[0]]


def write_text(e):
    return pieces(by_key(e.args[-1]))


def lines(ps):
    """list of lines; a line is a list of tokens; a token is a list of pieces"""
    res, line, tok = [], [], []
    for p in ps:
        if not isinstance(p, str):
            tok.append(p)
            continue
        for ch in p:
            if ch in " \t\n":
                if tok:
                    line.append(tok)
                    tok = []
                if ch == "\n":
                    res.append(line)
                    line = []
            else:
                if tok and isinstance(tok[-1], str):
                    tok[-1] += ch
                else:
                    tok.append(ch)
    if tok:
        line.append(tok)
    if line:
        res.append(line)
    return res


def text_of(tok):
    """constant token"""
    return tok[0] if len(tok) == 1 and isinstance(tok[0], str) else None


# ------------------------------------------------------------------------------------------------ reading a written line
class Line:
    def __init__(self, toks):
        self.toks = toks

    def size(self):
        n = const(0)
        for t in self.toks:
            n = mk("bin", "+", n, mdim(t[0][1]) if len(t) == 1 and isinstance(t[0], tuple) else const(1))
        return norm(n)

    def at(self, k):
        """token at a symbolic position"""
        k = norm(k)
        n = const(0)
        for t in self.toks:
            if norm(n) is k:
                if len(t) == 1 and isinstance(t[0], tuple):
                    return ("item", t[0][1], const(0))
                return ("tok", t)
            n = mk("bin", "+", n, mdim(t[0][1]) if len(t) == 1 and isinstance(t[0], tuple) else const(1))
        raise Unk("column %s of the line" % show(k, 4))

    def span(self, lo, hi):
        """tokens from position lo to hi (None: end)"""
        lo = norm(lo)
        hi = norm(hi) if hi is not None else self.size()
        n, out, on = norm(const(0)), [], False
        for t in self.toks + [None]:
            if n is lo:
                on = True
            if n is hi and on:
                return out
            if t is None:
                break
            if on:
                out.append(t)
            n = norm(mk("bin", "+", n, mdim(t[0][1]) if len(t) == 1 and isinstance(t[0], tuple) else const(1)))
        raise Unk("columns %s:%s of the line" % (show(lo, 4), show(hi, 4)))


def tokval(t):
    t = [p for p in t]
    if len(t) == 3 and t[0] == '"' and t[2] == '"':
        return ("quoted", plain(t[1]))
    if len(t) == 1:
        if isinstance(t[0], str):
            try:
                return ("val", const(int(t[0])))
            except ValueError:
                return ("val", const(t[0]))
        return ("val", plain(t[0]))
    raise Unk("token %r" % (t,))


def read_scalar(t, COL, L):
    """value read by term t from a line"""
    t = conv(t)
    if not from_file(t):
        raise Foreign(show(t, 4))
    if t.op == "call" and last(t.args[0]) == "strip" and len(t.args) == 3 and is_const(t.args[2]):
        k, v = tokval(L.at(col(t.args[1], COL, L))[1])
        cut = set(t.args[2].args[0]) - set("\"' \t\r\n")
        if (k == "quoted" and '"' in t.args[2].args[0] or k == "val") and cut:
            return mk("without", v, "".join(sorted(cut)))
        if k == "quoted" and '"' in t.args[2].args[0]:
            return v
        if k == "val":
            return v
        raise Unk(show(t, 4))
    if t.op == "call" and t.args[0] in ("builtins.round", "numpy.round", "numpy.around") and len(t.args) >= 2:
        return mk("rounded", read_scalar(t.args[1], COL, L), *t.args[2:])
    if t.op == "bin" and t.args[0] in ("+", "-") and is_const(t.args[2]) and not is_const(t.args[2], 0) and not stringy(t.args[2]):
        return norm(mk("bin", t.args[0], read_scalar(t.args[1], COL, L), t.args[2]))
    kind = L.at(col(t, COL, L))
    if kind[0] == "item":
        return sub(kind[1], kind[2])
    k, v = tokval(kind[1])
    if k == "quoted":
        return mk("quoted", v)
    return v


class Foreign(Unk):
    """a part of the value read does not come from the file"""


def from_file(t):
    return contains(t, lambda y: y.op == "occ" or y.op == "call" and last(y.args[0]) in ("readline", "read", "split", "strip", "next"))


def conv(t):
    while t.op == "call" and t.args[0] in ("builtins.int", "builtins.float", "builtins.str") and len(t.args) == 2:
        t = t.args[1]
    return t


def col(t, COL, L):
    """position of a column term"""
    t = conv(t)
    if t.op == "sub" and t.args[0] is COL:
        return posn(t.args[1], COL, L)
    raise Unk(show(t, 5))


def posn(t, COL, L):
    m = {}
    for x in walk(t):
        if x.op == "call" and x.args[0] in ("builtins.int", "builtins.float") and contains(x, COL):
            m[x] = read_scalar(x, COL, L)
    return subst(t, m)


def read_seq(t, COL, L):
    """sequence term read from a line -> list of tokens"""
    if t.op == "cat" and len(t.args) > 1 and any(x.op == "list" and x.args and not from_file(x) for x in t.args):
        raise Foreign(show(t, 4))
    if t.op in ("list", "tuple") and t.args and not any(a.op in ("spread", "star") for a in t.args):
        return [[read_scalar(a, COL, L)] for a in t.args]
    if t.op == "call" and t.args[0] == "builtins.list" and len(t.args) == 2:
        return read_seq(t.args[1], COL, L)
    if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "each":
        idx, dom, part, g = t.args[0].args
        if g is TRUE and part.op == "list" and len(part.args) == 1:
            b = conv(part.args[0])
            if b.op == "sub" and dom.op == "dim":
                # [f(X[i]) for i] with X a slice of the columns
                src = dom.args[0]
                if src is COL and b.args[0] is COL and b.args[1] is idx:
                    return L.span(const(0), None)
                if src.op == "sub" and src.args[0] is COL and src.args[1].op == "slice":
                    lo, hi, st = src.args[1].args
                    lo = const(0) if lo is NONE else lo
                    if b is sub(src, idx) or b.args[0] is COL and norm(b.args[1]) is norm(mk("bin", "+", idx, lo)):
                        return L.span(posn(lo, COL, L), None if hi is NONE else posn(hi, COL, L))
    if t.op == "call" and t.args[0] in ("builtins.sorted", "builtins.reversed", "numpy.sort") and len(t.args) == 2:
        return [[mk("sorted", t)]]
    if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "each" and contains(t.args[0].args[2], lambda y: y.op == "call" and y.args[0] in ("builtins.round", "numpy.round", "numpy.around")):
        m = {y: y.args[1] for y in walk(t) if y.op == "call" and y.args[0] in ("builtins.round", "numpy.round", "numpy.around")}
        return [[mk("rounded", q[0][1] if isinstance(q[0], tuple) else q[0])] for q in read_seq(subst(t, m), COL, L)]
    if t.op == "sub" and t.args[1].op == "slice":
        lo, hi, st = t.args[1].args
        inner = t.args[0]
        if inner.op == "call" and inner.args[0] in ("builtins.sorted", "builtins.reversed", "numpy.sort") and len(inner.args) == 2 and contains(inner, COL):
            return [[mk("sorted", t)]]
        if inner is COL or read_seq(inner, COL, L) == L.toks:
            return L.span(const(0) if lo is NONE else posn2(lo, COL, L), None if hi is NONE else posn2(hi, COL, L))
    raise Unk(show(t, 5))


def posn2(t, COL, L):
    """positions may be given by items of the converted columns"""
    m = {}
    for x in walk(t):
        if x.op == "sub" and x.args[0].op == "cat" and contains(x, COL):
            try:
                if read_seq(x.args[0], COL, L) == L.toks and not isinstance(x.args[1], str):
                    m[x] = read_scalar(sub(COL, x.args[1]), COL, L)
            except Unk:
                pass
    return posn(subst(t, m), COL, L)


# ------------------------------------------------------------------------------------------------ rules
def reader(ctx):
    r = ctx.run_method(CLS, "read")
    f = ctx.method(CLS, "read")
    evs = [e for e in r.events if e.kind == "setitem" and e.loops]
    cols = {}
    for e in evs:
        for a in e.args:
            for x in walk(with_file(a)):
                if x.op == "call" and last(x.args[0]) == "split":
                    cols[x] = cols.get(x, 0) + 1
    cols = {x: n for x, n in cols.items() if contains(x, lambda y: y.op == "occ" and y.args[-1] in (0, const(0)))}
    if len(cols) != 1:
        raise AnchorError("columns of a line in " + f.full)
    return f, r, evs, list(cols)[0]


def stores(evs, name):
    out = []
    for e in evs:
        if e.recv is not None and contains(e.recv, lambda x: x.op == "attr" and x.args[1] == name) or e.recv is not None and name in show(e.recv, 3):
            out.append(e)
    return out


def mode_of(r, header, like=None):
    """value of the section variable after a header line"""
    best = None
    for mu, (init, upd, idx, dom) in r.eng.loopinfo.items():
        if contains(upd, lambda x: is_const(x, like or header)) and mu.op == "mu" and is_const(init):
            u = with_file(upd)
            m = {}
            for x in walk(u):
                if x.op == "cmp" and x.args[0] == "==" and any(is_const(a) and isinstance(a.args[0], str) and a.args[0].startswith("$") for a in x.args[1:]):
                    m[x] = TRUE if any(is_const(a, header) for a in x.args[1:]) else FALSE
                elif x.op == "call" and last(x.args[0]) == "startswith" and is_const(x.args[-1], "$"):
                    m[x] = TRUE
                elif x.op == "cmp" and x.args[0] == "in" and contains(x.args[2], lambda y: is_const(y) and isinstance(y.args[0], str) and str(y.args[0]).startswith("$")):
                    m[x] = TRUE if contains(x.args[2], lambda y: is_const(y, header)) else FALSE
                elif x.op == "ite" and x.args[1] is mu and "?join" in show(x.args[0], 2):
                    m[x.args[0]] = FALSE
                elif x.op == "sub" and x.args[0].op == "dict" and any(is_const(k, header) for k in x.args[0].args[::2]):
                    m[x] = x.args[0].args[[is_const(k, header) for k in x.args[0].args[::2]].index(True) * 2 + 1]
            v = subst(u, m)
            if is_const(v):
                return mu, v
            if v is mu and like:
                return mode_of(r, like)
    raise Unk("section of " + header)


def is_line(x):
    """the text of a line"""
    while x.op == "call" and last(x.args[0]) in ("strip", "rstrip", "lstrip") and len(x.args) == 2:
        x = x.args[1]
        if x.op == "occ":
            return True
    return False


def active(e, mu, mode, COL, length, inits={}):
    """does the event happen for a line of `length` columns in the section (None: depends)"""
    res = True
    for c, p in conds(e):
        c = with_file(c)
        m = {mu: mode, dim(COL): length}
        for x in walk(c):
            if x.op == "call" and last(x.args[0]) == "startswith":
                m[x] = FALSE
            if x.op == "mu" and x is not mu and x in inits:
                m[x] = inits[x]
            if is_line(x):
                m[x] = TRUE
            if x.op == "exc":
                m[x] = FALSE
        v = fold(subst(c, m))
        if v is None and is_line(c):
            v = True
        if v is None:
            res = None
        elif v != p:
            return False
    return res


def fold(c):
    if is_const(c):
        return bool(c.args[0])
    if c.op == "sym" and c is FILE:
        return True
    if c.op == "cmp":
        o, a, b = c.args
        if a.op == "ite" or b.op == "ite":
            x = a if a.op == "ite" else b
            v = fold(x.args[0])
            if v is not None:
                return fold(cmpop(o, *[(x.args[1] if v else x.args[2]) if y is x else y for y in (a, b)]))
        if is_const(a) and b.op in ("tuple", "list", "set") and all(is_const(x) for x in b.args) and o in ("in", "notin", "not in"):
            return (a.args[0] in [x.args[0] for x in b.args]) == (o == "in")
        c2 = cmpop(o, norm(a), norm(b))
        if is_const(c2):
            return bool(c2.args[0])
        return None
    if c.op == "bool":
        vs = [fold(x) for x in c.args[1:]]
        if c.args[0] == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c.op == "not":
        v = fold(c.args[0])
        return None if v is None else not v
    return None


def data_line(ctx, key, where, toks, e, COL, want_key, want, cls):
    L = Line(toks)
    a = [with_file(x) for x in e.args]
    try:
        k = read_scalar(a[0], COL, L)
        ctx.req(k is want_key, key + "-key", e.where(), "written key is read: %s, written %s" % (show(k, 4), show(want_key, 4)))
        v = a[1]
        vs = list(v.args) if v.op == "tuple" else [v]
        ws = list(want) if isinstance(want, list) else [want]
        if len(vs) != len(ws):
            ctx.bad(key + "-value", e.where(), "%d parts read, %d expected" % (len(vs), len(ws)))
            return
        for n, (x, w) in enumerate(zip(vs, ws)):
            nm = "%s-value%d" % (key, n)
            if isinstance(w, tuple):
                got = read_seq(x, COL, L)
                if cls == "nodes":
                    ctx.req([q[0] for q in got] == [sub(w[1], const(q)) for q in range(3)], nm, e.where(), "read %s, written %s" % ([show(q[0], 4) if isinstance(q[0], T) else str(q[0]) for q in got], show(w[1], 4)))
                    continue
                ok = len(got) == 1 and len(got[0]) == 1 and isinstance(got[0][0], tuple) and (plain(got[0][0][1]) if cls == "elements" else got[0][0][1]) is w[1]
                ctx.req(ok, nm, e.where(), "read %s, written %s" % (got and [show(q[0][1], 4) if isinstance(q[0], tuple) else "one value" for q in got], show(w[1], 4)))
            else:
                got = read_scalar(x, COL, L)
                ctx.req(got is w, nm, e.where(), "read %s, written %s" % (show(got, 4), show(w, 4)))
    except Unk as x:
        # columns that do not exist in the written line are a mismatch; other forms are not understood
        s = str(x)
        if isinstance(x, Foreign):
            ctx.bad(key, e.where(), "value read does not come from the written line: " + s[:200])
        elif s.startswith("column"):
            ctx.bad(key, e.where(), "the reader takes %s written as %s" % (s, " ".join(shown(t) for t in toks)))
        else:
            ctx.und(key, e.where(), s[:200])


def shown(t):
    return "".join(p if isinstance(p, str) else "<%s…>" % show(p[1], 3) if isinstance(p, tuple) else "<%s>" % show(p, 3) for p in t)


@prop("G01", "Writer/reader agreement: the text templates of every written section and line are matched against the reader's tokenisation and conversions, so each token read is the value written; counts, completeness of loops, and file typestate (opened files are closed on every path).",
      ["text form of a float read back is the value up to the written precision", "names contain no white space"])
def g01_mesh(ctx):
    f, r, evs, COL = reader(ctx)
    fw = ctx.method(CLS, "write_ascii")
    w = ctx.run_method(CLS, "write_ascii")
    wl = []
    for e in w.events:
        if e.kind == "call" and (e.name == "builtins.print" and "file" in (e.kw if isinstance(e.kw, dict) else dict(e.kw)) or last(e.name) == "write") and (FILE, False) not in conds(e):
            try:
                wl.append((e, lines(print_text(e) if e.name == "builtins.print" else write_text(e))))
            except Unk as x:
                ctx.und("line@write_ascii", e.where(), str(x)[:200])
    head = None
    order = {"nodes": ("$Nodes", "$EndNodes"), "elements": ("$Elements", "$EndElements"), "physical": ("$PhysicalNames", "$EndPhysicalNames")}
    part = {k: [] for k in order}
    cur = None
    for e, ls in wl:
        for l in ls:
            h = text_of(l[0]) if l else None
            if h and h.startswith("$"):
                if cur and h == order[cur][1]:
                    cur = None
                else:
                    for k, (a, b) in order.items():
                        if h == a:
                            cur = k
            elif cur:
                part[cur].append((e, l))
    for k in order:
        body = [(e, l) for e, l in part[k] if e.loops]
        cnt = [(e, l) for e, l in part[k] if not e.loops]
        C = attr(SELF, k)
        at = fw.full
        if len(body) != 1:
            ctx.und("section@" + k, at, "%d data lines" % len(body))
            continue
        e, l = body[0]
        ctx.req(len(cnt) == 1 and len(cnt[0][1]) == 1 and [plain(q) for q in cnt[0][1][0]] == [dim(C)], "count@" + k, at, "number of lines precedes the section: " + (" ".join(shown(t) for t in cnt[0][1]) if cnt else "missing"))
        idx, dom = e.loops[-1][0], e.loops[-1][1]
        # loop over all items
        item = None
        for t in l:
            for p in t:
                if isinstance(p, tuple) or isinstance(p, T):
                    for x in walk(p[1] if isinstance(p, tuple) else p):
                        if x.op == "sub" and x.args[0] is C:
                            item = x
        keyterm = item.args[1] if item is not None else None
        full = keyterm is not None and (keyterm is mk("key", C, idx) or keyterm.op == "sub" and keyterm.args[1] is idx and contains(keyterm.args[0], C))
        if not full:
            part = [y for y in walk(dom) if y.op == "sub" and y.args[1].op == "slice" and any(is_const(q) and q is not NONE and q.args[0] != 0 for q in y.args[1].args[:2]) and contains(y.args[0], C)]
            if dom.op == "dim" and part and part[0] is dom.args[0]:
                ctx.bad("all@" + k, e.where(), "NOT SATISFIED: every item is written; loop over " + show(dom, 4))
            else:
                ctx.und("all@" + k, e.where(), "loop over " + show(dom, 3))
            continue
        ctx.req(not [c for c, p in conds(e) if c is not FILE], "all@" + k, e.where(), "every item is written")
        if k == "nodes":
            want = [("many", item)]
            # a node has three coordinates
            wide = []
            for t in l:
                if len(t) == 1 and isinstance(t[0], tuple):
                    y = t[0][1]
                    base = y.args[0] if y.op in ("rounded", "integer") else y
                    wide += [[mk(y.op, sub(base, const(q)), *y.args[1:]) if base is not y else sub(y, const(q))] for q in range(3)]
                else:
                    wide.append(t)
            l = wide
        elif k == "elements":
            want = [sub(item, const(0)), ("many", sub(item, const(1))), ("many", sub(item, const(2)))]
        else:
            want = [sub(item, const(0)), sub(item, const(1))]
        try:
            mu, mode = mode_of(r, order[k][0])
        except Unk as x:
            ctx.und("header@" + k, f.full, str(x))
            continue
        ctx.ok("header@" + k, f.full, "section %s is recognised" % order[k][0])
        inits = {x: i[0] for x, i in r.eng.loopinfo.items() if is_const(i[0])}
        n = {"nodes": const(4), "elements": const(6), "physical": const(3)}[k]
        act = [x for x in stores(evs, k) if active(x, mu, mode, COL, n, inits)]
        rej = [x for x in stores(evs, k) if active(x, mu, mode, COL, n, inits) is None]
        if not act:
            skip = [c for x in rej for c in by_data(x, COL)]
            if skip:
                ctx.bad("read@" + k, rej[0].where(), "lines of section %s are read or skipped by their values: %s" % (order[k][0], show(skip[0], 5)))
            elif rej:
                ctx.und("read@" + k, f.full, "conditions of reading: " + "; ".join(show(c, 4) for c, p in conds(rej[0]))[:200])
            else:
                ctx.bad("read@" + k, f.full, "lines of section %s are not read (line of %s columns)" % (order[k][0], show(n)))
            continue
        if len(act) != 1:
            ctx.und("read@" + k, f.full, "%d ways of reading" % len(act))
            continue
        # resolve conditions on the section inside the values
        ev = act[0]
        res = [resolve(x, mu, mode) for x in ev.args]
        ev2 = View(ev, res)
        data_line(ctx, "read@" + k, at, l, ev2, COL, keyterm, want, k)
        cn = active(ev, mu, mode, COL, const(1), inits)
        ctx.req(cn is False or cn is None, "skip@" + k, ev.where(), "the line with the count is not taken for data")


def by_data(e, COL):
    """conditions on the values of a line under which it is stored"""
    out = []
    for c, p in conds(e):
        c = with_file(c)
        for x in walk(c):
            if x.op == "cmp" and any(is_const(a) and isinstance(a.args[0], (int, float)) and not isinstance(a.args[0], bool) for a in x.args[1:]):
                o = [a for a in x.args[1:] if not is_const(a)]
                if len(o) == 1 and o[0].op == "call" and o[0].args[0] in ("builtins.int", "builtins.float") and contains(o[0], lambda y: y.op == "sub" and y.args[0] is COL) or len(o) == 1 and o[0].op == "sub" and is_const(o[0].args[1]) and o[0].args[0].op == "cat" and contains(o[0], COL):
                    out.append(x)
    return out


class View:
    def __init__(self, e, args):
        self.e, self.args = e, args

    def where(self):
        return self.e.where()


def resolve(t, mu, mode):
    t = subst(with_file(t), {mu: mode})
    while True:
        m = {}
        for x in walk(t):
            if x.op == "ite":
                v = fold(x.args[0])
                if v is not None:
                    m[x] = x.args[1] if v else x.args[2]
        if not m:
            return t
        t = subst(t, m)


@prop("G01", "")
def g01_fields(ctx):
    f, r, evs, COL = reader(ctx)
    fw = ctx.method(CLS, "write_fields")
    w = ctx.run_method(CLS, "write_fields")
    at = fw.full
    ps = [p for p in fw.params() if p != "self"]
    ID, FD = sym(ps[1]), sym(ps[2])
    wr = [e for e in w.events if e.kind == "call" and last(e.name) == "write"]
    hd = [e for e in wr if len(e.loops) == 1]
    row = [e for e in wr if len(e.loops) == 2]
    if len(row) != 1:
        raise AnchorError("rows written by " + at)
    e = row[0]
    try:
        ls = lines(write_text(e))
        hl = []
        for x in hd:
            if precedes(x, e):
                hl += lines(write_text(x))
    except Unk as x:
        ctx.und("line@fields", at, str(x)[:200])
        return
    i, j = e.loops[0][0], e.loops[1][0]
    nm = mk("key", FD, i)
    vals = sub(FD, nm)
    if len(ls) != 1:
        ctx.bad("row@lines", e.where(), "a row of data takes %d lines" % len(ls))
        return
    rec = [x for x in evs if x.recv is not None and "current_elem_data" in show(x.recv, 3)]
    if len(rec) != 1:
        ctx.und("read@row", f.full, "%d ways of reading" % len(rec))
    else:
        toks = [[strip_conv(p) for p in t] for t in ls[0]]
        data_line(ctx, "read@row", at, toks, View(rec[0], [with_file(x) for x in rec[0].args]), COL, sub(ID, j), [("many", sub(vals, j))], "row")
    # header lines
    while hl and text_of(hl[0][0]) != "$ElementData":
        hl = hl[1:]
    if not hl:
        ctx.bad("header@section", at, "section $ElementData is not written")
        return
    hl = hl[1:]
    hr = ctx.run_method(CLS, "read_element_data_head")
    hf = ctx.method(CLS, "read_element_data_head")
    v = hr.eng.deref(hr.value, hr.state)
    names = ("field", "time", "t_idx", "n_comp", "n_elem")
    if v.op != "tuple" or len(v.args) != 5:
        ctx.und("header@parts", hf.full, show(v, 4))
        return
    occs = sorted({x.args[1] if isinstance(x.args[1], int) else x.args[1].args[0] for x in walk(v) if x.op == "occ"})
    base = 0

    def line_of(t):
        o = [x for x in walk(t) if x.op == "occ"]
        if len(set(o)) != 1:
            raise Unk(show(t, 4))
        k = o[0].args[1] if isinstance(o[0].args[1], int) else o[0].args[1].args[0]
        if k >= len(hl):
            raise Unk("column: header line %d" % k)
        return hl[k]
    want = {"field": nm, "n_comp": None, "n_elem": dim(vals)}
    for n, t in zip(names, v.args):
        try:
            l = line_of(t)
            if len(l) != 1:
                raise Unk("line of %d words" % len(l))
            k, x = tokval(l[0])
            if n == "field":
                q = contains(t, lambda y: y.op == "call" and last(y.args[0]) == "strip" and len(y.args) == 3 and is_const(y.args[2]) and '"' in y.args[2].args[0])
                q = q or contains(t, lambda y: y.op == "sub" and y.args[1].op == "slice" and is_const(y.args[1].args[0], 1) and is_const(y.args[1].args[1], -1)) or contains(t, lambda y: y.op == "call" and last(y.args[0]) == "replace" and '"' in [z.args[0] for z in y.args[1:] if isinstance(z, T) and is_const(z)])
                x = conv(x)
                ctx.req(x is nm and (k == "val" or q), "header@field", hf.full, "field name: " + show(x, 3))
            elif n == "n_elem":
                ctx.req(norm(x) is norm(dim(vals)), "header@n_elem", hf.full, "number of rows: " + show(x, 4))
            elif n == "n_comp":
                okc = contains(x, lambda y: y is sub(vals, const(0))) and x.op == "dim" or norm(x) in (norm(sub(attr(vals, "shape"), const(1))), norm(dim(sub(vals, j))))
                ctx.req(okc, "header@n_comp", hf.full, "number of components: " + show(x, 4))
            else:
                ctx.req(is_const(x) and x.args[0] == 0, "header@" + n, hf.full, "%s: %s" % (n, show(x, 3)))
        except Unk as x:
            if str(x).startswith("column"):
                ctx.bad("header@" + n, hf.full, "the header has %d lines" % len(hl))
            else:
                ctx.und("header@" + n, hf.full, str(x)[:200])
    # counts checked by the reader
    for e2 in hr.events:
        if e2.kind == "raise" and e2.name == "assert" and e2.args:
            a = e2.args[0]
            try:
                k, x = tokval(line_of(a)[0])
                c = [y for y in walk(a) if is_const(y) and isinstance(y.args[0], int)]
                b = fold(subst(a, {y: x for y in walk(a) if y.op == "call" and y.args[0] == "builtins.int"}))
                ctx.req(b is True, "header@count", e2.where(), "numbers of tags expected by the reader: " + show(a, 5)) if b is not None else ctx.und("header@count", e2.where(), show(a, 4))
            except Unk as x:
                ctx.und("header@count", e2.where(), str(x)[:100])
    # end of a section
    ends = [x for x in wr if len(x.loops) == 1 and x.loops[0][0] is i and x.seq > e.seq]
    try:
        fin = [text_of(l[0]) for x in ends for l in lines(write_text(x)) if l]
        if not any(q and q.startswith("$") for q in fin):
            ctx.bad("end@section", at, "a section of data is not ended: the reader takes the end of the file for a row of data")
        else:
            q = [q for q in fin if q and q.startswith("$")][0]
            mu, m0 = mode_of(r, "$ElementData")
            mu1, m1 = mode_of(r, q, "$ElementData")
            ctx.req(mu is mu1 and m0 is not m1, "end@section", f.full, "lines after %s are not read as data" % q)
    except Unk as x:
        ctx.und("end@section", at, str(x)[:200])
    # all fields, all rows
    ctx.req(not [c for c, p in conds(e) if not (contains(c, vals) and contains(c, lambda y: y.op in ("dim", "attr") and y.args[0] is not FD))], "all@rows", e.where(), "every row is written")
    st = [x for x in evs if x.kind == "setitem" and contains(with_file(x.recv), lambda y: y.op == "attr" and y.args[1] == "element_data" or "element_data" in (show(y, 2) if y.op == "mu" else "")) and "current" not in show(x.recv, 2)]
    blank = [x for x in st if with_file(x.args[1]).op == "dict" and not with_file(x.args[1]).args and not [c for c, p in conds(x) if contains(c, lambda y: y.op == "cmp" and y.args[0] in ("in", "not in", "notin") and contains(y.args[2], lambda z: z.op in ("attr", "mu") and "element_data" in show(z, 3)))]]
    for x in blank[:1]:
        if x.recv is not None and (x.recv.op in ("attr", "mu", "fold")):
            ctx.bad("stored@field", x.where(), "times of the field read before are dropped by a further section")
    st = [x for x in st if not (with_file(x.args[1]).op == "dict" and not with_file(x.args[1]).args)]
    for x in st[:1]:
        a = [with_file(y) for y in x.args]
        val = a[1]
        if val.op != "tuple" or len(val.args) != 2:
            ctx.und("stored@field", x.where(), show(val, 4))
            continue
        rows = val.args[1]
        if rows.op in ("mu", "attr"):
            ctx.bad("stored@rows", x.where(), "all sections share the container of rows %s" % show(rows, 3))
        elif rows.op in ("dict", "new") or rows.op == "call" and rows.args[0] == "builtins.dict":
            held = [y for y in r.events if y.kind == "setattr" and y.args and with_file(y.args[-1]) is rows]
            ctx.req(bool(held), "stored@rows", x.where(), "rows of the section are collected into the stored container") if held else ctx.und("stored@rows", x.where(), show(rows, 3))
        else:
            ctx.und("stored@rows", x.where(), show(rows, 3))
        for part, t, w in (("time", val.args[0], v.args[1]), ("step", a[0], v.args[2])):
            o1 = {occ_no(y) for y in walk(t) if y.op == "occ"}
            o2 = {occ_no(y) + 1 for y in walk(w) if y.op == "occ"}
            if len(o1) != 1 or len(o2) != 1:
                if not o1 and not from_file(t):
                    ctx.bad("stored@" + part, x.where(), "%s under which values are stored: %s" % (part, show(t, 3)))
                else:
                    ctx.und("stored@" + part, x.where(), show(t, 3))
            else:
                ctx.req(o1 == o2, "stored@" + part, x.where(), "%s of the header: line %s, stored from line %s" % (part, o2, o1))


def occ_no(y):
    return y.args[1] if isinstance(y.args[1], int) else y.args[1].args[0]


def strip_conv(p):
    if isinstance(p, T):
        return conv(plain(p))
    return p


@prop("G01", "")
def g01_kept(ctx):
    """what has been read is not reduced afterwards"""
    f = ctx.method(CLS, "read")
    r = ctx.run_method(CLS, "read")
    for k in ("nodes", "elements", "physical", "element_data"):
        bad = None
        for e in r.events:
            if e.kind == "setattr" and e.name == k and e.recv is SELF and e.args:
                for x in walk(e.args[-1]):
                    if x.op == "fstore" and x.args[0].op == "dict" and x.args[-1] is not TRUE and contains(x.args[4], lambda y: y.op == "fold" or y.op == "attr" and y.args[1] == k):
                        bad = bad or e
            elif (e.kind == "delitem" or e.kind == "call" and last(e.name) in ("pop", "popitem", "clear", "__delitem__")) and e.recv is not None and (e.recv is attr(SELF, k) or e.recv.op in ("fold", "mu") and ("self.%s'" % k) in show(e.recv, 3)):
                bad = bad or e
        ctx.req(bad is None, "kept@" + k, bad.where() if bad is not None else f.full, "everything read is kept")


@prop("G01", "")
def g01_close(ctx):
    """a file opened by the writer is closed, so that the mesh is complete on the disk"""
    for m in ("write_ascii", "write_fields", "read"):
        f = ctx.method(CLS, m)
        r = ctx.run_method(CLS, m)
        op = [e for e in r.events if e.kind == "call" and e.name == "builtins.open"]
        for e in op:
            if m != "read":
                md = e.args[1] if len(e.args) > 1 else kwget(e, "mode")
                if md is not None and is_const(md):
                    ctx.req(str(md.args[0]).replace("t", "") in ("w", "w+", "x"), "mode@" + m, e.where(), "file is written anew: mode %s" % show(md))
            if m == "write_fields" and conds(e):
                continue
            cl = [x for x in r.events if x.kind in ("exit",) and x.recv is e.result or x.kind == "call" and last(x.name) == "close" and x.recv is not None and contains(x.recv, e.result)]
            ok = [x for x in cl if x.kind == "exit" or not [c for c in conds(x) if c not in conds(e)]]
            ctx.req(bool(ok), "close@" + m, e.where(), "opened file is closed")
