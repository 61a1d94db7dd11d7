"""Estimators: multilevel mean and variance, sample masking, allocation of samples, moment and covariance quantities."""
from .registry import prop
from .common import *
from sa.ixform import Ix, Arr, Unk, ONE, SizeErr
from sa.repo import Func
from .r_pbs import atoms as split_conds

QE = "mlmc.quantity.quantity_estimate"
WE = "mlmc/quantity/quantity_estimate.py:"
QM = "mlmc.quantity.quantity.QuantityMean"
WM = "mlmc/quantity/quantity.py:QuantityMean."
SLF = sym("self")
M, N, P, L, R = (sym("#" + x) for x in "MNPLR")


def arr(name, *dims):
    return Arr(dims, lambda ix: mk("el", name, *ix))


def run_func(ctx, full, **kw):
    return ctx.run(ctx.prog.func(full), **kw)


def nonraise_conds(r, e):
    """conditions of e other than 'an assertion / raise did not happen'"""
    out = []
    negs = set()
    for x in r.events:
        if x.kind == "raise":
            cs = conds(x)
            if cs:
                negs.add((cs[-1][0], not cs[-1][1]))
    return [(c, p) for c, p in conds(e) if (c, p) not in negs and c.op != "exc"]


class Accum:
    """per-level accumulators of the chunk loop of estimate_mean"""

    def __init__(self, ctx):
        self.r = r = run_func(ctx, QE + ".estimate_mean")
        self.w = WE + "estimate_mean"
        self.samp = [e for e in r.events if e.kind == "call" and last(e.name) == "samples" and e.loops]
        if len(self.samp) != 1:
            raise Unk("the samples of a chunk are not obtained at one place")
        e = self.samp[0]
        self.S = e.result
        self.K = e.args[0]
        self.lev = attr(self.K, "level_id")
        self.slots = []           # (event, mus, increment)
        for x in r.events:
            if x.kind != "setitem" or not x.loops or x.loops[0][2] != e.loops[0][2] or len(x.args) != 2:
                continue
            k, v = x.args
            full = k
            if k.op == "tuple" and k.args[0] is self.lev and all(y is mk("slice", NONE, NONE, NONE) or is_const(y, Ellipsis) for y in k.args[1:]):
                k = self.lev              # the whole row of the level
            if k is not self.lev:
                if contains(k, self.K):
                    raise Unk("accumulator index %s" % show(k))
                continue
            old = sub(x.recv, full)
            inc = None
            if v.op == "bin" and v.args[0] == "+":
                for a, b in ((v.args[1], v.args[2]), (v.args[2], v.args[1])):
                    if a is old:
                        inc = b
            mus = {y.args[0] for g, l in leaves_ite(x.recv) for y in walk(l) if y.op == "mu"}
            names = {str(m).split("c:")[-1] for m in mus}
            self.slots.append((x, names, inc, v))

    def ix(self, level0):
        dims = (M, N, ONE if level0 else const(2))
        return Ix({self.S: arr("S", *dims)})

    def lv(self, t, level0):
        """t with the level fixed to zero / to something else"""
        m = {}
        for y in walk(t):
            if y.op == "cmp" and self.lev in y.args[1:] and any(is_const(z) for z in y.args[1:]):
                o = y.args[0]
                v = const(0) if level0 else const(7)
                w = subst(y, {self.lev: v})
                if w.op == "const":
                    m[y] = w
        return subst(t, m) if m else t

    def expected(self, level0):
        ix = self.ix(level0)
        S = self.S
        SL = mk("slice", NONE, NONE, NONE)
        mask = mk("call", "numpy.any", mk("call", "numpy.isnan", S), mk("kw", "axis", tup(const(0), const(2))))
        C = mk("sub", S, tup(SL, mk("un", "~", mask)))
        fine = mk("sub", C, tup(SL, SL, const(0)))
        d = fine if level0 else mk("bin", "-", fine, mk("sub", C, tup(SL, SL, const(1))))
        ax = mk("kw", "axis", const(1))
        return {"S1": ix.ev(mk("call", "numpy.sum", d, ax)), "S2": ix.ev(mk("call", "numpy.sum", mk("bin", "**", d, const(2)), ax)),
                "N": ix.ev(mk("sub", mk("attr", C, "shape"), const(1))), "RM": ix.ev(mk("call", "numpy.count_nonzero", mask))}


def classify(acc, inc):
    """roles the increment has on level 0 and on other levels; raises Unk outside the fragment"""
    out = []
    shown = []
    for l0 in (True, False):
        ix = acc.ix(l0)
        x = ix.ev(acc.lv(inc, l0))
        exp = acc.expected(l0)
        hit = {k for k, v in exp.items() if x.rank == v.rank and ix.same(x, v)[0]}
        out.append(hit)
        shown.append(show(ix.element(x, *[mk("ix", i) for i in range(x.rank)]), 8))
    return out[0] & out[1], out, shown


def accumulators(ctx):
    acc = Accum(ctx)
    acc.roles = {}
    acc.info = {}
    for e, names, inc, v in acc.slots:
        if inc is None:
            acc.info[frozenset(names)] = (e, None, "not additive: %s" % show(v))
            continue
        try:
            both, each_, shown = classify(acc, inc)
        except Unk as u:
            acc.info[frozenset(names)] = (e, None, "outside the fragment (%s)" % u)
            continue
        acc.info[frozenset(names)] = (e, each_, "level 0: %s; others: %s" % tuple(shown))
        if both:
            for n_ in names:
                acc.roles[n_] = (sorted(both)[0], e)
    return acc


def is_acc(y):
    return y.op == "fold" or y.op == "fstore" and len(y.args) > 4 and y.args[4].op == "accum"


def fstore_role(acc, y):
    """(role or None, event, each, text) of an accumulator kept as a whole list; None when not recognised"""
    base, idx, dom, k, a, g = y.args
    e = acc.samp[0]
    if g.op == "cmp" and (g.args[0] in ("!=", ">") and is_const(g.args[2], 0) and g.args[1] is a.args[0] or g.args[0] in ("!=", "<") and is_const(g.args[1], 0) and g.args[2] is a.args[0]):
        g = TRUE                          # only when there is something to add
    if k is not acc.lev or g is not TRUE or idx is not e.loops[0][0] or zero_start(base) is False:
        return None
    try:
        both, each_, shown = classify(acc, a.args[0])
    except Unk as u:
        return None, e, None, "outside the fragment (%s)" % u
    return (sorted(both)[0] if both else None), e, each_, "level 0: %s; others: %s" % tuple(shown)


def zero_item(x):
    """does the start value of one level mean zero: True / False / None (not known)"""
    if x.op == "const":
        return isinstance(x.args[0], (int, float)) and x.args[0] == 0
    if x.op == "call" and x.args[0] in ("numpy.zeros", "numpy.zeros_like"):
        return True
    if x.op == "call" and x.args[0] in ("numpy.ones", "numpy.ones_like", "numpy.empty"):
        return False
    return None


def zero_start(b):
    """start value of a per-level accumulator: True zero, False wrong, None unknown"""
    if b.op == "bin" and b.args[0] == "*":
        for x in b.args[1:]:
            if x.op == "list" and len(x.args) == 1:
                z = zero_item(x.args[0])
                return False if z and x.args[0].op != "const" else z       # one array shared by all levels
        return None
    if b.op == "list" and b.args:
        z = [zero_item(x) for x in b.args]
        return False if False in z else None if None in z else True
    if b.op == "cat" and len(b.args) == 1 and b.args[0].op == "each":
        p = b.args[0].args[2]
        return zero_item(p.args[0]) if p.op == "list" and len(p.args) == 1 else None
    return zero_item(b) if b.op == "call" else None


def starts(ctx, acc, terms):
    """every accumulator starts from zero on every level, with storage of its own"""
    for x, names, inc, v in acc.slots:
        cand = [l for g, l in leaves_ite(x.recv) if l.op != "mu"]
        for t in terms:
            for y in walk(t):
                if y.op == "fold" and str(y.args[1].args[0]).split("c:")[-1] in names and y.args[0] is not NONE:
                    cand += [l for g, l in leaves_ite(y.args[0])]
                if y.op == "fstore" and y.args[3] is acc.lev and y.args[4].op == "accum" and y.args[4].args[0] is inc:
                    cand += [l for g, l in leaves_ite(y.args[0])]
        for c in cand:
            c = acc.r.eng.deref(c, acc.r.state) if c.op == "obj" else c
            z = zero_start(c)
            if z is None:
                ctx.und("mean@start", x.where(), "start value %s" % show(c))
            else:
                ctx.req(z, "mean@start", x.where(), "a per-level sum must start from zero, one storage per level; found %s" % show(c))


def role_of(acc, fold):
    if fold.op == "fstore":
        x = fstore_role(acc, fold)
        return (x[0], x[1]) if x and x[0] else None
    m = fold.args[1]
    n = str(m.args[0]).split("c:")[-1]
    for k in acc.roles:
        if k == n:
            return acc.roles[k]
    return None


def info_of(acc, fold):
    if fold.op == "fstore":
        x = fstore_role(acc, fold)
        return x[1:] if x else None
    n = str(fold.args[1].args[0]).split("c:")[-1]
    for k, v in acc.info.items():
        if n in k:
            return v
    return None


@prop("E01", "Array denotation (axes + element function, rational normal form) of the per-level accumulators and of the returned level means and variances of estimate_mean and QuantityMean: "
      "compared with sum(fine) on level 0, sum(fine - coarse) elsewhere, mean = sum_l s_l/n_l, l_var = (q_l - s_l^2/n_l)/(n_l - 1), var = sum_l l_var_l/n_l.",
      ["chunks hold samples as [component, sample, fine/coarse]", "floating point is treated as real arithmetic"])
def e01(ctx):
    try:
        acc = accumulators(ctx)
    except Unk as u:
        ctx.und("mean@loop", WE + "estimate_mean", u)
        quantity_mean(ctx)
        return
    r = acc.r
    qm = [e for e in r.events if e.kind == "new" and e.name.endswith("QuantityMean")]
    if not qm:
        ctx.und("mean@result", acc.w, "no QuantityMean is built here")
        return
    e = qm[-1]
    kw = e.kw or {}
    # every chunk contributes
    nz = []
    for x, names, inc, v in acc.slots:
        bad = []
        for c, p in split_conds(nonraise_conds(r, x)):
            if not contains(c, acc.S) and not contains(c, acc.K):
                continue
            if count_guard(acc, c, p):
                continue
            if acc.lev in (c.args[1:] if c.op == "cmp" else ()):
                continue
            bad.append(c)
        ctx.req(not bad, "mean@every-chunk", x.where(), "chunks are skipped under %s" % [show(c) for c in bad])
    dom = acc.samp[0].loops[0][1]
    for b in r.events:
        if b.kind == "break" and b.loops and b.loops[0][2] == acc.samp[0].loops[0][2] and len(b.loops) == 1:
            cs = [c for c, p in split_conds(nonraise_conds(r, b)) if contains(c, acc.S)]
            if cs:
                ctx.bad("mean@every-chunk", b.where(), "reading ends at a chunk whose samples satisfy %s; the following chunks are lost" % show(cs[0], 5))
    ctx.req(contains(dom, lambda y: y.op == "call" and last(y.args[0]) == "chunks"), "mean@all-chunks", acc.w, "all chunks of all levels are visited: %s" % show(dom))
    for y in walk(dom):
        if y.op == "call" and last(y.args[0]) == "chunks":
            ctx.req(len(y.args) == 2, "mean@all-levels", acc.w, "chunks of every level are visited: %s" % show(y))
    # level means and variances in terms of the accumulators
    want = {"S1": sym("$S1"), "S2": sym("$S2"), "N": sym("$N"), "RM": sym("$RM")}
    level_term(ctx, acc, kw.get("l_means"), "l_means", binop("/", want["S1"], want["N"]), want)
    n = want["N"]
    var = binop("/", binop("-", want["S2"], binop("/", binop("**", want["S1"], const(2)), n)), binop("-", n, const(1)))
    level_term(ctx, acc, kw.get("l_vars"), "l_vars", var, want)
    counts(ctx, acc, kw.get("n_samples"), "n_samples", "N")
    starts(ctx, acc, [kw[k] for k in ("l_means", "l_vars", "n_samples", "n_rm_samples") if k in kw])
    quantity_mean(ctx)


def count_guard(acc, c, p):
    """the condition can fail only for a chunk without usable samples"""
    try:
        ix = acc.ix(False)
        n = acc.expected(False)["N"].fn([])
        x = ix.ev(acc.lv(c, False))
        if x.rank:
            return False
        t = x.fn([])
    except Unk:
        return None
    nn = Norm()
    t = nn(t)
    for k in (1, 2, 5):
        v = subst_count(t, nn(n), k)
        if v is None or v.op != "const" or bool(v.args[0]) != p:
            return False
    return True


def subst_count(t, n, k):
    """value of a condition on the number n of usable samples"""
    if t.op == "cmp":
        o, a, b = t.args
        ra, rb = [const(k) if x is n else x for x in (a, b)]
        if ra.op == "const" and rb.op == "const":
            return cmpop(o, ra, rb)
    if t.op == "not":
        v = subst_count(t.args[0], n, k)
        return None if v is None else neg(v)
    if t is n:
        return const(bool(k))
    return None


def level_term(ctx, acc, t, nm, want, syms):
    w = acc.w
    if t is None:
        ctx.bad("mean@%s" % nm, w, "%s is not passed" % nm)
        return
    ix = Ix()
    unknown = []
    wrong = []

    def hook(y):
        if is_acc(y):
            ro = role_of(acc, y)
            if ro is None:
                inf = info_of(acc, y)
                if inf is None:
                    raise Unk("value %s" % show(y, 3))
                (wrong if inf[1] is not None else unknown).append(inf)
                raise Unk(inf[2])
            s = syms[ro[0]]
            if ro[0] in ("S1", "S2"):
                return Arr((L, M), lambda i: mk("el", s, *i))
            return Arr((L,), lambda i: mk("el", s, *i))
        return None
    ix.hook = hook
    try:
        x = ix.ev(t)
    except Unk as u:
        if wrong:
            ctx.bad("mean@%s" % nm, wrong[0][0].where(), "the accumulated quantity is neither the sum nor the sum of squares of fine (level 0) / fine - coarse (other levels) nor the sample count: %s" % wrong[0][2])
        else:
            ctx.und("mean@%s" % nm, w, u)
        return
    l, m = mk("ix", 0), mk("ix", 1)
    el = x.fn([l, m][:x.rank]) if x.rank <= 2 else None
    if el is None or x.rank == 0:
        ctx.und("mean@%s" % nm, w, "rank %d" % x.rank)
        return
    if x.rank == 1:
        # rows replaced by a vector (np.full(len(s), inf)): cannot happen with Arr rows
        ctx.und("mean@%s" % nm, w, "one value per level")
        return
    mp = {mk("el", syms["S1"], l, m): syms["S1"], mk("el", syms["S2"], l, m): syms["S2"], mk("el", syms["N"], l): syms["N"], mk("el", syms["RM"], l): syms["RM"]}
    el = subst(el, mp)
    bad_ix = [y for y in walk(el) if y.op == "el"]
    for k in (2, 3, 10):
        leaf = branch_at(el, syms["N"], k)
        if leaf is None:
            ctx.und("mean@%s" % nm, w, "case %d not decided: %s" % (k, show(el)))
            return
        ok = Norm().equal(leaf, want)
        if not ctx.req(ok, "mean@%s" % nm, w, "for %d samples %s must be %s; found %s" % (k, nm, show(want), show(Norm()(leaf)))):
            return
    if nm == "l_vars":
        leaf = branch_at(el, syms["N"], 1)
        if leaf is not None:
            inf_ = contains(leaf, lambda y: y.op == "ext" and y.args[0] in ("numpy.inf",) or y.op == "const" and y.args[0] == float("inf")) or not Norm().equal(leaf, const(0)) and contains(leaf, lambda y: y.op == "ext" and "nan" in y.args[0])
            ctx.req(inf_, "mean@single-sample", w, "the variance from a single sample is unknown (infinite), not %s" % show(leaf))


def branch_at(t, n, k):
    if t.op == "ite":
        c = subst(t.args[0], {n: const(k)})
        if c.op != "const":
            return None
        return branch_at(t.args[1] if c.args[0] else t.args[2], n, k)
    return t


def overwritten(t):
    """the element of a level is replaced in every pass over the chunks by a value of that chunk alone"""
    if t.op != "fstore" or len(t.args) < 6 or not is_const(t.args[5], True):
        return None
    base, i, n, k, v = t.args[:5]
    if not ("level_id" in show(k, 6)) or not contains(v, lambda y: y is i):
        return None
    if contains(v, lambda y: y.op in ("mu", "accum", "fold", "prev")) or ".chunks(" not in show(n, 9):
        return None
    return "the count of a chunk replaces that of the chunks before: %s" % show(v, 6)


def counts(ctx, acc, t, nm, role):
    w = acc.w
    if t is None:
        ctx.bad("mean@%s" % nm, w, "%s is not passed" % nm)
        return
    while t.op == "call" and t.args[0] in ("numpy.array", "builtins.list", "numpy.asarray") and len(t.args) == 2:
        t = t.args[1]
    over = overwritten(t)
    if over:
        ctx.bad("mean@%s" % nm, w, "%s must add the counts of all chunks of the level; %s" % (nm, over))
        return
    if not is_acc(t):
        ctx.und("mean@%s" % nm, w, show(t))
        return
    ro = role_of(acc, t)
    if ro is None:
        inf = info_of(acc, t)
        if inf is not None and inf[1] is not None:
            ctx.bad("mean@%s" % nm, inf[0].where(), "%s must count the %s samples of the level: %s" % (nm, "used" if role == "N" else "removed", inf[2]))
        else:
            ctx.und("mean@%s" % nm, w, "not resolved")
        return
    ctx.req(ro[0] == role, "mean@%s" % nm, ro[1].where(), "%s must count the %s samples of the level" % (nm, "used" if role == "N" else "removed"))


def quantity_mean(ctx):
    ri = ctx.run_method(QM, "__init__")
    wi = WM + "__init__"
    for p in ("l_means", "l_vars", "n_samples", "n_rm_samples"):
        t = ri.field(SLF, "_" + p)
        if t is None:
            ctx.und("total@field-%s" % p, wi, "stored elsewhere")
            continue
        ctx.req(contains(t, sym(p)) and not contains(t, lambda y: y.op == "sym" and y is not sym(p) and y is not SLF), "total@field-%s" % p, wi, "_%s = %s" % (p, show(t)))
    A = {attr(SLF, "_l_means"): arr("lm", L, M), attr(SLF, "_l_vars"): arr("lv", L, M), attr(SLF, "_n_samples"): arr("n", L), attr(SLF, "_n_rm_samples"): arr("rm", L)}
    exp = {"mean": mk("call", "numpy.sum", attr(SLF, "_l_means"), mk("kw", "axis", const(0))),
           "var": mk("call", "numpy.sum", mk("bin", "/", attr(SLF, "_l_vars"), mk("sub", attr(SLF, "_n_samples"), tup(mk("slice", NONE, NONE, NONE), NONE))), mk("kw", "axis", const(0)))}
    for p in ("mean", "var"):
        r = ctx.run_method(QM, p)
        w = WM + p
        t = r.eng.deref(r.value, r.state)
        t = unreshape(t)
        for g, x in leaves_ite(t):
            if x is attr(SLF, "_" + p):
                # cached value: stored by the same computation
                continue
            try:
                ix = Ix(dict(A))
                ix.atoms.update({attr(SLF, "_" + q): Ix(A).ev(z) for q, z in exp.items()})     # cached values, judged below
                ok, a, b = ix.same(x, exp[p])
                ctx.req(ok, "total@%s" % p, w, "%s must be %s; found %s" % (p, b, a))
            except Unk as u:
                ctx.und("total@%s" % p, w, u)
        # whatever is cached under the name is the same
        for e in r.events:
            if e.kind == "setattr" and e.name in ("_mean", "_var"):
                try:
                    ok, a, b = Ix(A).same(e.args[0], exp[e.name[1:]])
                    ctx.req(ok, "total@cached%s" % e.name, e.where(), "%s must be %s; found %s" % (e.name, b, a))
                except Unk as u:
                    ctx.und("total@cached%s" % e.name, e.where(), u)
    for p, src in (("l_means", "_l_means"), ("l_vars", "_l_vars"), ("n_samples", "_n_samples"), ("n_rm_samples", "_n_rm_samples")):
        r = ctx.run_method(QM, p)
        t = r.eng.deref(r.value, r.state)
        fs = {y.args[1] for y in walk(t) if y.op == "attr" and y.args[0] is SLF and y.args[1] in ("_l_means", "_l_vars", "_n_samples", "_n_rm_samples", "_mean", "_var")}
        ctx.req(fs == {src}, "total@%s" % p, WM + p, "%s returns %s" % (p, sorted(fs)))


def unreshape(t):
    while t.op == "call" and (t.args[0] == "numpy.reshape" or last(t.args[0]) == "reshape") and len(t.args) >= 3:
        t = t.args[2] if t.args[0] == "numpy.reshape" and contains(t.args[1], lambda y: y.op == "attr" and y.args[1] == "qtype") else t.args[1] if t.args[0] == "numpy.reshape" else t.args[-1]
    return t


@prop("E02", "Array denotation of the sample mask: a sample is dropped iff any component of its fine or coarse part is NaN; fine and coarse parts are cut by the same mask; "
      "used and removed samples are counted per level from that mask.",
      ["chunks hold samples as [component, sample, fine/coarse]"])
def e02(ctx):
    r = run_func(ctx, QE + ".mask_nan_samples")
    w = WE + "mask_nan_samples"
    C = sym(ctx.prog.func(QE + ".mask_nan_samples").params()[0])
    v = r.eng.deref(r.value, r.state)
    if v.op != "tuple" or len(v.args) != 2:
        ctx.und("mask@result", w, show(v))
    else:
        for nm, P_ in (("coupled", const(2)), ("level0", ONE)):
            ix = Ix({C: arr("S", M, N, P_)})
            mask = mk("call", "numpy.any", mk("call", "numpy.isnan", C), mk("kw", "axis", tup(const(0), const(2))))
            want = mk("sub", C, tup(mk("slice", NONE, NONE, NONE), mk("un", "~", mask)))
            for key, got, exp in (("kept", v.args[0], want), ("removed", v.args[1], mk("call", "numpy.count_nonzero", mask))):
                try:
                    ok, a, b = ix.same(got, exp)
                    if ok or key == "removed":
                        ctx.req(ok, "mask@%s-%s" % (key, nm), w, "%s must be %s; found %s" % (key, b, a))
                    else:
                        x, y = ix.ev(got), ix.ev(exp)
                        ctx.bad("mask@%s-%s" % (key, nm), w, "axes %s expected %s; element %s expected %s" % ([show(d, 9) for d in x.dims], [show(d, 9) for d in y.dims], a, b))
                except Unk as u:
                    ctx.und("mask@%s-%s" % (key, nm), w, u)
    try:
        acc = accumulators(ctx)
    except Unk as u:
        ctx.und("mask@used", WE + "estimate_mean", u)
        return
    qm = [e for e in acc.r.events if e.kind == "new" and e.name.endswith("QuantityMean")]
    if not qm:
        ctx.und("mask@used", acc.w, "no QuantityMean is built here")
        return
    kw = qm[-1].kw or {}
    counts(ctx, acc, kw.get("n_samples"), "n_samples", "N")
    counts(ctx, acc, kw.get("n_rm_samples"), "n_rm_samples", "RM")
    # sums use the masked chunk
    for x, names, inc, v_ in acc.slots:
        key = frozenset(names)
        e, each_, txt = acc.info.get(key, (None, None, ""))
        if e is None:
            continue
        if each_ is None:
            ctx.und("mask@accumulated", e.where(), txt)
        else:
            ctx.req(bool(each_[0] and each_[1]), "mask@accumulated", e.where(), "accumulated values must come from the kept samples only: %s" % txt)
    # nothing of an earlier estimate survives in the caches
    cc = [e for e in acc.r.events if e.kind == "call" and last(e.name) == "cache_clear"]
    first = acc.samp[0].seq
    ctx.req(len(cc) >= 2 and all(e.seq < first and not conds(e) for e in cc), "mask@fresh", acc.w, "cached chunks of earlier estimates must be dropped before reading samples")


@prop("E03", "Array denotation of the sample allocation: element (level) of the result is the maximum over moments of max(2, min(round(sqrt(V/C) * sum_l sqrt(V C) / target), V L / target)), "
      "compared in rational normal form with square roots of positive quantities halved.",
      ["variances and costs are positive", "floating point is treated as real arithmetic"])
def e03(ctx):
    f = ctx.prog.func("mlmc.estimator.estimate_n_samples_for_target_variance")
    r = ctx.run(f)
    w = "mlmc/estimator.py:estimate_n_samples_for_target_variance"
    tv, pv, no, nl = [sym(p) for p in f.params()[:4]]
    t = r.eng.deref(r.value, r.state)
    sq = lambda n_: (lambda ix: binop("**", mk("el", n_, *ix), const(2)))
    A = {pv: Arr((L, R), sq("rV")), no: Arr((L,), sq("rC")), tv: Arr((), lambda ix: sym("target")), nl: Arr((), lambda ix: L)}
    T_ = lambda x: mk("attr", x, "T")
    root = mk("call", "numpy.sqrt", mk("bin", "*", T_(pv), no))
    tot = mk("call", "numpy.sum", root, mk("kw", "axis", const(1)))
    est = mk("call", ".astype", mk("call", "numpy.round", mk("bin", "/", mk("bin", "*", T_(mk("bin", "/", root, no)), tot), tv)), mk("ext", "builtins.int"))
    cap = mk("bin", "/", mk("bin", "*", pv, nl), tv)
    want = mk("call", ".astype", mk("call", "numpy.max", mk("call", "numpy.maximum", mk("call", "numpy.minimum", est, cap), const(2)), mk("kw", "axis", const(1))), mk("ext", "builtins.int"))
    # values already in order: sorting changes nothing
    srt = {y: y.args[1] for y in walk(t) if y.op == "call" and y.args[0] == "numpy.sort" and len(y.args) > 1}
    t0 = subst(t, srt) if srt else t
    try:
        ok, a, b = Ix(A).same(t0, want)
        if ok and srt:
            raise Unk("sorted values")
        ctx.req(ok, "allocation@formula", w, "must be %s; found %s" % (b, a))
    except Unk as u:
        # parts of the levels: decide for given numbers of levels
        hit = None
        for n in (1, 3, 17):
            k = const(n)
            B = {pv: Arr((k, R), sq("rV")), no: Arr((k,), sq("rC")), tv: A[tv], nl: Arr((), lambda ix, k=k: k)}
            try:
                ok, a, b = Ix(B).same(t0, want)
            except Unk:
                continue
            if not ok:
                hit = (n, a, b)
        if hit:
            ctx.bad("allocation@formula", w, "with %d levels must be %s; found %s" % (hit[0], hit[2], hit[1]))
        else:
            ctx.und("allocation@formula", w, u)
    # level parameters: geometric interpolation, identical in both helpers
    for nm in ("calc_level_params", "determine_level_parameters"):
        try:
            fn = ctx.prog.func("mlmc.estimator." + nm)
        except AnchorError:
            continue
        w = "mlmc/estimator.py:" + nm
        sr = sym("step_range")
        a0, a1 = sub(sr, const(0)), sub(sr, const(1))
        for nn in (1, 2, 3, 5):
            rr = ctx.run(fn, args={"n_levels": const(nn)}, unroll=nn)
            t = rr.eng.deref(rr.value, rr.state)
            while t.op == "call" and t.args[0] in ("builtins.list", "builtins.tuple") and len(t.args) == 2:
                t = rr.eng.deref(t.args[1], rr.state)
            if t.op not in ("list", "tuple") or any(x.op == "spread" for x in t.args):
                ctx.und("steps@%s" % nm, w, show(t))
                break
            ctx.req(len(t.args) == nn, "steps@%s-count" % nm, w, "one step per level: %d of %d" % (len(t.args), nn))
            for k, el in enumerate(t.args):
                el = rr.eng.deref(el, rr.state)
                while el.op in ("list", "tuple") and len(el.args) == 1:
                    el = rr.eng.deref(el.args[0], rr.state)
                e1 = k / (nn - 1) if nn > 1 else 1.0
                got = powers(el, (a0, a1))
                if got is None:
                    ctx.und("steps@%s" % nm, w, show(el))
                    break
                ctx.req(abs(got[0] - (1 - e1)) < 1e-12 and abs(got[1] - e1) < 1e-12, "steps@%s" % nm, w,
                        "level %d of %d must use step_range[0]**%g * step_range[1]**%g; found exponents %s" % (k, nn, 1 - e1, e1, got))
    wrappers(ctx)


def powers(t, atoms_):
    """exponents of the atoms in a product of powers"""
    if t in atoms_:
        return tuple(1.0 if t is a else 0.0 for a in atoms_)
    if t.op == "const" and t.args[0] == 1:
        return tuple(0.0 for _ in atoms_)
    if t.op == "bin" and t.args[0] in ("*", "/"):
        a, b = powers(t.args[1], atoms_), powers(t.args[2], atoms_)
        if a is None or b is None:
            return None
        s = 1 if t.args[0] == "*" else -1
        return tuple(x + s * y for x, y in zip(a, b))
    if t.op == "bin" and t.args[0] == "**":
        a = powers(t.args[1], atoms_)
        e = Norm()(t.args[2])
        if a is None or e.op != "const":
            return None
        return tuple(x * float(e.args[0]) for x in a)
    return None


def wrappers(ctx):
    """Estimate.* hand the right parts of the estimate to the caller"""
    E = "mlmc.estimator.Estimate"
    op = {"quantity_estimate.estimate_mean", "estimate_mean", "moments", "covariance"}
    for nm, fn, parts in (("estimate_moments", "moments", ("mean", "var")), ("estimate_covariance", "covariance", ("mean", "var")), ("estimate_diff_vars", "moments", ("l_vars", "n_samples"))):
        r = ctx.run_method(E, nm, opaque={"estimate_mean", "moments", "covariance"})
        w = "mlmc/estimator.py:Estimate." + nm
        v = r.eng.deref(r.value, r.state)
        em = calls(r, "estimate_mean")
        if v.op != "tuple" or len(v.args) != 2 or len(em) != 1:
            ctx.und("wrapper@%s" % nm, w, show(v))
            continue
        X = em[0].result
        for x, p in zip(v.args, parts):
            ctx.req(x is attr(X, p), "wrapper@%s-%s" % (nm, p), w, "must return %s of the estimate; found %s" % (p, show(x)))
        q = calls(r, fn)
        ctx.req(len(q) == 1 and q[0].args and q[0].args[0] is attr(SLF, "_quantity") and contains(em[0].args[0], q[0].result), "wrapper@%s-of" % nm, w, "estimates the %s of the quantity" % fn)
        if q:
            m = q[0].args[1] if len(q[0].args) > 1 else None
            lv = {x for g, x in leaves_ite(m)} if m is not None else set()
            allowed = {sym("moments_fn"), attr(SLF, "_moments_fn")}
            isnone = cmpop("is", sym("moments_fn"), NONE)
            swapped = m is not None and any((isnone, x is sym("moments_fn")) in g for g, x in leaves_ite(m))
            ctx.req(m is not None and lv <= allowed and attr(SLF, "_moments_fn") in lv and contains(m, sym("moments_fn")) and not swapped, "wrapper@%s-basis" % nm, w, "given moment functions are used, those of the estimator if none are given: %s" % (m and show(m)))


@prop("E04", "Array denotation of the operations behind moments() and covariance(): element functions keep component, sample and fine/coarse axes apart, moment r (or product r, s) of the fine part "
      "goes to the fine slot and of the coarse part to the coarse slot; the declared type has the same axis order as the flattened values.",
      ["Moments.eval_all returns [.., r] for input [..]"])
def e04(ctx):
    mfn = sym("moments_fn")
    for nm, flag in (("moments", "mom_at_bottom"), ("covariance", "cov_at_bottom")):
        for bottom in (True, False):
            for level0 in (True, False):
                f = ctx.prog.func(QE + "." + nm)
                r = ctx.run(f, args={flag: const(bottom)}) if True else None
                w = WE + nm
                q = [e for e in r.events if e.kind == "new" and last(e.name) == "Quantity"]
                if len(q) != 1:
                    ctx.und("%s@quantity" % nm, w, "no single Quantity built")
                    continue
                kw = q[0].kw or {}
                opn, ins, ty = kw.get("operation"), kw.get("input_quantities"), kw.get("quantity_type")
                if ins is not None:
                    iv = r.eng.deref(ins, r.state)
                    ctx.req(iv.op == "list" and list(iv.args) == [sym("quantity")], "%s@input" % nm, w, "operates on the quantity: %s" % show(iv))
                X = sym("#x")
                try:
                    res = r.eng.call(opn, [X], {}, r.state, None)
                    res = r.eng.deref(res, r.state)
                except Exception as ex:
                    ctx.und("%s@operation" % nm, w, "operation not resolved: %s" % ex)
                    continue
                P_ = ONE if level0 else const(2)
                key = "%s@%s-%s" % (nm, "bottom" if bottom else "surface", "level0" if level0 else "coupled")
                why = None
                # any number of moments; when that is not decided, one and three moments
                for Rn in (R, ONE, const(3)):
                    if Rn is not R and why is None:
                        break
                    try:
                        problem, shown = layout(nm, res, X, r, P_, Rn, bottom, level0)
                        if problem or Rn is R:
                            ctx.req(not problem, key, w, problem or "", shown)
                            why = None
                            break
                    except Unk as u:
                        if Rn is R:
                            why = u
                if why is not None:
                    ctx.und(key, w, why)
                # declared type
                if ty is not None and not level0:
                    t = ty
                    k = 1 if nm == "moments" else 2
                    shp = tup(*[attr(mfn, "size")] * k)
                    news = [y for y in walk(t) if y.op == "new" and y.args[0].endswith("ArrayType")]
                    if bottom:
                        good = t.op == "call" and last(t.args[0]) == "replace_scalar" and contains(t.args[1], attr(sym("quantity"), "qtype")) and len(news) == 1 and kwget(news[0], "shape") is shp
                    else:
                        good = t.op == "new" and t.args[0].endswith("ArrayType") and kwget(t, "shape") is shp and kwget(t, "qtype") is attr(sym("quantity"), "qtype")
                    ctx.req(good, "%s@type-%s" % (nm, "bottom" if bottom else "surface"), w, "declared type must match the layout: %s" % show(t))


def layout(nm, res, X, r, P_, R, bottom, level0):
    """problem of the layout of the values computed by moments() / covariance() from `R` moments of X, None if there is none"""
    A = {X: arr("x", M, N, P_)}
    ev = None
    for y in walk(res):
        if y.op == "call" and last(y.args[0]) == "eval_all" and y.args[-1] is X:
            A[y] = arr("E", M, N, P_, R)
            ev = y
    if ev is None:
        raise Unk("no eval_all(x): %s" % show(res))
    ix = Ix(A)
    res = fold_shape_tests(r.eng.deref(fold_shape_tests(res, ix), r.state), ix)
    if nm == "moments":
        tr = mk("call", "numpy.transpose", ev, tup(*[const(i) for i in ((0, 3, 1, 2) if bottom else (3, 0, 1, 2))]))
        want = ix.reshape(ix.ev(tr), tup(const(-1), mk("sub", mk("attr", tr, "shape"), const(-2)), mk("sub", mk("attr", tr, "shape"), const(-1))))
    else:
        x = ix.ev(ev)
        dm = (M, R, R) if bottom else (R, R, M)

        def cov(i):
            m_, a, b = (i[0], i[1], i[2]) if bottom else (i[2], i[0], i[1])
            return binop("*", x.fn([m_, i[3], i[4], a]), x.fn([m_, i[3], i[4], b]))
        cube = Arr(dm + (N, P_), cov)
        want = Arr((mk("merged", *dm), N, P_), lambda i: cube.fn([mk("unfl", const(j), const(3), i[0]) for j in range(3)] + i[1:]))
    try:
        got = ix.ev(res)
    except SizeErr as ex:
        return "with %s moments: %s" % (show(R), ex), None
    if got.rank != 3:
        return "rank %d" % got.rank, None
    if Norm()(got.dims[2]) is not P_:
        return "%s parts, expected %s (fine%s)" % (show(got.dims[2]), show(P_), "" if level0 else " and coarse"), None
    for p_ in range(0 if R.op == "const" else 1 if level0 else 2):
        i = [mk("ix", 0), mk("ix", 1), const(p_)]
        a, b = Norm()(got.fn(list(i))), Norm()(want.fn(list(i)))
        if not Norm().equal(a, b):
            return "%s part: expected %s; found %s" % (("fine", "coarse")[p_], show(b), show(a)), None
    if R.op != "const" and got.dims[0] is not want.dims[0]:
        return "flattened axis order %s; expected %s" % (show(got.dims[0]), show(want.dims[0])), None
    return None, "values %s" % show(got.dims[0])


def fold_shape_tests(t, ix):
    """decide tests on known axis lengths"""
    m = {}
    for y in walk(t):
        if y.op == "cmp":
            try:
                x = ix.ev(y)
            except Unk:
                continue
            if x.rank == 0 and x.fn([]).op == "const":
                m[y] = x.fn([])
    return subst(t, m) if m else t


# ------------------------------------------------------------------------------------------------ E05
def not_none(t, name):
    """the value if the named argument was given"""
    m = {}
    for y in walk(t):
        if y.op == "cmp" and y.args[0] in ("is", "isnot", "==", "!=") and set(y.args[1:]) == {sym(name), NONE}:
            m[y] = const(y.args[0] in ("isnot", "!="))
        if y.op == "un" and y.args[0] == "not" and y.args[1] in m:
            m[y] = const(not m[y.args[1]].args[0])
    return subst(t, m) if m else t


def domain(ctx, r, w, tag):
    f = "quantile"
    pc = [e for e in r.events if e.kind == "call" and e.name in ("numpy.percentile", "numpy.nanpercentile", "numpy.quantile", "numpy.nanquantile")]
    if len({e.result for e in pc}) not in (1, 2):
        ctx.und("domain@%s" % tag, w, "%d percentile computations" % len(pc))
        return
    # result of a computation -> numbers of the quantiles it holds (0: lower, 1: upper)
    which, pcs = {}, {e.result: e for e in pc}
    for e in pcs.values():
        scale = const(100) if "percentile" in e.name else ONE
        qs = e.args[1] if len(e.args) > 1 else (e.kw or {}).get("q")
        qs = r.eng.deref(not_none(r.eng.deref(qs, r.state), f), r.state) if qs is not None else None
        q = sym(f)
        if qs is None or len(pcs) == 1 and qs.op not in ("list", "tuple"):
            ctx.und("domain@%s-quantiles" % tag, w, "quantiles %s" % (qs and show(qs)))
            return
        want = [binop("*", scale, q), binop("*", scale, binop("-", ONE, q))]
        if len(pcs) == 1:
            ctx.req(len(qs.args) == 2 and all(Norm().equal(not_none(a, f), b) for a, b in zip(qs.args, want)), "domain@%s-quantiles" % tag, e.where(), "lower and upper quantile must be q and 1 - q; found %s" % show(qs, 8))
            which[e.result] = (0, 1)
        else:
            ks = [k for k, b in enumerate(want) if qs.op not in ("list", "tuple") and Norm().equal(not_none(qs, f), b)]
            if not ctx.req(len(ks) == 1, "domain@%s-quantiles" % tag, e.where(), "lower and upper quantile must be q and 1 - q; found %s" % show(qs, 8)):
                return
            which[e.result] = ks[0]
    for e in pcs.values():
        if not domain_data(ctx, r, w, tag, e):
            return
    # result
    v = r.eng.deref(r.value, r.state)
    if v.op != "tuple" or len(v.args) != 2:
        ctx.und("domain@%s-result" % tag, w, show(v, 4))
        return
    lv = sym("$level")
    elems = {t: Arr((const(2),), lambda j: mk("el", "R", lv, j[0])) if k == (0, 1) else Arr((), lambda j, k=k: mk("el", "R", lv, const(k))) for t, k in which.items()}
    for k, (t, red) in enumerate(zip(v.args, ("min", "max"))):
        ea = {y for y in walk(t) if y.op == "each" and any(contains(y, x) for x in which)}
        ea = {y for y in ea if not any(z is not y and contains(y, z) for z in ea)}
        tops = {}
        for x in ea or which:
            (chain if ea else top)(t, x, tops)
        if len(tops) != 1:
            ctx.und("domain@%s-%s" % (tag, red), w, show(t, 4))
            continue
        X = next(iter(tops))
        R_, A = sym("$R"), sym("$A")
        t2 = subst(t, {X: R_})
        try:
            ix = Ix({R_: arr("R", L, const(2)), A: arr("R", L, const(2))})
            if len(ea) == 1:
                # the list holds something computed from the two quantiles of each level
                idx, _d, part, _g = next(iter(ea)).args
                if part.op == "list" and len(part.args) == 1 and part.args[0] not in which:
                    el = Ix(dict(elems)).ev(part.args[0])
                    ix.atoms[R_] = Arr((L,) + el.dims, lambda j: subst(el.fn(j[1:]), {lv: j[0]}))
            ok, a, b = ix.same(t2, mk("call", "numpy." + red, mk("sub", A, tup(mk("slice", NONE, NONE, NONE), const(k)))))
            ctx.req(ok, "domain@%s-%s" % (tag, red), w, "must be %s; found %s" % (b, a))
        except Unk as u:
            ctx.und("domain@%s-%s" % (tag, red), w, u)


def chain(t, x, out):
    """largest list terms made of the per-iteration list x only"""
    def pure(y):
        return y is x or y.op in ("cat", "amb") and any(isinstance(a, T) and pure(a) for a in y.args)
    if pure(t):
        out[t] = True
        return
    for a in t.args:
        if isinstance(a, T) and contains(a, x):
            chain(a, x, out)


def domain_data(ctx, r, w, tag, pc):
    # data
    sm = [e for e in r.events if e.kind == "call" and last(e.name) == "samples"]
    srcs = [e for e in sm if contains(pc.args[0], e.result)]
    if len(srcs) != 1:
        ctx.und("domain@%s-data" % tag, w, "samples read %d times" % len(srcs))
        return False
    S = srcs[0]
    ix = Ix({S.result: arr("S", ONE, N, const(2))})
    fine = mk("call", "numpy.squeeze", mk("sub", S.result, tup(const(Ellipsis), const(0))))
    ref = mk("sub", fine, mk("un", "~", mk("call", "numpy.isnan", fine)))
    data = pc.args[0]
    if "nan" in pc.name:
        data = mk("sub", mk("call", "numpy.ravel", data), mk("un", "~", mk("call", "numpy.isnan", mk("call", "numpy.ravel", data))))
    try:
        x, y = ix.ev(data), ix.ev(ref)
        same = x.rank == 1 and x.dims[0] is y.dims[0] and ix.norm(x.fn([sym("n")])) is ix.norm(y.fn([sym("n")]))
        ctx.req(same, "domain@%s-data" % tag, pc.where(), "percentiles must be those of the fine samples without NaN; found axes %s element %s" % ([show(d, 7) for d in x.dims], show(x.fn([sym("v%d" % k) for k in range(x.rank)]), 7)))
    except Unk as u:
        ctx.und("domain@%s-data" % tag, pc.where(), u)
    # level
    lp = S.loops[-1] if S.loops else None
    ctx.req(S.recv is sym("quantity"), "domain@%s-quantity" % tag, S.where(), "samples of the given quantity; found %s" % show(S.recv)) if S.recv is not None else None
    ch = [e for e in r.events if e.kind == "call" and last(e.name) == "chunks" and S.args and contains(S.args[0], e.result)]
    if lp is None or len(ch) != 1:
        ctx.und("domain@%s-level" % tag, w, "samples of one chunk per level expected")
        return False
    ch = ch[0]
    kw = dict(ch.kw or {})
    for nm, a in zip(("level_id", "n_samples"), ch.args):
        kw.setdefault(nm, a)
    i = lp[0]
    dom = lp[1]
    dom = dom.args[0] if dom.op == "upto" else dom
    if dom.op == "call" and last(dom.args[0]) == "get_n_levels" or dom.op == "dim" and "get_level_ids" in show(dom, 9):
        ctx.ok("domain@%s-levels" % tag, S.where(), "all levels of the storage")
    elif dom.op in ("const", "bin", "poly"):
        ctx.bad("domain@%s-levels" % tag, S.where(), "all levels of the storage must be used; found %s" % show(dom))
    else:
        ctx.und("domain@%s-levels" % tag, S.where(), show(dom))
    lid = kw.get("level_id")
    ctx.req(lid is i or lid is not None and lid.op == "sub" and lid.args[1] is i, "domain@%s-level" % tag, ch.where(), "samples of level %s must be read; chunks of level %s are" % (show(i), "0 (the first one)" if lid is None else show(lid)))
    ns = kw.get("n_samples")
    ok = ns is not None and ns.op == "sub" and "get_n_collected" in show(ns.args[0]) and (ns.args[1] is i or ns.args[1] is lid)
    if ns is None or not ok:
        if ns is not None and ns.op == "sub" and "get_n_collected" in show(ns.args[0]) or ns is None:
            ctx.bad("domain@%s-all" % tag, ch.where(), "all collected samples of the level must be read; found n_samples=%s" % (ns and show(ns)))
        else:
            ctx.und("domain@%s-all" % tag, ch.where(), show(ns))
    else:
        ctx.ok("domain@%s-all" % tag, ch.where(), "n_samples=%s" % show(ns))
    return True


def top(t, x, out):
    """largest list terms holding x per loop iteration"""
    if t.op in ("cat", "amb", "each", "list") and contains(t, x):
        out[t] = True
        return
    for a in t.args:
        if isinstance(a, T) and contains(a, x):
            top(a, x, out)


def subsample(ctx):
    import ast
    QQ = "mlmc.quantity.quantity.Quantity"
    w = "mlmc/quantity/quantity.py:Quantity.pick_samples"
    f = ctx.method(QQ, "pick_samples")
    r = ctx.run(f)
    C, sp = sym(f.params()[0]), sym(f.params()[1])
    hy = [e for e in r.events if e.kind == "call" and last(e.name) in ("hypergeom", "rvs") and "hypergeom" in (e.name + show(e.recv) if e.recv is not None else e.name)]
    k, n = attr(sp, "k"), attr(sp, "n")
    size_of = lambda a: Ix({C: arr("S", M, N, P)}).sc(a)
    if not hy:
        ctx.und("subsample@size", w, "no hypergeometric number of picked samples")
    else:
        e = hy[0]
        a = list(e.args[:3])
        try:
            ctx.req(len(a) == 3 and a[0] is n and a[1] is k and size_of(a[2]) is N, "subsample@size", e.where(), "number picked from a chunk is hypergeometric in (remaining samples, samples still to pick, chunk size); found %s" % [show(x) for x in a])
        except Unk as u:
            ctx.und("subsample@size", e.where(), u)
    ch = [e for e in r.events if e.kind == "call" and last(e.name) in ("choice", "integers", "randint")]
    v = r.eng.deref(r.value, r.state)
    if len(ch) == 1:
        e = ch[0]
        kw = dict(e.kw or {})
        ax = kw.get("axis")
        if e.args and e.args[0] is C:
            ctx.req(ax is not None and is_const(ax) and ax.args[0] in (1, -2), "subsample@axis", e.where(), "samples (axis 1) are picked, components and fine/coarse stay together; found axis=%s" % (ax and show(ax)))
            ctx.req(v is e.result, "subsample@result", w, "picked samples are returned; found %s" % show(v, 4))
        else:
            # numbers of the picked samples
            K = sym("#K")
            try:
                a0 = Ix({C: arr("S", M, N, P)})
                whole = ints = None
                if last(e.name) != "choice":
                    b = dict(zip(("low", "high", "size"), e.args))
                    b.update(kw)
                    kw = b
                    lo, hi = b.get("low", const(0)), b.get("high", NONE)
                    if hi is NONE:
                        lo, hi = const(0), lo
                    end = b.get("endpoint", FALSE)
                    hi = a0.norm(a0.sc(hi))
                    if end is TRUE:
                        hi = a0.norm(binop("+", hi, const(1)))
                    elif end is not FALSE:
                        raise Unk("endpoint %s" % show(end))
                    whole, ints = is_const(a0.sc(lo), 0) and hi is N, "%s .. %s (exclusive)" % (show(lo, 4), show(hi, 4))
                else:
                    dom = a0.ev(e.args[0])
                    whole = dom.dims == () and a0.sc(e.args[0]) is N or len(dom.dims) == 1 and dom.dims[0] is N and dom.fn((sym("$i"),)) is sym("$i")
                ctx.req(whole, "subsample@axis", e.where(), "numbers of all samples of the chunk are candidates; found %s" % (ints or show(e.args[0], 4)))
                got = Ix({C: arr("S", M, N, P), e.result: arr("I", K)})
                ok, x, y = got.same(v, mk("sub", C, mk("tuple", mk("slice", NONE, NONE, NONE), e.result)))
                ctx.req(ok, "subsample@result", w, "picked samples are returned: %s expected; found %s" % (y, x))
            except Unk as u:
                ctx.und("subsample@result", w, u)
        picked = {mk("sub", attr(v, "shape"), const(1)), mk("sub", attr(v, "shape"), const(-2)),
                  mk("sub", attr(e.result, "shape"), const(1)), mk("sub", attr(e.result, "shape"), const(-2))}
        sz = kw.get("size")
        if sz is not None:
            picked |= {sz, mk("sub", sz, const(0)), mk("call", "builtins.int", sz), mk("call", "builtins.int", mk("sub", sz, const(0)))}
        kk = r.state.heap.get(("f", sp, "k"))
        nn = r.state.heap.get(("f", sp, "n"))
        ctx.req(kk is not None and any(Norm().equal(kk, binop("-", k, x)) for x in picked), "subsample@k", w, "samples still to pick decrease by the number picked; found k = %s" % (show(kk, 6) if kk is not None else "unchanged"))
        ok = False
        if nn is not None:
            try:
                ok = any(Norm().equal(nn, binop("-", n, x)) for x in (mk("sub", attr(C, "shape"), const(1)), mk("sub", attr(C, "shape"), const(-2))))
            except Unk:
                pass
        ctx.req(ok, "subsample@n", w, "remaining samples decrease by the size of the chunk; found n = %s" % (show(nn, 6) if nn is not None else "unchanged"))
    else:
        mixed = [e for e in r.events if e.kind == "call" and last(e.name) == "permuted" and e.args and e.args[0] is C]
        if mixed:
            ctx.bad("subsample@axis", mixed[0].where(), "permuted() permutes every component and the fine/coarse values independently, values of different samples are combined")
        else:
            ctx.und("subsample@axis", w, "no single choice of samples")
    # parameters per level, reset only at the first chunk of the level
    w = "mlmc/quantity/quantity.py:Quantity.subsample"
    f = ctx.method(QQ, "subsample")
    r = ctx.run(f, ctx.prog.cls(QQ), opaque={"wrap", "get_quantity_storage", "create_quantity"})
    v = r.eng.deref(r.value, r.state)
    if v.op != "new" or not v.args[0].endswith(".Quantity"):
        ctx.und("subsample@quantity", w, show(v, 4))
        return
    op = kwget(v, "operation")
    ins = r.eng.deref(kwget(v, "input_quantities"), r.state)
    ctx.req(op is not None and "pick_samples" in show(op) and ins.op == "list" and len(ins.args) == 2 and ins.args[0] is SLF, "subsample@quantity", w, "picks from the samples of this quantity; found %s of %s" % (show(op), show(ins, 4)))
    ty = kwget(v, "quantity_type")
    ctx.req(ty is attr(SLF, "qtype"), "subsample@type", w, "picked samples have the type of the quantity; found %s" % show(ty, 4))
    st = [e for e in r.events if e.kind == "setattr" and e.name == "_adjust_value"]
    if len(st) != 1:
        ctx.und("subsample@levels", w, "no custom value per level")
        return
    CS, V = sym("$CS"), sym("$V")
    rs = ctx.run_method("mlmc.quantity.quantity.QuantityConst", "samples", opaque={"_adjust_value"})
    av = [e for e in rs.events if e.kind == "call" and last(e.name) == "_adjust_value"]
    if len(av) != 1 or len(av[0].args) != 2:
        ctx.und("subsample@levels", w, "call of _adjust_value")
        return
    csn = sym(ctx.method("mlmc.quantity.quantity.QuantityConst", "samples").params()[1])
    arg = subst(av[0].args[1], {csn: CS})
    n0 = len(r.eng.events)
    got = r.eng.deref(r.eng.call(st[0].args[0], [V, arg], {}, r.state, None), r.state)
    new = r.eng.events[n0:]
    lvl = attr(CS, "level_id")
    ctx.req(contains(got, lambda y: y.op == "sub" and y.args[1] is lvl or y.op == "call" and lvl in y.args) or got.op == "sub" and got.args[1] is lvl, "subsample@levels", w, "parameters of the level of the chunk are used; found %s" % show(got, 4))
    first = cmpop("==", attr(CS, "chunk_id"), const(0))
    local = {m.name: m for c_ in ast.walk(f.node) if isinstance(c_, ast.ClassDef) for m in c_.body if isinstance(m, ast.FunctionDef)}
    inner = []
    for e in new:
        if e.kind == "call" and last(e.name) in local:
            inner.append((e, ctx.run(Func(local[last(e.name)], f.module, None)).events))
    resets = {}
    for a in ("k", "n"):
        sets = [(e, conds(e)) for e in new if e.kind == "setattr" and e.name == a]
        sets += [(y, conds(e) + conds(y)) for e, ys in inner for y in ys if y.kind == "setattr" and y.name == a]
        resets[a] = [e for e, _ in sets]
        if not sets:
            ctx.bad("subsample@reset-" + a, w, "%s is never set back, a second evaluation would pick nothing" % a)
            continue
        for e, cs in sets:
            if len(cs) == 1 and cs[0] == (first, True):
                ctx.ok("subsample@reset-" + a, e.where(), "set back at the first chunk of the level")
            elif not cs:
                ctx.bad("subsample@reset-" + a, e.where(), "%s is set back for every chunk: a level read in more chunks yields another number of samples than asked" % a)
            elif len(cs) == 1 and is_first(cs[0], CS):
                ctx.ok("subsample@reset-" + a, e.where(), "set back at the first chunk of the level")
            elif len(cs) == 2 and any(is_first(c, CS) for c in cs) and any(contains(c, lvl) and not contains(c, lambda y: y.op == "attr" and y.args[0] is not CS) for c, _p in cs):
                ctx.bad("subsample@reset-" + a, e.where(), "%s is set back on some levels only (%s): a second evaluation picks nothing on the others" % (a, [(show(c, 4), p) for c, p in cs]))
            elif not any(contains(c, attr(CS, x)) for c, _p in cs for x in ("chunk_id", "chunk_slice")):
                ctx.bad("subsample@reset-" + a, e.where(), "%s is set back if %s, which does not depend on the chunk: the evaluation depends on what was evaluated before" % (a, [(show(c, 4), p) for c, p in cs]))
            else:
                ctx.und("subsample@reset-" + a, e.where(), "set back if %s" % [(show(c), p) for c, p in cs])
    # numbers handed to the parameters
    cl = [n_ for n_ in ast.walk(f.node) if isinstance(n_, ast.ClassDef)]
    ap = [e for e in r.events if e.kind == "call" and cl and cl[0].name in (e.name + show(e.recv) if e.recv is not None else e.name)]
    if len(cl) == 1 and len(ap) == 1 and len(ap[0].args) == 2:
        init = [m for m in cl[0].body if isinstance(m, ast.FunctionDef) and m.name == "__init__"]
        ps = [a.arg for a in init[0].args.args] if init else []
        field = {}
        for s_ in init[0].body if init else ():
            if isinstance(s_, ast.Assign) and isinstance(s_.targets[0], ast.Attribute) and isinstance(s_.value, ast.Name):
                field[s_.targets[0].attr] = s_.value.id
        for a in ("k", "n"):
            for e in resets.get(a, ()):
                x = e.args[-1]
                if x.op == "attr" and x.args[1] in field and a in field and field[x.args[1]] in ps:
                    ctx.req(field[x.args[1]] == field[a], "subsample@reset-value-" + a, e.where(), "%s is set back to its own starting number; set to %s, which holds %s" % (a, x.args[1], field[x.args[1]]))
        e = ap[0]
        i = e.loops[-1][0] if e.loops else None
        by = dict(zip(ps[1:], e.args))
        kv, nv = by.get(field.get("k")), by.get(field.get("n"))
        if kv is None or nv is None:
            ctx.und("subsample@numbers", w, "fields %s" % field)
        else:
            ctx.req(kv is mk("sub", sym("sample_vec"), i) , "subsample@numbers-k", w, "asked number of the level; found %s" % show(kv, 5))
            ctx.req(nv.op == "sub" and nv.args[1] is i and "n_collected" in show(nv, 6), "subsample@numbers-n", w, "collected samples of the level; found %s" % show(nv, 5))
    else:
        ctx.und("subsample@numbers", w, "parameters object")


def is_first(c, CS):
    t, p = c
    cid = attr(CS, "chunk_id")
    if t is cid and not p:
        return True
    if t.op == "cmp" and t.args[0] in ("==", "!=", ">", "<", "is", "isnot") and cid in t.args and const(0) in t.args:
        o = t.args[0]
        return o in ("==", "is") and p or o in ("!=", "isnot") and not p or o in (">", "<") and not p
    return False


def bootstrap(ctx):
    w = "mlmc/estimator.py:Estimate.est_bootstrap"
    r = ctx.run_method("mlmc.estimator.Estimate", "est_bootstrap", opaque={"estimate_mean", "moments", "subsample", "select", "determine_sample_vec"})
    ss = calls(r, "subsample")
    mo = calls(r, "moments")
    em = calls(r, "estimate_mean")
    if not ss and len(mo) == 1 and (mo[0].args[0] if mo[0].args else (mo[0].kw or {}).get("quantity")) in (attr(SLF, "_quantity"), attr(SLF, "quantity")):
        ctx.bad("bootstrap@subsample", mo[0].where(), "every repetition estimates the moments of all samples, no subsample is drawn")
        return
    if len(ss) != 1 or len(mo) != 1 or len(em) != 1:
        ctx.und("bootstrap@steps", w, "subsample / moments / estimate_mean: %d %d %d" % (len(ss), len(mo), len(em)))
        return
    ctx.req(bool(ss[0].loops) and ss[0].recv in (attr(SLF, "_quantity"), attr(SLF, "quantity")), "bootstrap@subsample", ss[0].where(), "each repetition draws a subsample of the quantity; found %s" % show(ss[0].recv))
    a = mo[0].args[0] if mo[0].args else (mo[0].kw or {}).get("quantity")
    sel = has_call(a, ".select", "select", "mlmc.quantity.quantity.Quantity.select") if a is not ss[0].result else False
    ctx.req(a is ss[0].result, "bootstrap@moments", mo[0].where(), "moments of the subsample are estimated; found %s" % ("samples used as a condition of select: " if sel else "") + show(a, 4))
    ctx.req(contains(em[0].args[0], mo[0].result), "bootstrap@mean", em[0].where(), "estimates the moments of the subsample")
    sv = ss[0].args[0] if ss[0].args else (ss[0].kw or {}).get("sample_vec")
    ctx.req(sv is not None and contains(sv, sym("sample_vector")), "bootstrap@counts", ss[0].where(), "asked numbers of samples; found %s" % (sv and show(sv, 5)))
    X = em[0].result
    for a, p in (("mean", "mean"), ("var", "var"), ("l_means", "l_means"), ("l_vars", "l_vars")):
        for pre, fn, dd in (("mean", "numpy.mean", None), ("var", "numpy.var", const(1))):
            nm = "%s_bs_%s" % (pre, a)
            t = r.state.heap.get(("f", SLF, nm))
            if t is None:
                ctx.und("bootstrap@" + nm, w, "not stored")
                continue
            t = r.eng.deref(t, r.state)
            nl = Ix({})
            # list of repetitions as an array [repetition, component...]
            reps = [y for y in walk(t) if y.op in ("cat", "each") and contains(y, X)]
            tops = {}
            top(t, X, tops)
            if len(tops) != 1:
                ctx.und("bootstrap@" + nm, w, show(t, 4))
                continue
            Y = next(iter(tops))
            ea = [y for y in walk(Y) if y.op == "each"]
            good = len(ea) == 1 and ea[0].args[1] is sym("n_subsamples") and ea[0].args[2].op == "list" and len(ea[0].args[2].args) == 1 and ea[0].args[2].args[0] is attr(X, p) and ea[0].args[3] is TRUE
            B = sym("$B")
            try:
                ref = mk("call", fn, B, mk("kw", "axis", const(0)), *([mk("kw", "ddof", dd)] if dd is not None else []))
                ok, x, y = Ix({B: arr("B", sym("#R"), M)}).same(subst(t, {Y: B}), ref)
                ctx.req(ok and good, "bootstrap@" + nm, w, "must be %s over repetitions of %s; found %s over %s" % (y, p, x, show(Y, 5)))
            except Unk as u:
                ctx.und("bootstrap@" + nm, w, u)


def level_samples(ctx):
    """get_level_samples: values of the quantity in the (first) chunk of the asked level with the asked number of samples"""
    nm = "get_level_samples"
    w = "mlmc/estimator.py:Estimate." + nm
    try:
        f = ctx.method("mlmc.estimator.Estimate", nm)
    except AnchorError:
        return
    ps = f.params()[1:]
    r = ctx.run_method("mlmc.estimator.Estimate", nm)
    cs, ss = calls(r, "chunks"), calls(r, "samples")
    if len(cs) != 1 or len(ss) != 1 or len(ps) < 2:
        ctx.und("level-samples", w, "chunks / samples: %d %d" % (len(cs), len(ss)))
        return
    c, q = cs[0], ss[0]
    a = dict(zip(("level_id", "n_samples"), c.args))
    a.update(c.kw or {})
    st = attr(SLF, "_sample_storage"), attr(SLF, "sample_storage")
    qu = attr(SLF, "_quantity"), attr(SLF, "quantity")
    ctx.req(c.recv in st and a.get("level_id") is sym(ps[0]), "level-samples@level", c.where(), "reads the asked level of the storage; found %s of %s" % (a.get("level_id") and show(a["level_id"], 3), show(c.recv, 3)))
    ctx.req(a.get("n_samples") is sym(ps[1]), "level-samples@number", c.where(), "asks for the asked number of samples; found %s" % (a.get("n_samples") and show(a["n_samples"], 3)))
    v = (list(q.args) + list((q.kw or {}).values()) or [None])[0]
    ctx.req(q.recv in qu and v is not None and contains(v, c.result), "level-samples@values", q.where(), "values of the quantity in the read chunk; found %s of %s" % (v and show(v, 4), show(q.recv, 3)))
    t = r.eng.deref(r.value, r.state)
    ls = [t for g, t in leaves_ite(t) if not is_const(t, None)]
    if any(t is not q.result for t in ls):
        ctx.und("level-samples@result", w, show(t, 4))
    else:
        ctx.ok("level-samples@result", w, "returned as evaluated")


def sample_vec(ctx):
    """numbers of samples: the given ones for the first n_levels levels, the collected ones when none are given"""
    nm = "determine_sample_vec"
    w = "mlmc/estimator.py:" + nm
    try:
        f = ctx.prog.func("mlmc.estimator." + nm)
    except AnchorError:
        return
    ps = f.params()
    if ps != ["n_collected_samples", "n_levels", "sample_vector"]:
        ctx.und("sample-vec", w, "parameters %s" % ps)
        return
    C = [sym("$c%d" % i) for i in range(3)]
    V = [sym("$v%d" % i) for i in range(4)]
    for K, gv in ((3, None), (2, 2), (3, 3), (2, 3), (1, 3), (3, 4), (2, 4)):
        given = V[:gv] if gv else None
        r = ctx.run(f, args={"n_collected_samples": mk("list", *C[:K]), "n_levels": const(K), "sample_vector": mk("list", *given) if given else const(None)})
        t = r.eng.deref(r.value, r.state)
        while t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray", "list", "numpy.atleast_1d") and len(t.args) > 1:
            t = t.args[1]
        want = (given or C)[:K]
        what = "%s numbers for %d levels" % (gv or "no", K)
        if t.op in ("list", "tuple"):
            ctx.req(list(t.args) == want, "sample-vec", w, "%s: %s; found %s" % (what, [show(x) for x in want], show(t, 5)))
        else:
            ctx.und("sample-vec", w, "%s: %s" % (what, show(t, 5)))


@prop("E05", "Value flow of estimate_domain (level and number of the read samples, array denotation of the data given to the percentile, quantiles, min/max over levels), "
      "of subsample/pick_samples (counts carried over chunks and reset once per level) and of the bootstrap statistics.",
      ["numpy percentile, random choice and scipy's hypergeometric distribution are trusted", "the first chunk of a level has number 0 (S17)"])
def e05(ctx):
    r = ctx.run_method("mlmc.estimator.Estimate", "estimate_domain")
    domain(ctx, r, "mlmc/estimator.py:Estimate.estimate_domain", "method")
    try:
        f = ctx.prog.func("mlmc.estimator.estimate_domain")
    except AnchorError:
        f = None
    if f is not None:
        domain(ctx, ctx.run(f), "mlmc/estimator.py:estimate_domain", "function")
    subsample(ctx)
    bootstrap(ctx)
    level_samples(ctx)
    sample_vec(ctx)


# ------------------------------------------------------------------------------------------------ regression of level variances
RG = "mlmc.estimator.Estimate"
WR = "mlmc/estimator.py:Estimate."


def pure_param(ctx, key, r, name, w):
    """the array given by the caller is not written into"""
    p = sym(name)
    for e in r.events:
        if e.kind in ("setitem", "augsetitem", "store") and e.recv is p:
            ctx.bad(key, e.where(), "writes into the given variances %s" % name)
            return
    if ("c", p) in r.state.heap and r.state.heap[("c", p)] is not p:
        ctx.bad(key, w, "the given variances %s are overwritten: %s" % (name, show(r.state.heap[("c", p)], 4)))
        return
    ctx.ok(key, w, "given variances are only read")


def step_order(ix, t, rank):
    """positions of the elements of t (steps or negative steps of levels) in ascending order when the step of level l has rank[l]"""
    a = ix.ev(t)
    if a.rank != 1 or not is_const(a.dims[0]):
        raise Unk("order of %s" % show(t, 4))
    keys = []
    for j in range(a.dims[0].args[0]):
        e = ix.norm(a.fn([const(j)]))
        sg = 1
        if e.op == "poly":
            m = ix.norm(binop("*", const(-1), e))
            e, sg = (m, -1) if m.op != "poly" else (e, 1)
        if e.op != "el" or e.args[0] != "S" or not is_const(e.args[1]):
            raise Unk("order of %s" % show(e, 4))
        keys.append(sg * rank[e.args[1].args[0]])
    return sorted(range(len(keys)), key=lambda j: keys[j])


def one_moment(ctx):
    nm = "_moment_variance_regression"
    w = WR + nm
    f = ctx.method(RG, nm)
    ps = f.params()[1:]
    r = ctx.run_method(RG, nm, opaque={"_variance_of_variance"})
    V, S = sym(ps[0]), sym(ps[1])
    pure_param(ctx, "regression@given", r, ps[0], w)
    v = r.eng.deref(r.value, r.state)
    ls = {y for y in walk(v) if y.op == "call" and y.args[0] == "numpy.linalg.lstsq"}
    sorts = any(y.op == "call" and last(y.args[0]) in ("argsort", "sort", "sorted", "lexsort") for y in walk(v))
    for n in (1, 2, 3, 4, 6):
        K = const(n)
        at = {V: arr("V", K), S: arr("S", K)}
        # steps of the levels in any order: matters only if they are sorted somewhere
        cases = [(zero, rank) for zero in (False, True) for rank in ([list(range(n)), list(range(n))[::-1], [(2 * k + 1) % n if n % 2 else k ^ 1 for k in range(n)]][:3 if sorts else 1])]
        for zero, rank in cases:
            def hook(t, zero=zero, rank=rank):
                if t.op == "call" and t.args[0] in ("numpy.allclose", "numpy.all", "numpy.any") and len(t.args) > 1 and contains(t, V) and not contains(t, S):
                    if t.args[0] == "numpy.allclose" and t.args[1] is V and is_const(t.args[2], 0):
                        return Arr((), lambda j: const(zero))
                return None
            ix = Ix(dict(at))
            ix.hook = hook
            try:
                lf = []
                for g, t in leaves_ite(v):
                    live = True
                    for c, p in g:
                        k = ix.sc(c)
                        if not is_const(k):
                            raise Unk("condition %s" % show(c, 5))
                        live &= bool(k.args[0]) == p
                    if live:
                        lf.append(t)
                if len(lf) != 1:
                    raise Unk("%d values" % len(lf))
                lf = [subst(lf[0], {y: mk("list", *[const(k) for k in step_order(ix, y.args[1], rank)]) for y in walk(lf[0]) if y.op == "call" and y.args[0] == "numpy.argsort" and len(y.args) == 2})]
                if n < 3 or zero:
                    x = ix.ev(lf[0])
                    got = [ix.norm(x.fn([const(l)])) for l in range(n)]
                    ctx.req(got == [mk("el", "V", const(l)) for l in range(n)], "regression@few", w, "with %d levels%s the variances are returned as given; found %s" % (n, " and zero variances" if zero else "", [show(y, 4) for y in got]))
                    continue
                ls = [y for y in walk(lf[0]) if y.op == "call" and last(y.args[0]) in ("lstsq", "polyfit", "solve", "pinv")]
                ls = list(dict.fromkeys(ls))
                if not ls:
                    x = ix.ev(lf[0])
                    got = [ix.norm(x.fn([const(l)])) for l in range(n)] if x.rank == 1 else []
                    if got == [mk("el", "V", const(l)) for l in range(n)]:
                        ctx.bad("regression@fit", w, "with %d levels nothing is regressed, the variances are returned as given" % n)
                        continue
                if len(ls) != 1 or last(ls[0].args[0]) != "lstsq":
                    raise Unk("least squares: %d calls" % len(ls))
                A, b = ls[0].args[1:3]
                xa, xb = ix.ev(A), ix.ev(b)
                lg = lambda l: mk("call", "numpy.log", l)
                st = lambda l, k: ix.norm(binop("**", lg(mk("el", "S", const(l))), const(k))) if k else ONE
                fa = [[ix.norm(xa.fn([const(l), const(k)])) for k in range(3)] for l in range(n - 1)]
                wa = [[ix.norm(st(l + 1, k)) for k in range(3)] for l in range(n - 1)]
                ctx.req(xa.rank == 2 and xa.dims == (const(n - 1), const(3)) and fa == wa, "regression@model", w, "log variance is modelled by 1, log h, log^2 h of levels 1, 2, ...; found %s" % [[show(y, 4) for y in z] for z in fa][:2])
                fb = [ix.norm(xb.fn([const(l)])) for l in range(n - 1)]
                wb = [ix.norm(lg(mk("el", "V", const(l + 1)))) for l in range(n - 1)]
                ctx.req(xb.rank == 1 and xb.dims == (const(n - 1),) and fb == wb, "regression@data", w, "logarithms of the variances of levels 1, 2, ... are fitted; found %s" % [show(y, 5) for y in fb][:2])
                P = sym("$params")
                ix2 = Ix({**at, P: arr("P", const(3))})
                ix2.hook = hook
                t = subst(lf[0], {mk("sub", ls[0], const(0)): P})
                if contains(t, ls[0]):
                    raise Unk("other results of the least squares are used")
                x = ix2.ev(t)
                got = [ix2.norm(x.fn([const(l)])) for l in range(n)]
                fit = lambda l: ix2.norm(mk("call", "numpy.exp", ix2.norm(binop("+", binop("+", mk("el", "P", const(0)), binop("*", mk("el", "P", const(1)), st(l, 1))), binop("*", mk("el", "P", const(2)), st(l, 2))))))
                ctx.req(x.rank == 1 and got[0] is mk("el", "V", const(0)), "regression@level0", w, "the variance of level 0 is kept; found %s" % show(got[0], 5))
                ctx.req(x.rank == 1 and got[1:] == [fit(l) for l in range(1, n)], "regression@fit", w, "level l >= 1 gets exp of the fitted model at its own step; found %s" % [show(y, 9) for y in got[1:]][:1])
            except Unk as u:
                ctx.und("regression@one", w, "%d levels: %s" % (n, u))


def all_moments(ctx):
    nm = "_all_moments_variance_regression"
    w = WR + nm
    f = ctx.method(RG, nm)
    ps = f.params()[1:]
    r = ctx.run_method(RG, nm, opaque={"_moment_variance_regression"})
    V, S = sym(ps[0]), sym(ps[1])
    pure_param(ctx, "moments@given", r, ps[0], w)
    v = r.eng.deref(r.value, r.state)
    es = calls(r, "_moment_variance_regression")
    if not es:
        ctx.und("moments@regressed", w, "no regression")
        return
    for n, m in ((3, 1), (4, 2), (3, 4)):
        ix = Ix({V: arr("V", const(n), const(m)), S: arr("S", const(n))})

        def hook(t):
            if t.op == "call" and last(str(t.args[0])) == "_moment_variance_regression":
                a = kwget(t, "raw_vars") or (t.args[2] if len(t.args) > 2 else None)
                b = kwget(t, "sim_steps") or (t.args[3] if len(t.args) > 3 else None)
                if a is None or b is None:
                    raise Unk(show(t, 4))
                x, y = ix.ev(a), ix.ev(b)
                if x.rank != 1 or y.rank != 1 or x.dims[0] is not const(n):
                    raise Unk(show(t, 4))
                return Arr((const(n),), lambda j: mk("reg", j[0], mk("tuple", *[ix.norm(x.fn([const(l)])) for l in range(n)]), mk("tuple", *[ix.norm(y.fn([const(l)])) for l in range(n)])))
            return None
        ix.hook = hook
        try:
            x = ix.ev(v)
            if x.rank != 2:
                raise Unk("rank")
            steps = mk("tuple", *[mk("el", "S", const(l)) for l in range(n)])
            for l in range(n):
                for k in range(m):
                    g = x.fn([const(l), const(k)])
                    g = mk("reg", ix.norm(g.args[0]), *[mk("tuple", *[mk("el", *[ix.norm(q) if isinstance(q, T) else q for q in y.args]) if y.op == "el" else ix.norm(y) for y in z.args]) for z in g.args[1:]]) if g.op == "reg" else ix.norm(g)
                    if k == 0:
                        ctx.req(g is mk("el", "V", const(l), const(0)) or g.op == "reg" and g.args[0] is const(l) and g.args[1] is mk("tuple", *[mk("el", "V", const(q), const(0)) for q in range(n)]),
                                "moments@constant", w, "variances of the constant moment are kept; found %s" % show(g, 5))
                    else:
                        ctx.req(g is mk("reg", const(l), mk("tuple", *[mk("el", "V", const(q), const(k)) for q in range(n)]), steps), "moments@regressed", w, "moment %d is regressed from its own variances and the steps; found %s" % (k, show(g, 6)))
        except Unk as u:
            ctx.und("moments@regressed", w, "%d levels, %d moments: %s" % (n, m, u))


def regress_entry(ctx):
    nm = "estimate_diff_vars_regression"
    w = WR + nm
    r = ctx.run_method(RG, nm, opaque={"_all_moments_variance_regression", "estimate_diff_vars"})
    v = r.eng.deref(r.value, r.state)
    es = calls(r, "_all_moments_variance_regression")
    if v.op != "tuple" or len(v.args) != 2 or len(es) != 1:
        ctx.und("entry@result", w, show(v, 5))
        return
    ctx.req(v.args[0] is es[0].result, "entry@result", w, "regressed variances are returned; found %s" % show(v.args[0], 4))
    no = calls(r, "get_n_ops")
    if len(no) == 1:
        ctx.req(v.args[1] is no[0].result and no[0].recv is attr(SLF, "_sample_storage"), "entry@costs", w, "costs of the levels in the storage are returned; found %s" % show(v.args[1], 4))
    else:
        ctx.und("entry@costs", w, "%d calls of get_n_ops" % len(no))
    a = bindargs(es[0], ("raw_vars", "sim_steps"))
    lp = calls(r, "get_level_parameters")
    if a.get("sim_steps") is None or len(lp) != 1:
        ctx.und("entry@steps", w, "steps")
    else:
        for n in (2, 3):
            ix = Ix({lp[0].result: arr("S", const(n), ONE)})
            try:
                x = ix.ev(a["sim_steps"])
                got = [ix.norm(x.fn([const(l)])) for l in range(n)] if x.rank == 1 else None
                ctx.req(got is not None and x.dims[0] is const(n) and all(y.op == "el" and y.args[1] is const(l) for l, y in enumerate(got)), "entry@steps", w, "level l is paired with its own step; found %s" % (got and [show(y) for y in got]))
            except Unk as u:
                ctx.und("entry@steps", w, u)
    raw = a.get("raw_vars")
    ed = calls(r, "estimate_diff_vars")
    if raw is None or len(ed) != 1:
        ctx.und("entry@variances", w, "%s" % (raw and show(raw, 4)))
        return
    isnone = cmpop("is", sym("raw_vars"), NONE)
    for g, x in leaves_ite(raw):
        given = (isnone, False) in g
        if x is sym("raw_vars"):
            ctx.req((isnone, True) not in g, "entry@variances", w, "given variances are used if there are any")
        elif x is mk("sub", ed[0].result, const(0)):
            ctx.req(not given, "entry@variances", w, "estimated variances are used only if none are given")
        else:
            ctx.und("entry@variances", w, show(x, 4))
    m = bindargs(ed[0], ("moments_fn",)).get("moments_fn")
    if m is not None:
        mn = cmpop("is", sym("moments_fn"), NONE)
        ok = contains(m, sym("moments_fn")) and all(x in (sym("moments_fn"), attr(SLF, "_moments_fn")) and (mn, x is sym("moments_fn")) not in g for g, x in leaves_ite(m))
        ctx.req(ok or m.op == "bool", "entry@basis", w, "variances of the given moments; found %s" % show(m, 4))


def sample_sizes(ctx, r, bs, key):
    """the bootstrap is asked for subsamples of the sizes requested by the caller"""
    sv = bindargs(bs, ("n_subsamples", "sample_vector", "moments_fn")).get("sample_vector")
    if sv is not None:
        sv = r.eng.deref(sv, r.state)
    if sv is None or sv is NONE:
        ctx.bad(key + "@sizes", bs.where(), "the requested sizes of the subsamples (sample_vector) are not given to est_bootstrap; all collected samples are resampled instead")
    elif contains(sv, lambda y: y.op == "sym" and y.args[0] in ("sample_vector", "sample_vec")):
        ctx.ok(key + "@sizes", bs.where(), "subsamples of the requested sizes")
    else:
        ctx.und(key + "@sizes", bs.where(), show(sv, 4))


def bindargs(e, names):
    """arguments of a call of a method by the parameter names"""
    out = dict(e.kw or {})
    for n, a in zip(names, e.args):
        out.setdefault(n, a)
    if e.result is not None and e.result.op == "call":
        for a in e.result.args:
            if isinstance(a, T) and a.op == "kw":
                out.setdefault(a.args[0], a.args[1])
    return out


def target_counts(ctx):
    nm = "bs_target_var_n_estimated"
    w = WR + nm
    c = ctx.prog.cls(RG)
    if ctx.prog.method(c, nm) is None:
        return
    r = ctx.run_method(RG, nm, opaque={"est_bootstrap", "estimate_diff_vars_regression", "estimate_n_samples_for_target_variance", "determine_sample_vec"})
    bs, rg, al, dv = [calls(r, x) for x in ("est_bootstrap", "estimate_diff_vars_regression", "estimate_n_samples_for_target_variance", "determine_sample_vec")]
    if [len(x) for x in (bs, rg, al)] != [1, 1, 1]:
        ctx.und("target@steps", w, "bootstrap, regression, allocation: %s" % [len(x) for x in (bs, rg, al)])
        return
    ctx.req(bs[0].seq < rg[0].seq, "target@order", rg[0].where(), "variances of the bootstrap are read after it ran")
    sample_sizes(ctx, r, bs[0], "target")
    a = bindargs(rg[0], ("n_created_samples", "moments_fn", "raw_vars"))
    raw = a.get("raw_vars")
    ctx.req(raw is not None and raw.op == "attr" and raw.args[1] == "mean_bs_l_vars", "target@variances", rg[0].where(), "mean level variances of the subsamples are used; found %s" % (raw is not None and show(raw, 4)))
    b = bindargs(al[0], ("target_variance", "prescribe_vars", "n_ops", "n_levels"))
    R_ = rg[0].result
    want = {"target_variance": sym("target_var"), "prescribe_vars": mk("sub", R_, const(0)), "n_ops": mk("sub", R_, const(1))}
    for k, t in want.items():
        ctx.req(b.get(k) is t, "target@%s" % k, al[0].where(), "%s of the allocation; found %s" % (k, b.get(k) is not None and show(b[k], 4)))
    n = b.get("n_levels")
    ctx.req(n is not None and "get_n_levels" in show(n, 4), "target@n_levels", al[0].where(), "number of levels of the storage; found %s" % (n is not None and show(n, 4)))
    ctx.req(r.eng.deref(r.value, r.state) is al[0].result, "target@result", w, "the proposed numbers are returned")


@prop("E06", "Value flow and array denotation (for 1 to 6 levels, 1 to 4 moments) of the regression of level variances: regressors and data given to the least squares, fitted values of each level, columns of moments, "
      "steps and costs read from the storage; the given arrays are not written into; arguments of the allocation from bootstrap variances.",
      ["numpy's least squares is trusted", "numbers of levels and moments not enumerated behave like those enumerated"])
def e06(ctx):
    one_moment(ctx)
    all_moments(ctx)
    regress_entry(ctx)
    target_counts(ctx)


@prop("E04", "")
def e04_single(ctx):
    """one moment: its value of the same samples, with the index asked (0 by default)"""
    try:
        f = ctx.prog.func(QE + ".moment")
    except AnchorError:
        return
    w = WE + "moment"
    I, fn = sym("i"), sym("moments_fn")
    r = ctx.run(f)
    q = [e for e in r.events if e.kind == "new" and last(e.name) == "Quantity"]
    if len(q) != 1:
        ctx.und("moment@quantity", w, "no single Quantity built")
        return
    kw = q[0].kw or {}
    iv = r.eng.deref(kw.get("input_quantities", NONE), r.state)
    ctx.req(iv.op == "list" and list(iv.args) == [sym("quantity")], "moment@input", q[0].where(), "operates on the quantity; found %s" % show(iv, 4))
    ty = kw.get("quantity_type", NONE)
    ctx.req(ty is attr(sym("quantity"), "qtype"), "moment@type", q[0].where(), "one value per component: type of the quantity; found %s" % show(ty, 4))
    X = sym("#x")
    n0 = len(r.eng.events)
    val = r.eng.deref(r.eng.call(kw.get("operation", NONE), [X], {}, r.state, None), r.state)
    ev = [e for e in r.eng.events[n0:] if e.kind == "call" and e.recv is fn]
    if len(ev) == 1 and last(ev[0].name) == "eval_all" and val.op == "sub" and val.args[0] is ev[0].result and val.args[1].op == "tuple" and is_const(val.args[1].args[0], Ellipsis) and len(val.args[1].args) == 2:
        k, n = val.args[1].args[1], Norm()
        b = dict(zip(("value", "size"), ev[0].args))
        b.update(ev[0].kw or {})
        size = b.get("size")
        exact = n(k) is n(I) or is_const(k, -1) and size is not None and n(size) is n(mk("bin", "+", I, const(1)))
        if exact or contains(k, I) or is_const(k):
            ctx.req(exact and b.get("value") is X, "moment@value", ev[0].where(), "moment i of the samples; found moment %s of %s" % (show(k), show(b.get("value", NONE))))
            return
    if len(ev) != 1 or last(ev[0].name) not in ("eval_single_moment", "eval"):
        ctx.und("moment@value", w, "moment function is evaluated by %s" % [e.name for e in ev])
        return
    b = dict(zip(("i", "value"), ev[0].args))
    b.update(ev[0].kw or {})
    ctx.req(b.get("i") is I and b.get("value") is X, "moment@value", ev[0].where(), "moment i of the samples; found i=%s of %s" % (b.get("i") and show(b["i"]), b.get("value") and show(b["value"])))
    d = dict(zip(reversed([a.arg for a in f.node.args.args]), reversed(f.node.args.defaults)))
    v = getattr(d.get("i"), "value", None)
    if "i" in d:
        ctx.req(v == 0, "moment@default", w, "moment 0 by default; found %s" % v)
