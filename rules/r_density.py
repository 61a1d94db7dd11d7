"""Density approximation: maximum entropy density, its functional and derivatives, quadrature, distribution function, orthogonal moments."""
from rules.registry import prop
from rules.common import *
from sa.ixform import Ix, Arr, Unk, SizeErr, fresh, ONE
from sa.repo import AnchorError
from sa.terms import Norm
from sa import numid

FULL = mk("slice", NONE, NONE, NONE)

MOD = "mlmc.tool.simple_distribution."
CLS = MOD + "SimpleDistribution"
SELF = sym("self")
LAM, SIG, MU = sym("#lam"), attr(SELF, "_moment_errs"), attr(SELF, "moment_means")
PHI, W, EPD = attr(SELF, "_quad_moments"), attr(SELF, "_quad_weights"), attr(SELF, "_end_point_diff")
Q, M = sym("#q"), sym("#m")
DOM = attr(SELF, "domain")


def heap(r, obj, name):
    v = r.state.heap.get(("f", obj, name))
    return r.eng.deref(v, r.state) if v is not None else None


def unclip(t):
    """exp(clip(x)) for a wide clip is exp(x); returns (term, bounds dropped)"""
    m = {}
    for x in walk(t):
        if x.op != "call" or last(x.args[0]) not in ("minimum", "maximum", "clip", "min", "max"):
            continue
        a = [y for y in x.args[1:] if isinstance(y, T) and y.op != "kw"]
        c = [y for y in a if num(y) is not None]
        o = [y for y in a if num(y) is None]
        if len(o) == 1 and c and all(abs(num(y)) >= 150 for y in c):
            n = last(x.args[0])
            good = all((num(y) > 0) == (n in ("minimum", "min")) for y in c) if n != "clip" else len(c) == 2 and num(c[0]) < 0 < num(c[1])
            if good:
                m[x] = o[0]
    return unclip(subst(t, m)) if m else t


def num(t):
    if is_const(t) and isinstance(t.args[0], (int, float)):
        return t.args[0]
    if t.op == "un" and t.args[0] == "-" and num(t.args[1]) is not None:
        return -num(t.args[1])
    return None


def base_ix(extra=None):
    one = lambda a, s: Arr((s,), lambda i: mk("sub", a, i[0]))
    at = {LAM: one(LAM, M), SIG: one(SIG, M), MU: one(MU, M), W: one(W, Q),
          PHI: Arr((Q, M), lambda i: mk("sub", mk("sub", PHI, i[0]), i[1])),
          EPD: Arr((const(2), M), lambda i: mk("sub", mk("sub", EPD, i[0]), i[1]))}
    at.update(extra or {})
    return Ix(at)


def branches(t):
    """all values of a conditional value"""
    out = []

    def go(t, g):
        c = None
        for x in walk(t):
            if x.op == "ite" and not any(y.op == "ite" for y in walk(x.args[0])):
                c = x.args[0]
                break
        if c is None or len(g) > 5:
            if t not in out:
                out.append(t)
            return
        go(subst(t, {c: TRUE}), g + [c])
        go(subst(t, {c: FALSE}), g + [c])
    go(t, [])
    return out


def same(ctx, key, at, ix, got, want, what):
    bad = None
    try:
        w = ix.ev(want)
        for b in branches(unclip(got)):
            g = ix.ev(b)
            if g.rank != w.rank:
                bad = "rank %d instead of %d" % (g.rank, w.rank)
                break
            if any(ix.norm(p) is not ix.norm(q) for p, q in zip(g.dims, w.dims)):
                bad = "sizes (%s)" % ", ".join(show(d, 4) for d in g.dims)
                break
            i = [mk("tvf", k) for k in range(g.rank)]
            a, b2 = expnorm(ix, g.fn(i)), expnorm(ix, w.fn(i))
            if a is not b2:
                bad = show(a, 9)
                break
    except SizeErr as e:
        bad = str(e)
    except Unk as e:
        ctx.und(key, at, str(e)[:300])
        return None
    ctx.req(bad is None, key, at, what + ("" if bad is None else ": got " + bad))
    return bad is None


def expnorm(ix, t):
    for _ in range(4):
        m = {}
        for x in walk(t):
            if x.op == "call" and last(x.args[0]) in ("exp", "log"):
                y = mk("call", x.args[0], ix.norm(x.args[1]))
                if y is not x:
                    m[x] = y
        t = ix.norm(subst(t, m)) if m else ix.norm(t)
        if not m:
            break
    return t


def penalty(ctx):
    """the coefficient of the end point penalty set by the constructor"""
    r = ctx.run_method(CLS, "__init__")
    v = heap(r, SELF, "_penalty_coef")
    cls = ctx.prog.cls(CLS)
    import ast
    n = 0
    for f in cls.methods.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr == "_penalty_coef" and isinstance(x.ctx, ast.Store) and f.name != "__init__":
                n += 1
    return v if v is not None and n == 0 else None


def first_param(f):
    p = [x for x in f.params() if x != "self"]
    return p[0]


@prop("D01", "Array denotation of functional, gradient and Hessian (sums over quadrature points and moments) with must-precede of the quadrature update; extracted formulas of density, quadrature, normalization; value flow of minimisation and of the cdf accumulation.",
      ["scipy minimisation and quadrature are accurate", "the quadrature of the last update is not modified elsewhere"])
def d01_init(ctx):
    f = ctx.method(CLS, "__init__")
    r = ctx.run_method(CLS, "__init__")
    md, mo, dm = sym("moment_data"), sym("moments_obj"), sym("domain")
    at = f.full
    for p in (md, mo, dm):
        if p.args[0] not in f.params():
            raise AnchorError("%s(%s)" % (at, p.args[0]))
    v = heap(r, SELF, "domain")
    for isn, want in ((TRUE, attr(mo, "domain")), (FALSE, dm)):
        x = subst(v, {cmpop("is", dm, NONE): isn, cmpop("==", dm, NONE): isn})
        ctx.req(x is want, "domain@" + ("default" if isn is TRUE else "given"), at, "domain of the density: " + show(x, 3))
    D = sym("#d")
    ix = Ix({md: Arr((D, const(2)), lambda i: mk("sub", mk("sub", md, i[0]), i[1]))})
    nn = {cmpop("is", md, NONE): FALSE, cmpop("==", md, NONE): FALSE, mk("not", cmpop("is", md, NONE)): TRUE}
    for nm, want in (("moment_means", "d[:, 0]"), ("moment_errs", "np.sqrt(d[:, 1])")):
        v = heap(r, SELF, nm)
        if v is None:
            raise AnchorError("SimpleDistribution." + nm)
        same(ctx, "data@" + nm, at, ix, subst(v, nn), term(want, d=md), nm + " = " + want)
    v = heap(r, SELF, "approx_size")
    ctx.req(v is not None and ix.norm(ix.sc(subst(v, nn))) is D, "data@size", at, "number of multipliers is the number of moments") if v is not None else None
    v = heap(r, SELF, "moments_fn")
    ctx.req(v is mo, "data@moments", at, "moment functions: " + show(v, 3))
    f = ctx.method(CLS, "eval_moments")
    r = ctx.run_method(CLS, "eval_moments")
    x = sym(first_param(f))
    v = r.value
    a = [y for y in v.args if isinstance(y, T)] if v.op == "call" else []
    ok = v.op == "call" and last(v.args[0]) == "eval_all" and contains(v, attr(SELF, "moments_fn")) and contains(v, x) and contains(v, attr(SELF, "approx_size"))
    ctx.req(ok, "moments@eval", f.full, "values of the approx_size moments: " + show(v, 4))
    if CLS == MOD + "SimpleDistribution":
        initial(ctx)


def initial(ctx):
    # the errors used in the functional are those given
    f = ctx.method(CLS, "_initialize_params")
    r = ctx.run_method(CLS, "_initialize_params", opaque={"eval_moments", "_update_quadrature", "end_point_derivatives"})
    v = heap(r, SELF, "_moment_errs")
    ctx.req(v is attr(SELF, "moment_errs"), "data@errs-used", f.full, "scaling of multipliers by the given errors: " + (show(v, 4) if v is not None else "missing"))
    lam = heap(r, SELF, "multipliers")
    pc = [e for e in calls(r, "_update_quadrature")]
    ctx.req(bool(pc) and (is_const(kwarg(pc[0], "force", 1)) and kwarg(pc[0], "force", 1).args[0] is True), "start@quadrature", f.full, "quadrature is prepared for the initial multipliers")
    if lam is not None:
        size = sym(first_param(f))
        ix = Ix({size: Arr((), lambda i: size), DOM: Arr((const(2),), lambda i: mk("sub", DOM, i[0]))})
        try:
            g = ix.ev(lam)
            n = [ix.norm(d) for d in g.dims]
            ctx.req(n == [size], "start@size", f.full, "one multiplier per moment: " + show(lam, 4))
        except Unk as e:
            ctx.und("start@size", f.full, str(e))


def kwarg(e, name, k):
    kw = e.kw if isinstance(e.kw, dict) else dict(e.kw)
    if name in kw:
        return kw[name]
    return e.args[k] if k < len(e.args) else NONE


WANT = {
    "_density_in_quads": ("np.exp(-np.sum(phi * lam / sig, axis=1))", "density in quadrature points is exp(-sum_i lam_i phi_i / sig_i)"),
    "_calculate_functional": ("np.sum(mu * lam / sig) + np.sum(w * np.exp(-np.sum(phi * lam / sig, axis=1)))", "functional sum_i mu_i lam_i / sig_i + integral of the density"),
    "_calculate_gradient": ("mu / sig - np.sum(phi * (w * np.exp(-np.sum(phi * lam / sig, axis=1)))[:, None], axis=0) / sig", "gradient of the functional"),
    "_calculate_jacobian_matrix": ("((phi / sig).T * (w * np.exp(-np.sum(phi * lam / sig, axis=1)))) @ (phi / sig)", "Hessian of the functional"),
}


@prop("D01", "")
def d01_functional(ctx):
    pc = penalty(ctx)
    env = dict(phi=PHI, lam=LAM, sig=SIG, w=W, mu=MU)
    if pc is None or num(pc) != 0:
        ctx.und("penalty@coef", CLS, "penalty coefficient is not the constant zero")
    for m, (want, what) in WANT.items():
        m = roles(ctx)[m]
        if ctx.prog.method(ctx.prog.cls(CLS), m) is None:
            ctx.und("functional@" + m, CLS, "method not found")
            continue
        f = ctx.method(CLS, m)
        r = ctx.run_method(CLS, m, opaque={"eval_moments", "_update_quadrature"}, fields={"_penalty_coef": const(0)}, args={first_param(f): LAM})
        v = r.eng.deref(r.value, r.state)
        same(ctx, "functional@" + m, f.full, base_ix(), v, term(want, **env), what)
        if m != "_density_in_quads":
            up = calls(r, "_update_quadrature")
            ok = bool(up) and (up[0].args[-1] is LAM or kwarg(up[0], "multipliers", 0) is LAM) and not conds(up[0])
            ctx.req(ok, "quadrature@" + m, f.full, "quadrature is updated for the current multipliers before use")
            if up:
                pass


@prop("D01", "")
def d01_density(ctx):
    f = ctx.method(CLS, "density")
    r = ctx.run_method(CLS, "density", opaque={"eval_moments"}, args={"moments_fn": NONE} if "moments_fn" in f.params() else None)
    ev = calls(r, "eval_moments") or [e for e in r.events if e.kind == "call" and last(e.name) == "eval_all"]
    x = sym(first_param(f))
    if not ev:
        raise AnchorError("eval_moments in density")
    e = ev[0].result
    ctx.req(contains(e, x), "density@at", f.full, "moments are evaluated at the given value")
    L = attr(SELF, "multipliers")
    N = sym("#n")
    ix = base_ix({e: Arr((N, M), lambda i: mk("sub", mk("sub", sym("#phi"), i[0]), i[1])), L: Arr((M,), lambda i: mk("sub", L, i[0]))})
    same(ctx, "density@value", f.full, ix, r.eng.deref(r.value, r.state), term("np.exp(-np.sum(phi * lam / sig, axis=1))", phi=e, lam=L, sig=SIG), "density = exp(-sum_i lam_i phi_i(x) / sig_i)")
    # exact moments of the density
    f = ctx.method(CLS, "_calculate_exact_moment")
    K = sym("#k")
    ps = [p for p in f.params() if p != "self"]
    r = ctx.run_method(CLS, "_calculate_exact_moment", opaque={"eval_moments"}, args={ps[0]: LAM, ps[1]: K})
    quad_checks(ctx, r, f, K)


def quad_checks(ctx, r, f, K):
    qd = [e for e in r.events if e.kind == "call" and last(e.name) == "quad"]
    if len(qd) != 1:
        ctx.und("exact@quad", f.full, "%d integrals" % len(qd))
        return
    e = qd[0]
    ok = e.args[1] is sub(DOM, const(0)) and e.args[2] is sub(DOM, const(1))
    ctx.req(ok, "exact@interval", e.where(), "integral over the domain: %s, %s" % (show(e.args[1], 3), show(e.args[2], 3)))
    n0 = len(r.eng.events)
    X = sym("#x")
    v = r.eng.deref(r.eng.call(e.args[0], [X], {}, r.state, None), r.state)
    ev = [x for x in r.eng.events[n0:] if x.kind == "call" and last(x.name) == "eval_moments"]
    if not ev:
        ctx.und("exact@integrand", f.full, show(v, 5))
        return
    m = ev[0].result
    N = sym("#n")
    ix = base_ix({m: Arr((N, M), lambda i: mk("sub", mk("sub", sym("#phi"), i[0]), i[1])), K: Arr((), lambda i: K)})
    same(ctx, "exact@integrand", e.where(), ix, v, term("np.exp(-np.sum(phi * lam / sig, axis=1)) * phi[:, k]", phi=m, lam=LAM, sig=SIG, k=K), "integrand = density * moment m")
    v = r.eng.deref(r.value, r.state)
    ok = v.op == "tuple" and v.args[0] is sub(e.result, const(0)) or e.result is not None and v is sub(e.result, const(0))
    ctx.req(ok, "exact@value", f.full, "value of the integral: " + show(v, 3))


@prop("D01", "")
def d01_quadrature(ctx):
    f = ctx.method(CLS, "_update_quadrature")
    ps = [p for p in f.params() if p != "self"]
    r = ctx.run_method(CLS, "_update_quadrature", opaque={"eval_moments"}, args={ps[0]: LAM, ps[1]: TRUE})
    at = f.full
    qp, qw, qm = (heap(r, SELF, n) for n in ("_quad_points", "_quad_weights", "_quad_moments"))
    if qp is None or qw is None or qm is None:
        raise AnchorError("quadrature of SimpleDistribution")
    flat(ctx, "quad", at, qp, qw)
    ev = [e for e in calls(r, "eval_moments") if e.result is qm]
    ctx.req(bool(ev) and (ev[0].args[-1] is qp or contains(qm, qp)), "quad@moments", at, "moments at the quadrature points")
    # a kept quadrature belongs to nearby multipliers
    v = heap(r, SELF, "_last_multipliers")
    ctx.req(v is LAM, "quad@last", at, "remembers the multipliers of the quadrature: " + (show(v, 3) if v is not None else "missing"))
    mo = calls(r, "_calculate_exact_moment") or [e for e in r.events if e.kind == "call" and last(e.name) == "_calculate_exact_moment"]
    used = [x for x in walk(qp) if x is LAM]
    ctx.req(not contains(qp, attr(SELF, "multipliers")) and not contains(qw, attr(SELF, "multipliers")), "quad@current", at, "intervals adapted to the given multipliers, not to those of an earlier step")
    # with open 'force' flag: all parts change together, and are kept only for a small change
    r2 = ctx.run_method(CLS, "_update_quadrature", opaque={"eval_moments"}, args={ps[0]: LAM})
    sets = {}
    for e in r2.events:
        if e.kind == "setattr" and e.recv is SELF and e.name in ("_quad_points", "_quad_weights", "_quad_moments", "_last_multipliers"):
            sets.setdefault(e.name, []).append(frozenset(conds(e)))
    for e in r2.events:
        if e.kind == "setattr" and e.recv is SELF and e.name == "_last_multipliers":
            old = [b for b in branches(e.args[-1]) if b is attr(SELF, "_last_multipliers") or b is attr(SELF, "multipliers")]
            ctx.req(not old, "quad@remembered", e.where(), "multipliers of the renewed quadrature are remembered: " + show(e.args[-1], 4))
    base = sets.get("_quad_points", [])
    for nme in ("_quad_weights", "_quad_moments", "_last_multipliers"):
        cs = sets.get(nme, [])
        if len(cs) == len(base) == 1:
            ctx.req(cs[0] == base[0], "quad@together " + nme, at, "%s is renewed whenever the quadrature points are" % nme)
        else:
            ctx.und("quad@together " + nme, at, "%d / %d assignments" % (len(cs), len(base)))
    TOL = attr(SELF, "_quad_tolerance")
    r3 = ctx.run_method(CLS, "_update_quadrature", opaque={"eval_moments", "_calculate_exact_moment"}, args={ps[0]: LAM, ps[1]: FALSE})
    for e in calls(r3, "_calculate_exact_moment"):
        a = kwarg(e, "multipliers", 0)
        ctx.req(a is LAM, "quad@adapted", e.where(), "intervals are adapted to the density of the given multipliers: " + show(a, 3))
    base = [conds(e) for e in r3.events if e.kind == "setattr" and e.recv is SELF and e.name == "_quad_points"]
    for c in base[0] if len(base) == 1 else ():
        for x in walk(c[0]):
            if x.op == "cmp" and x.args[0] in ("<", "<=") and contains(x.args[1], LAM) and num(x.args[2]) is not None:
                ctx.req(num(x.args[2]) <= 1e-6, "quad@kept", at, "the quadrature is kept only for a negligible change: " + show(x, 5))
            if x.op == "cmp" and x.args[0] in ("<", "<=") and contains(x.args[2], TOL):
                y = x.args[1]
                ctx.req(not (y.op == "call" and last(y.args[0]) in ("dot", "inner", "vdot", "sum") or y.op == "bin" and y.args[0] in ("@", "-")), "quad@kept", at, "the quadrature is kept only for a change small in magnitude: " + show(x, 5))
    qd = [e for e in r.events if e.kind == "call" and last(e.name) == "quad"]
    for e in qd:
        kw = e.kw if isinstance(e.kw, dict) else dict(e.kw)
        fo = kw.get("full_output")
        ctx.req(fo is not None and is_const(fo) and bool(fo.args[0]), "quad@info", e.where(), "adaptive intervals are requested")


def flat(ctx, nm, at, qp, qw):
    """points and weights of composed Gauss quadrature, flattened the same way"""
    def core(t):
        n = 0
        order = "C"
        while t.op == "call" and last(t.args[0]) in ("flatten", "ravel"):
            if len(t.args) == 3:
                o = t.args[2].args[1] if t.args[2].op == "kw" else t.args[2]
                if not is_const(o):
                    break
                order = o.args[0]
            elif len(t.args) > 3:
                break
            t = t.args[1]
            n += 1
        return t, n, order
    p, a, o1 = core(qp)
    w, b, o2 = core(qw)
    if a == b == 1 and o1 != o2:
        ctx.bad(nm + "@points", at, "points and weights are listed in different orders: %s / %s" % (o1, o2))
        return
    G = [x for x in walk(p) if x.op == "call" and last(x.args[0]) == "leggauss"]
    if not G or a != 1 or b != 1:
        ctx.und(nm + "@points", at, show(qp, 5))
        return
    g = G[0]
    lists = {k: {x for t in (p, w) for x in walk(t) if x.op == "sub" and is_const(x.args[1], k)} for k in ("alist", "blist", "last")}
    if any(len(v) != 1 for v in lists.values()):
        ctx.und(nm + "@points", at, "intervals " + show(p, 5))
        return
    A, B, L = (list(lists[k])[0] for k in ("alist", "blist", "last"))
    for t in (p, w):
        for x in walk(t):
            if x.op == "call" and last(x.args[0]) in ("sort", "sorted", "unique", "flip", "roll") and (contains(x, A) != contains(x, B)):
                ctx.bad(nm + "@points", at, "ends of the intervals are reordered apart from each other: " + show(x, 4))
                return
    J, GG = sym("#big"), sym("#g")
    ix = Ix({A: Arr((J,), lambda i: mk("sub", A, i[0])), B: Arr((J,), lambda i: mk("sub", B, i[0])), L: Arr((), lambda i: L),
             sub(g, const(0)): Arr((GG,), lambda i: mk("sub", sym("#pt"), i[0])), sub(g, const(1)): Arr((GG,), lambda i: mk("sub", sym("#w"), i[0]))})
    env = dict(a=A, b=B, K=L, pt=sub(g, const(0)), w=sub(g, const(1)))
    ok1 = same(ctx, nm + "@points", at, ix, p, term("(pt[None, :] + 1) / 2 * (b[:K, None] - a[:K, None]) + a[:K, None]", **env), "Gauss points mapped to the intervals [a_k, b_k]")
    ok2 = same(ctx, nm + "@weights", at, ix, w, term("w[None, :] * (b[:K, None] - a[:K, None]) / 2", **env), "weights scaled by the half lengths of the same intervals")


def roles(ctx):
    """names of the methods given to the minimisation as functional, gradient and Hessian; the present names as long as they exist"""
    if getattr(ctx, "_roles", None) is None:
        c = ctx.prog.cls(CLS)
        names = {m: m for m in WANT}
        lost = [m for m in WANT if ctx.prog.method(c, m) is None]
        if lost:
            r = ctx.run_method(CLS, "estimate_density_minimize", opaque={"eval_moments", "_update_quadrature", "_initialize_params", "_calculate_exact_moment"})
            for e in r.events:
                if e.kind == "call" and last(e.name) == "minimize":
                    kw = e.kw if isinstance(e.kw, dict) else dict(e.kw)
                    for m, t in (("_calculate_functional", e.args[0] if e.args else kw.get("fun")), ("_calculate_gradient", kw.get("jac")), ("_calculate_jacobian_matrix", kw.get("hess"))):
                        if m in lost and t is not None and t.op == "bound" and t.args[0] is SELF:
                            names[m] = t.args[-1]
        ctx._roles = names
    return ctx._roles


@prop("D01", "")
def d01_minimize(ctx):
    f = ctx.method(CLS, "estimate_density_minimize")
    R = roles(ctx)
    r = ctx.run_method(CLS, "estimate_density_minimize", opaque={"eval_moments", "_update_quadrature", "_initialize_params", "_calculate_exact_moment"} | set(R.values()))
    at = f.full
    mn = [e for e in r.events if e.kind == "call" and last(e.name) == "minimize"]
    if len(mn) != 1:
        raise AnchorError("minimize in " + at)
    e = mn[0]
    kw = e.kw if isinstance(e.kw, dict) else dict(e.kw)
    isb = lambda t, n: t is not None and t.op == "bound" and t.args[0] is SELF and t.args[-1] == n
    fu = e.args[0] if e.args else kw.get("fun", NONE)
    x0 = e.args[1] if len(e.args) > 1 else kw.get("x0", NONE)
    ctx.req(isb(fu, R["_calculate_functional"]), "minimize@functional", e.where(), show(fu, 3))
    ctx.req(isb(kw.get("jac"), R["_calculate_gradient"]), "minimize@gradient", e.where(), show(kw.get("jac"), 3) if kw.get("jac") is not None else "missing")
    if kw.get("hess") is not None:
        ctx.req(isb(kw.get("hess"), R["_calculate_jacobian_matrix"]), "minimize@hessian", e.where(), show(kw["hess"], 3))
    ini = [x for x in calls(r, "_initialize_params")]
    if not ini and ctx.prog.method(ctx.prog.cls(CLS), "_initialize_params") is None:
        ctx.und("minimize@start", at, "initialisation of the parameters not found")
    else:
        ctx.req(bool(ini) and precedes(ini[0], e), "minimize@start", at, "parameters are initialised first")
    lam = heap(r, SELF, "multipliers")
    RX = attr(e.result, "x")
    ex = [x for x in calls(r, "_calculate_exact_moment")]
    if lam is None:
        ctx.bad("minimize@result", at, "multipliers are not set")
        return
    ctx.req(contains(lam, RX) and all(contains(b, RX) for b in branches(lam)), "minimize@result", at, "multipliers of the minimum are used")
    if len(ex) == 1 and lam.op == "store":
        base, k, v = lam.args
        m0 = sub(ex[0].result, const(0))
        m = kwarg(ex[0], "m", 1)
        ok = base is RX and is_const(k, 0) and (is_const(m, 0))
        if base.op == "store" and base.args[0] is RX and base.args[1].op == "cmp":
            ctx.bad("minimize@kept", at, "multipliers found are replaced where %s: the density is not the minimum" % show(base.args[1], 5))
            return
        A, B, S = sym("#a"), sym("#m0"), sym("#s")
        mm = {sub(RX, const(0)): A, m0: B, sub(SIG, const(0)): S}
        DOM = attr(SELF, "domain")
        for q in r.events:
            # mass of the density by quadrature over the domain
            if q.kind == "call" and last(q.name) == "quad" and len(q.args) >= 3 and isb(q.args[0], "density") and q.args[1] is sub(DOM, const(0)) and q.args[2] is sub(DOM, const(1)):
                mm[sub(q.result, const(0))] = B
        try:
            ok2 = numid.equal(subst(v, mm), term("a + np.log(b) * s", a=A, b=B, s=S), {A: (-1, 1), B: (0.5, 2), S: (0.2, 3)})
        except numid.Open as x:
            ctx.und("normalize@mass", at, str(x)[:200])
            ok2 = None
        if ok2 is not None:
            ctx.req(ok and ok2, "normalize@mass", at, "log of the mass, scaled by sig_0, is added to the first multiplier (density of unit mass): " + show(v, 4))
        a = ex[0].args[-1] if ex[0].args else NONE
        ctx.req(contains(ex[0].result, RX), "normalize@multipliers", at, "mass of the resulting density")
    else:
        whole = [x for x in walk(lam) if x.op == "bin" and x.args[0] == "+" and RX in x.args[1:] and any(contains(y, lambda z: z.op == "call" and last(z.args[0]) in ("log", "log1p")) and contains(subst(y, {sub(SIG, const(0)): sym("#s")}), SIG) for y in x.args[1:])]
        if lam.op == "ite" and any(b is RX for b in branches(lam)) and not contains(lam.args[0], lambda y: ex and y is ex[0].result):
            ctx.bad("normalize@mass", at, "NOT SATISFIED: the density has unit mass; multipliers are normalised only if %s" % show(lam.args[0], 4))
        elif lam in whole:
            ctx.bad("normalize@mass", at, "NOT SATISFIED: the density has unit mass; all multipliers are shifted: " + show(lam, 5))
        else:
            ctx.und("normalize@mass", at, show(lam, 5))


@prop("D01", "")
def d01_cdf(ctx):
    f = ctx.method(CLS, "cdf")
    r = ctx.run_method(CLS, "cdf", opaque={"density"})
    at = f.full
    v = r.eng.deref(r.value, r.state)
    x = sym(first_param(f))
    vals = mk("call", "numpy.atleast_1d", x)
    if v.op == "amb":
        for y in v.args:
            if y.op == "fstore" and contains(y.args[2], lambda z: z.op == "upto") and contains(y.args[0], lambda z: z.op == "call" and last(z.args[0]) in ("empty", "empty_like")) and not any(z.op in ("store",) for z in walk(v)):
                ctx.bad("cdf@all", at, "the loop over the values is left before all results are stored: " + show(y.args[2], 4))
                return
    if v.op != "fstore":
        ctx.und("cdf@order", at, show(v, 5))
        return
    base, idx, dom, key, val, g = v.args
    if g is not TRUE or base.op == "fstore":
        # values stored in branches of the loop
        chain, q = [], v
        while q.op == "fstore" and q.args[2] is dom and q.args[3] is key and q.args[1] is idx:
            chain.append((q.args[4], q.args[5]))
            q = q.args[0]
        val = sym("#unset")
        if q.op == "call" and last(q.args[0]) in ("zeros", "zeros_like"):
            val = const(0)
        elif q.op == "call" and last(q.args[0]) in ("ones", "ones_like"):
            val = const(1)
        for x_, g_ in reversed(chain):
            val = x_ if g_ is TRUE else mk("ite", g_, x_, val)
    order = key.args[0] if key.op == "sub" else None
    sv = {y for y in walk(val) if y.op == "sub" and y.args[1] is key and y.args[0] is not order}
    if order is not None and order.op == "call" and last(order.args[0]) == "argsort" and key.args[1] is idx:
        src = order.args[1]
        alt = [z for z in (sub(sub(src, order), idx), sub(mk("call", "numpy.sort", src), idx)) if contains(val, z)]
        if not sv and len(alt) == 1:
            ctx.req(src in (vals, x), "cdf@order", at, "values are taken in ascending order and results stored at their positions")
            V = alt[0]
        else:
            V = None
        V is not None or ctx.req(sv == {sub(src, key)} and src in (vals, x), "cdf@order", at, "values are taken in ascending order and results stored at their positions")
        V = V if V is not None else sub(src, key)
    elif key is idx and len(sv) <= 1:
        src = [y.args[0] for y in walk(val) if y.op == "sub" and y.args[1] is idx]
        srt = src and src[0].op == "call" and last(src[0].args[0]) == "sort"
        mus = [m for m in r.eng.loopinfo if m in set(walk(val))]
        if mus:
            ctx.bad("cdf@order", at, "integration continues from the previous value, but the values are taken in the given order" if not srt else "results of sorted values are stored at positions of the unsorted ones")
        V = src[0] if src else None
        if V is not None:
            V = sub(V, idx)
    else:
        ctx.und("cdf@order", at, show(key, 5))
        return
    if V is None:
        ctx.und("cdf@value", at, show(val, 5))
        return
    lo, hi = sub(DOM, const(0)), sub(DOM, const(1))

    def pick(low, high):
        m = {}
        for y in walk(val):
            if y.op == "cmp":
                o, a, b = y.args
                if {a, b} == {V, lo}:
                    below = low
                    le = o in ("<", "<=")
                    m[y] = TRUE if (below if (le and a is V) or (not le and b is V) else not below) else FALSE
                elif {a, b} == {V, hi}:
                    above = high
                    le = o in ("<", "<=")
                    m[y] = TRUE if (above if (le and b is V) or (not le and a is V) else not above) else FALSE
        return subst(val, m)
    a, b, c = pick(True, False), pick(False, True), pick(False, False)
    if any(contains(t, lambda y: y.op == "ite") for t in (a, b)):
        ctx.und("cdf@below", at, show(a, 4))
        return
    ctx.req(num(a) == 0, "cdf@below", at, "zero below the domain: " + show(a, 4))
    ctx.req(num(b) == 1, "cdf@above", at, "one above the domain: " + show(b, 4))
    mus = [m for m in r.eng.loopinfo if m in set(walk(c))]
    fq = [y for y in walk(c) if y.op == "call" and last(y.args[0]) in ("fixed_quad", "quad")]
    if not fq and contains(c, lambda y: y.op == "call" and last(y.args[0]) == "density") and all(y.op != "call" or last(y.args[0]) in ("density", "atleast_1d", "argsort", "asarray", "array", "len") for y in walk(c)):
        ctx.bad("cdf@inside", at, "not the integral of the density: " + show(c, 5))
        return
    if len(fq) != 1:
        ctx.und("cdf@inside", at, show(c, 5))
        return
    q = fq[0]
    if last(q.args[0]) == "fixed_quad":
        nq = [y.args[1] for y in q.args[1:] if y.op == "kw" and y.args[0] == "n"]
        nq = nq[0] if nq else ([y for y in q.args[1:] if y.op != "kw"][4:5] or [const(5)])[0]
        if num(nq) is not None:
            ctx.req(num(nq) >= 5, "cdf@degree", at, "degree of the quadrature of the density between two values: %s" % show(nq))
    pos = [y for y in q.args[1:] if y.op != "kw"]
    ctx.req(pos[0].op == "bound" and pos[0].args[-1] == "density" and pos[2] is V, "cdf@integral", at, "integral of the density up to the value: " + show(q, 4))
    if pos[1] in r.eng.loopinfo:
        li = r.eng.loopinfo[pos[1]]
        ctx.req(li[0] is lo, "cdf@from", at, "integration starts at the left end: " + show(li[0], 3))
        upd = subst(li[1], {})
        ins = pick_in(li[1], V, lo, hi, False, False)
        ctx.req(ins is V, "cdf@advance", at, "the next integral starts at the last value: " + show(ins, 4))
        below = pick_in(li[1], V, lo, hi, True, False)
        if not contains(below, lambda y: y.op == "ite"):
            ctx.req(below in (pos[1], lo), "cdf@inside-domain", at, "after a value below the domain integration starts at the left end: " + show(below, 4))
        rest = c.args[1] if c.args[2] is sub(q, const(0)) else c.args[2] if c.op == "bin" and c.args[0] == "+" else None
        ok = c.op == "bin" and c.args[0] == "+" and sub(q, const(0)) in c.args[1:] and rest in r.eng.loopinfo
        ctx.req(ok, "cdf@add", at, "added to the value at the last point: " + show(c, 4))
        if ok:
            l2 = r.eng.loopinfo[rest]
            ctx.req(num(l2[0]) == 0 and pick_in(l2[1], V, lo, hi, False, False) is c, "cdf@accumulate", at, "accumulated from zero")
    elif pos[1] is lo:
        ctx.req(c is sub(q, const(0)), "cdf@add", at, "integral from the left end")
    else:
        ctx.und("cdf@from", at, show(pos[1], 4))


def pick_in(t, V, lo, hi, low, high):
    m = {}
    for y in walk(t):
        if y.op == "cmp":
            o, a, b = y.args
            le = o in ("<", "<=")
            if {a, b} == {V, lo}:
                m[y] = TRUE if (low if (le and a is V) or (not le and b is V) else not low) else FALSE
            elif {a, b} == {V, hi}:
                m[y] = TRUE if (high if (le and b is V) or (not le and a is V) else not high) else FALSE
    return subst(t, m)


# ---------------------------------------------------------------------------------------------------- D02
@prop("D02", "Linear algebra of the orthogonalisation as matrix terms: centring matrix by element denotation, products by their factors, same eigenvalue selection for values and vectors; value flow of the density construction from covariance to distribution.",
      ["numpy eigh and scipy rq obey their contracts"])
def d02_orthogonal(ctx):
    f = ctx.prog.func(MOD + "construct_ortogonal_moments")
    r = ctx.run(f, None, opaque={"detect_treshold_slope_change"})
    at = f.full
    ps = f.params()
    MO, COV = sym(ps[0]), sym(ps[1])
    nw = [e for e in r.events if e.kind == "new" and e.name.endswith("TransformedMoments")]
    v = r.eng.deref(r.value, r.state)
    tm = [x for x in walk(v) if x.op == "new" and last(x.args[0]) == "TransformedMoments"]
    if not tm:
        raise AnchorError("TransformedMoments of " + at)
    kw = {x.args[0]: x.args[1] for x in tm[0].args[1:] if isinstance(x, T) and x.op == "kw"}
    ctx.req(kw.get("other_moments") is MO, "transform@moments", at, "the given moments are transformed: " + show(kw.get("other_moments", NONE), 3))
    Lm = kw.get("matrix")
    RQ = {x for x in walk(Lm) if x.op == "call" and last(x.args[0]) == "rq"}
    if len(RQ) != 1:
        ctx.und("transform@matrix", at, show(Lm, 6))
        return
    rq = list(RQ)[0]
    R = sub(rq, const(0))
    n = Norm()
    bad = None
    fq = subst(Lm, {rq: sym("#RQ")})
    RT = attr(sub(sym("#RQ"), const(0)), "T")
    for b in branches(fq):
        g = n(b)
        ok = g in (n(RT), n(mk("un", "-", RT)))
        if not ok and b.op != "store":
            b2 = subst(b, {mk("call", "numpy.transpose", sub(sym("#RQ"), const(0))): RT})
            ok = n(b2) in (n(RT), n(mk("un", "-", RT)))
        if not ok:
            bad = b
    if bad is None or bad.op == "store" or n(subst(bad, {RT: sym("#rt")})) in (n(sub(sym("#RQ"), const(0))), n(sub(sym("#RQ"), const(1)))):
        ctx.req(bad is None, "transform@factor", at, "L = +-R^T of the RQ decomposition: " + show(fq, 5))
    elif not contains(bad, RT) or bad.op == "call" and bad.args[0] in ("numpy.abs", "builtins.abs", "numpy.absolute", "numpy.fabs", "numpy.sign") and len(bad.args) == 2 and RT in branches(bad.args[1]) \
            or bad.op == "bin" and bad.args[0] == "/" and RT in branches(bad.args[1]) and contains(bad.args[2], RT) and not contains(bad.args[2], lambda y: y.op == "call" and last(y.args[0]) in ("sign", "copysign")):
        ctx.bad("transform@factor", at, "L = +-R^T of the RQ decomposition: " + show(fq, 5))
    else:
        ctx.und("transform@factor", at, show(fq, 5))
    A = rq.args[1]
    EG = {x for x in walk(A) if x.op == "call" and last(x.args[0]) in ("eigh", "eig")}
    if len(EG) != 1:
        ctx.und("transform@eigen", at, show(A, 6))
        return
    eg = list(EG)[0]
    ev, evec = sub(eg, const(0)), sub(eg, const(1))
    # selection of eigenvalues and eigenvectors
    V = D = None
    t2 = subst(A, {ev: sym("#ev"), evec: sym("#evec")})
    dv, o1 = selection(t2, sym("#ev"), False)
    vv, o2 = selection(t2, sym("#evec"), True)
    if o1 is None or o2 is None:
        ctx.und("transform@select", at, show(t2, 6))
        return
    rows = [o for o in o2 if o[0] == "rows"]
    if rows:
        ctx.bad("transform@select", at, "rows of the matrix of eigenvectors are selected or reordered, not its columns: " + show(vv, 4))
        return
    ctx.req(o1 == o2, "transform@select", at, "the same eigenvalues and eigenvectors (columns) are kept, in the same order: %s / %s" % (show(dv, 4), show(vv, 4)))
    if o1 != o2:
        return
    cuts = [o[1] for o in o1 if o[0] == "cut"]
    if len(cuts) != 1 or o1[0][0] != "cut":
        ctx.und("transform@select", at, show(dv, 5))
        return
    s1 = cuts[0]
    t3 = subst(t2, {dv: sym("#D"), vv: sym("#V")})
    N, K = attr(MO, "size"), sym("#k")
    ats = {sym("#D"): Arr((K,), lambda i: mk("sub", sym("#D"), i[0])), sym("#V"): Arr((N, K), lambda i: mk("sub", mk("sub", sym("#V"), i[0]), i[1])),
           COV: Arr((N, N), lambda i: mk("sub", mk("sub", COV, i[0]), i[1])), N: Arr((), lambda i: N)}
    c2 = eg.args[1]
    eyes = [x for x in walk(c2) if x.op in ("store", "call") and contains(x, lambda y: y.op == "call" and last(y.args[0]) in ("eye", "identity"))]
    Ms = [x for x in eyes if x.op == "store"]
    if not Ms:
        ctx.und("transform@center", at, show(c2, 6))
        return
    Mt = Ms[0]
    ix = Ix(ats)
    try:
        a = ix.ev(Mt)
        i = mk("tvf", 0)
        z, o = mk("tvf", 1), None
        col0 = ix.norm(a.fn([i, const(0)]))
        ok = col0 is ix.norm(mk("un", "-", mk("sub", mk("sub", COV, i), const(0))))
        ctx.req(ok, "center@first", at, "first column of M is minus the means (first column of the moment covariance): " + show(col0, 5))
        col2 = ix.norm(a.fn([i, const(2)]))
        ctx.req(col2 is ix.norm(mk("DELTA", *sorted((i, const(2)), key=repr))) or col2 is ix.norm(Ix({N: ats[N]}).ev(term("np.eye(n)", n=N)).fn([i, const(2)])), "center@rest", at, "other columns of M are those of the identity: " + show(col2, 5))
    except Unk as e:
        st = [x.args[2] for x in Ms]
        half = [x for y in st for x in walk(y) if is_const(x) and isinstance(x.args[0], (int, float)) and not isinstance(x.args[0], bool)]
        prod = [y for y in st if not (y.op == "un" and y.args[0] == "-" and y.args[1].op == "sub" and y.args[1].args[0] is COV)]
        if len(st) == 1 and prod and prod[0].op == "bin" and any(is_const(z) and z.args[0] not in (1, -1) for z in prod[0].args[1:]):
            ctx.bad("center@first", at, "first column of M is minus the means: " + show(prod[0], 5))
        elif center_rows(ctx, at, Ix(ats), Mt, COV):
            pass
        else:
            ctx.und("center@first", at, str(e)[:200])
    MM = sym("#M")
    ats[MM] = Arr((N, N), lambda i: mk("sub", mk("sub", MM, i[0]), i[1]))
    ix = Ix(ats)
    same(ctx, "center@cov", at, ix, subst(c2, {Mt: MM}), term("M @ C @ M.T", M=MM, C=COV), "eigenvalues of the centred covariance M C M^T")
    ix = Ix(ats)
    same(ctx, "transform@matrix", at, ix, subst(t3, {Mt: MM}), term("(M.T @ V) * (1 / np.sqrt(D))[None, :]", M=MM, V=sym("#V"), D=sym("#D")), "decomposed matrix M^T V D^(-1/2), so that L C L^T = I")
    # threshold for a given tolerance
    th = s1.args[0]
    t = subst(th, {cmpop("is", sym("tol"), NONE): FALSE})
    ctx.req(s1.args[1] is NONE, "threshold@largest", at, "the largest eigenvalues are kept: " + show(s1, 3))
    if t.op == "call" and last(t.args[0]) == "argmax":
        ctx.req(t.args[1] is cmpop("<", sym("tol"), sym("#ev")) or t.args[1] is cmpop("<=", sym("tol"), sym("#ev")) or t.args[1] is cmpop("<", sym("tol"), ev), "threshold@tol", at, "eigenvalues above the tolerance are kept: " + show(t, 4))
    elif t.op == "call" and last(t.args[0]) == "argmin" and t.args[1].op == "cmp":
        tl, evs = sym("tol"), (sym("#ev"), ev)
        good = any(t.args[1] in (cmpop("<=", q, tl), cmpop("<", q, tl)) for q in evs)
        wrong = any(t.args[1] in (cmpop("<", tl, q), cmpop("<=", tl, q)) for q in evs)
        ctx.req(good, "threshold@tol", at, "eigenvalues above the tolerance are kept: " + show(t, 4)) if good or wrong else ctx.und("threshold@tol", at, show(t, 4))
    elif t.op == "bin" and t.args[0] in ("+", "-") and t.args[1].op == "call" and last(t.args[1].args[0]) == "argmax" and is_const(t.args[2]) and t.args[2].args[0]:
        ctx.bad("threshold@tol", at, "eigenvalues above the tolerance are dropped or ones below it kept: " + show(t, 4))
    elif t.op == "call" and last(t.args[0]) in ("max", "maximum", "min", "minimum") and len(t.args) == 3 and any(is_const(a) and a.args[0] != 0 for a in t.args[1:]) and any(a.op == "call" and last(a.args[0]) == "argmax" for a in t.args[1:]):
        ctx.bad("threshold@tol", at, "eigenvalues above the tolerance are dropped or ones below it kept: " + show(t, 4))
    else:
        ctx.und("threshold@tol", at, show(t, 4))
    # without a tolerance: the smallest of the extrapolated eigenvalues
    t = subst(th, {cmpop("is", sym("tol"), NONE): TRUE})
    fx = [x for x in walk(t) if x.op == "sub" and x.args[0].op == "sub" and is_const(x.args[0].args[1], 1) and x.args[0].args[0].op == "call" and last(x.args[0].args[0].args[0]) == "detect_treshold_slope_change"]
    for x in fx:
        if num(x.args[1]) is not None:
            ctx.req(num(x.args[1]) == 0, "threshold@slope", at, "eigenvalues above the smallest extrapolated one are kept: " + show(x, 4))


def center_rows(ctx, at, ix, Mt, COV):
    """first column of the centring matrix row by row"""
    try:
        a = ix.ev(Mt)
        c = lambda i: mk("sub", mk("sub", COV, const(i)), const(0))
        r0, r3 = ix.norm(a.fn([const(0), const(0)])), ix.norm(a.fn([const(3), const(0)]))
    except Unk:
        return False
    ok = r3 is ix.norm(mk("un", "-", c(3)))
    ctx.req(ok and (num(r0) in (1, -1) or r0 in (ix.norm(mk("un", "-", c(0))), ix.norm(c(0)))), "center@first", at, "first column of M is minus the means: %s, …, %s" % (show(r0, 4), show(r3, 4)))
    return True


def selection(t, root, matrix):
    """slices and reversals applied to a vector / to the columns of a matrix: (last value, [("cut", slice) | ("rev",) | ("rows",)])"""
    cur, ops = root, []
    REV = mk("slice", NONE, NONE, const(-1))
    isrev = lambda k: k.op == "slice" and k.args[0] is NONE and k.args[1] is NONE and num(k.args[2]) == -1
    while True:
        nxt = []
        for x in walk(t):
            if x.op == "sub" and x.args[0] is cur:
                k = x.args[1]
                if matrix:
                    if k.op == "tuple" and len(k.args) == 2 and all(z.op == "slice" for z in k.args):
                        if k.args[0] is not FULL:
                            nxt.append((x, ("rows",)))
                        elif isrev(k.args[1]):
                            nxt.append((x, ("rev",)))
                        elif k.args[1] is not FULL:
                            nxt.append((x, ("cut", k.args[1])))
                    elif k.op == "slice":
                        nxt.append((x, ("rows",)))
                elif k.op == "slice":
                    nxt.append((x, ("rev",) if isrev(k) else ("cut", k)))
            elif x.op == "call" and x.args[0] in ("numpy.flip", "numpy.fliplr", "numpy.flipud") and x.args[1] is cur:
                ax = [y.args[1] for y in x.args[2:] if isinstance(y, T) and y.op == "kw" and y.args[0] == "axis"] + [y for y in x.args[2:] if y.op != "kw"]
                if matrix:
                    col = x.args[0] == "numpy.fliplr" or bool(ax) and num(ax[0]) in (1, -1)
                    nxt.append((x, ("rev",) if col else ("rows",)))
                else:
                    nxt.append((x, ("rev",)))
        if not nxt:
            return cur, ops
        if len(nxt) > 1:
            return cur, None
        cur, o = nxt[0]
        ops.append(o)


@prop("D02", "")
def d02_construct(ctx):
    f = ctx.method("mlmc.estimator.Estimate", "construct_density")
    r = ctx.run_method("mlmc.estimator.Estimate", "construct_density", opaque={"estimate_mean", "covariance", "moments", "construct_ortogonal_moments", "estimate_density_minimize"})
    at = f.full
    QT, MF = attr(SELF, "_quantity"), attr(SELF, "_moments_fn")
    em = calls(r, "estimate_mean")
    cv, mm = calls(r, "covariance"), calls(r, "moments")
    co = calls(r, "construct_ortogonal_moments")
    if not cv or not co or not mm or len(em) < 2:
        raise AnchorError("parts of " + at)
    ctx.req(cv[0].args[0] is QT and cv[0].args[1] is MF, "density@cov", at, "covariance of the moments of the quantity")
    ctx.req(contains(co[0].args[1], cv[0].result) and co[0].args[1].op == "attr" and co[0].args[1].args[1] == "mean" and co[0].args[0] is MF, "density@orthogonal", at, "moments orthogonal with respect to the estimated mean covariance: " + show(co[0].args[1], 5))
    OM = sub(co[0].result, const(0))
    ctx.req(mm[0].args[0] is QT and mm[0].args[1] is OM, "density@moments", at, "means of the orthogonal moments of the quantity: " + ", ".join(show(a, 3) for a in mm[0].args))
    nw = [e for e in r.events if e.kind == "new" and e.name.endswith("SimpleDistribution")]
    if not nw:
        ctx.und("density@distribution", at, "SimpleDistribution not created")
        return
    e = nw[0]
    kw = e.kw if isinstance(e.kw, dict) else dict(e.kw)
    a = list(e.args)
    mo = kw.get("moments_obj", a[0] if a else NONE)
    md = r.eng.deref(kw.get("moment_data", a[1] if len(a) > 1 else NONE), e.st)
    dm = kw.get("domain", a[2] if len(a) > 2 else NONE)
    ctx.req(mo is OM, "density@distribution", e.where(), "distribution of the orthogonal moments: " + show(mo, 3))
    ctx.req(dm is attr(OM, "domain") or dm is NONE or dm is attr(MF, "domain"), "density@domain", e.where(), "on the domain of the moments: " + show(dm, 3))
    mean = [x for x in walk(md) if x.op == "attr" and x.args[1] == "mean" and contains(x, mm[0].result)]
    S = sym("#S")
    if not mean:
        ctx.bad("density@data", e.where(), "means of the orthogonal moments are not used: " + show(md, 5))
        return
    ix = Ix({mean[0]: Arr((S,), lambda i: mk("sub", sym("#mean"), i[0])), attr(OM, "size"): Arr((), lambda i: S)})
    vr = [x for x in walk(md) if x.op == "attr" and x.args[1] == "var" and contains(x, mm[0].result)]
    if vr:
        ix.atoms[vr[0]] = Arr((S,), lambda i: mk("sub", sym("#var"), i[0]))
    try:
        g = ix.ev(md)
        i = mk("tvf", 0)
        ok = g.rank == 2 and ix.norm(g.fn([i, const(0)])) is ix.norm(mk("sub", sym("#mean"), i))
        ctx.req(ok, "density@data", e.where(), "first column are the means: " + show(md, 5))
        v = ix.norm(g.fn([i, const(1)]))
        ctx.req(num(v) == 1 or v is ix.norm(mk("sub", sym("#var"), i)), "density@errors", e.where(), "second column are variances (unit ones): " + show(v, 4))
    except Unk as x:
        ctx.und("density@data", e.where(), str(x)[:200])
    mn = calls(r, "estimate_density_minimize")
    ctx.req(bool(mn), "density@estimated", at, "density is estimated")


# ---------------------------------------------------------------------------------------------------- D03
@prop("D03", "Integrands, intervals, storing positions and quadrature sums are extracted as terms and compared with the definitions, as rational normal forms and array denotations.",
      ["scipy quadrature is accurate"])
def d03_exact(ctx):
    """integrals of a known density: exact and semi-exact moments and covariances, divergence and distance"""
    MO, RHO = sym("moments_fn"), sym("density")
    dm = attr(MO, "domain")
    for nm in ("compute_exact_moments", "compute_exact_cov"):
        f = ctx.prog.func(MOD + nm)
        r = ctx.run(f, None)
        at = f.full
        qd = [e for e in r.events if e.kind == "call" and last(e.name) == "quad"]
        if len(qd) != 1:
            ctx.und("integral@" + nm, at, "%d integrals" % len(qd))
            continue
        e = qd[0]
        ctx.req(e.args[1] is sub(dm, const(0)) and e.args[2] is sub(dm, const(1)), "interval@" + nm, e.where(), "over the domain: %s, %s" % (show(e.args[1], 3), show(e.args[2], 3)))
        X = sym("#x")
        n0 = len(r.eng.events)
        kw = e.kw if isinstance(e.kw, dict) else dict(e.kw)
        more = kw.get("args", e.args[3] if len(e.args) > 3 else None)
        more = r.eng.deref(more, e.st) if more is not None else None
        more = list(more.args) if more is not None and more.op in ("tuple", "list") else [more] if more is not None else []
        accuracy(ctx, nm, e)
        v = r.eng.deref(r.eng.call(e.args[0], [X] + more, {}, e.st, None), e.st)
        rho = [x for x in walk(v) if x.op == "call" and x.args[0] == "apply" and x.args[1] is RHO]
        loops = [l[0] for l in e.loops]
        n = Norm()
        fac = n(mk("bin", "/", v, rho[0])) if rho else None
        if not rho:
            ctx.bad("integrand@" + nm, e.where(), "density is not in the integrand: " + show(v, 5)) if not contains(v, RHO) else ctx.und("integrand@" + nm, e.where(), show(v, 5))
        else:
            ctx.req(contains(rho[0], X), "argument@" + nm, e.where(), "density at the integration variable")
            if nm == "compute_exact_moments":
                ev = [x for x in walk(fac) if x.op == "call" and last(x.args[0]) == "eval"]
                ok = len(loops) == 1 and fac.op == "call" and last(fac.args[0]) == "eval" and contains(fac, loops[0]) and contains(fac, X)
                ctx.req(ok, "integrand@" + nm, e.where(), "moment i times the density: " + show(v, 5))
            else:
                cnt = list(loops)
                if len(loops) == 2:
                    cnt += [x.args[1] for x in walk(v) if x.op == "sub" and n(x.args[1]) is n(mk("bin", "+", loops[0], loops[1]))]
                fs = [x for x in walk(v) if x.op == "sub" and x.args[1] in cnt]
                ok = len(loops) == 2 and len({x.args[1] for x in fs}) == 2 and n(mk("bin", "*", fs[0], fs[1])) is fac and all(contains(x, X) and contains(x, lambda y: y.op == "call" and last(y.args[0]) == "eval_all") for x in fs)
                if len(fs) < 2:
                    ctx.bad("integrand@" + nm, e.where(), "product of moments i and j times the density expected: " + show(v, 5))
                else:
                    ctx.req(ok, "integrand@" + nm, e.where(), "moments i and j times the density: " + show(v, 5))
        res = r.eng.deref(r.value, r.state)
        I = sub(e.result, const(0))
        if res.op == "bin" and res.args[0] in ("+", "-", "*", "/"):
            ctx.bad("stored@" + nm, at, "the integrals are changed before they are returned: " + show(res, 3))
            continue
        st = [x for x in r.events if x.kind == "setitem" and x.args[-1] is I]
        if nm == "compute_exact_moments":
            ok = len(st) == 1 and st[0].args[0] is loops[0]
            lst = res
            while lst.op == "call" and last(lst.args[0]) in ("array", "asarray", "list") and len(lst.args) >= 2:
                lst = lst.args[1]
            if not st and lst.op == "cat" and len(lst.args) == 1 and lst.args[0].op == "each":
                i_, d_, part, g_ = lst.args[0].args
                ctx.req(g_ is TRUE and part.op == "list" and len(part.args) == 1 and part.args[0] is subst(I, {loops[0]: i_}) and n(d_) is n(attr(MO, "size")), "stored@" + nm, at, "integral i stored at i: " + show(lst, 5))
                continue
            ctx.req(ok, "stored@" + nm, at, "integral i stored at i") if st else ctx.und("stored@" + nm, at, show(res, 5))
        else:
            ks = set()
            for x in st:
                k = x.args[0]
                rc = x.recv
                if rc is not None and rc.op == "mu" and rc in r.eng.loopinfo:
                    rc = r.eng.loopinfo[rc][0]
                if k.op == "tuple":
                    ks.add(tuple(k.args))
                elif rc is not None and rc.op == "sub":
                    ks.add((rc.args[1], k))
            if len(loops) == 2 and len(st) >= 1 and ks:
                i, j = loops
                if any(n(x) is n(mk("bin", "+", i, j)) for q in ks for x in q):
                    ks = {tuple(j if n(x) is n(mk("bin", "+", i, j)) else x for x in q) for q in ks}
                    d0, d1 = e.loops[0][1], n(mk("bin", "-", attr(MO, "size"), i))
                    ctx.req(ks == {(i, j), (j, i)}, "stored@" + nm, at, "integral of moments i, j stored symmetrically at (i, j), (j, i)")
                    ctx.req(n(d0) is n(attr(MO, "size")) and n(e.loops[1][1]) is d1, "all@" + nm, at, "all pairs of moments: %s, %s" % (show(d0, 3), show(e.loops[1][1], 3)))
                    continue
                ctx.req(ks == {(i, j), (j, i)}, "stored@" + nm, at, "integral of moments i, j stored symmetrically at (i, j), (j, i)") if all(len(q) == 2 for q in ks) else ctx.und("stored@" + nm, at, "?")
                d1, d2 = e.loops[0][1], e.loops[1][1]
                ctx.req(n(d1) is n(attr(MO, "size")) and n(d2) in (n(mk("bin", "+", i, const(1))), n(attr(MO, "size"))), "all@" + nm, at, "all pairs of moments: %s, %s" % (show(d1, 3), show(d2, 3)))
            else:
                ctx.und("stored@" + nm, at, "%d stores" % len(st))
    for nm in ("compute_semiexact_moments", "compute_semiexact_cov"):
        f = ctx.prog.func(MOD + nm)
        r = ctx.run(f, None)
        at = f.full
        v = r.eng.deref(r.value, r.state)
        ev = [x for x in walk(v) if x.op == "call" and last(x.args[0]) == "eval_all"]
        qp = [x for x in walk(v) if x.op == "call" and last(x.args[0]) in ("flatten", "ravel")]
        rho = [x for x in walk(v) if x.op == "call" and x.args[0] == "apply" and x.args[1] is RHO]
        ev = [x for x in ev if any(q in x.args for q in qp) or contains(x, lambda y: y.op == "call" and last(y.args[0]) in ("flatten", "ravel"))]
        if ev and rho and not any(x.op == "sub" and is_const(x.args[1], 1) and x.args[0].op == "call" and last(x.args[0].args[0]) == "leggauss" for x in walk(v)):
            ctx.bad("semiexact@" + nm, at, "sum over quadrature points without the weights: " + show(v, 5))
            continue
        if not ev or not rho or len(qp) < 2:
            ctx.und("semiexact@" + nm, at, show(v, 5))
            continue
        E, R = ev[0], rho[0]
        pts = [q for q in qp if q in set(walk(E))]
        wts = [q for q in qp if q not in set(walk(E)) and q not in set(walk(R))]
        if len(set(pts)) != 1 or len(set(wts)) != 1:
            ctx.und("semiexact@" + nm, at, "%d points, %d weights" % (len(set(pts)), len(set(wts))))
            continue
        ctx.req(pts[0] in set(walk(R)), "points@" + nm, at, "density and moments in the same points")
        flat(ctx, "quad@" + nm, at, pts[0], wts[0])
        ix = Ix({E: Arr((Q, M), lambda i: mk("sub", mk("sub", sym("#E"), i[0]), i[1])), R: Arr((Q,), lambda i: mk("sub", sym("#R"), i[0])), wts[0]: Arr((Q,), lambda i: mk("sub", sym("#W"), i[0]))})
        want = "(w * r) @ e" if nm.endswith("moments") else "(e.T * (w * r)) @ e"
        same(ctx, "semiexact@" + nm, at, ix, v, term(want, w=wts[0], r=R, e=E), "sum over quadrature points of weight * density * moments")
        qd = [e for e in r.events if e.kind == "call" and last(e.name) == "quad"]
        for e in qd:
            ctx.req(e.args[1] is sub(dm, const(0)) and e.args[2] is sub(dm, const(1)), "interval@" + nm, e.where(), "adaptive intervals of the domain: %s, %s" % (show(e.args[1], 3), show(e.args[2], 3)))


@prop("D03", "")
def d03_distance(ctx):
    for nm in ("KL_divergence", "L2_distance"):
        f = ctx.prog.func(MOD + nm)
        r = ctx.run(f, None)
        at = f.full
        ps = f.params()
        qd = [e for e in r.events if e.kind == "call" and last(e.name) == "quad"]
        if len(qd) != 1:
            ctx.und("integral@" + nm, at, "%d integrals" % len(qd))
            continue
        e = qd[0]
        ctx.req(e.args[1] is sym(ps[2]) and e.args[2] is sym(ps[3]), "interval@" + nm, e.where(), "over the given interval: %s, %s" % (show(e.args[1], 3), show(e.args[2], 3)))
        X = sym("#x")
        v = r.eng.deref(r.eng.call(e.args[0], [X], {}, r.state, None), r.state)
        pq = {}
        for k, p in (("p", ps[0]), ("q", ps[1])):
            t = [x for x in walk(v) if x.op == "call" and x.args[0] == "apply" and x.args[1] is sym(p) and contains(x, X)]
            if t:
                pq[k] = t[0]
        if len(pq) != 2:
            ctx.und("integrand@" + nm, e.where(), show(v, 6))
            continue
        P_, Q_ = sym("#p"), sym("#qq")
        t = subst(v, {pq["p"]: P_, pq["q"]: Q_})
        want = term("p * np.log(p / q) - p + q", p=P_, q=Q_) if nm[0] == "K" else term("(p - q) ** 2", p=P_, q=Q_)
        if nm[0] == "K":
            alt = term("p * np.log(p / q)", p=P_, q=Q_)
        rg = {P_: (0.05, 2), Q_: (0.05, 2)}
        # small densities: both sides times 1e8 (absolute tolerance)
        sm = {P_: (1e-7, 9e-7), Q_: (1e-7, 9e-7)}
        sq = {P_: (0.2, 2), Q_: (1e-9, 9e-9)}
        big = lambda z: mk("bin", "*", z, const(1e8))
        accuracy(ctx, nm, e)
        try:
            eq = lambda w: numid.equal(t, w, rg) and (nm[0] != "K" or numid.equal(big(t), big(w), sm) and numid.equal(big(t), big(w), sq))
            ok = eq(want) or nm[0] == "K" and eq(alt)
            ctx.req(ok, "integrand@" + nm, e.where(), "%s: %s" % ("p log(p/q) - p + q" if nm[0] == "K" else "(p - q)^2", show(t, 6)))
        except numid.Open as x:
            ctx.und("integrand@" + nm, e.where(), str(x)[:200])
        res = r.eng.deref(r.value, r.state)
        I = e.result
        if nm[0] == "K":
            ctx.req(contains(res, sub(I, const(0))) and not contains(res, lambda x: x.op == "call" and last(x.args[0]) == "sqrt"), "value@" + nm, at, show(subst(res, {I: sym("I")}), 4))
        else:
            a = subst(res, {I: sym("I")})
            ok = show(a) in ("numpy.sqrt(I)[0]", "numpy.sqrt(I[0])", "math.sqrt(I[0])", "(I[0] ** 0.5)")
            if not ok:
                Y = sym("#Y")
                ends = {sym(ps[2]): (0.0, 1.0), sym(ps[3]): (2.5, 5.0), Y: (0.3, 3.0)}
                try:
                    b_ = subst(res, {sub(mk("call", "numpy.sqrt", I), const(0)): mk("call", "numpy.sqrt", Y), sub(I, const(0)): Y})
                    if not contains(b_, I):
                        ctx.req(numid.equal(b_, mk("call", "numpy.sqrt", Y), ends), "value@" + nm, at, "square root of the integral: " + show(a, 4))
                        continue
                except numid.Open:
                    pass
            ctx.req(ok, "value@" + nm, at, "square root of the integral: " + show(a, 4)) if ok or not contains(a, lambda x: x.op == "call" and last(x.args[0]) == "sqrt") else ctx.und("value@" + nm, at, show(a, 4))


def accuracy(ctx, nm, e):
    """quadrature limits that make the integral inaccurate"""
    kw = e.kw if isinstance(e.kw, dict) else dict(e.kw)
    for k, ok, what in (("limit", lambda z: z >= 10, "number of subintervals"), ("epsabs", lambda z: z <= 1e-4, "absolute tolerance"), ("epsrel", lambda z: z <= 1e-3, "relative tolerance")):
        if k in kw and num(kw[k]) is not None:
            ctx.req(ok(num(kw[k])), "accuracy@" + nm, e.where(), "%s of the quadrature: %s" % (what, show(kw[k])))


@prop("D01", "")
def d01_moments(ctx):
    """moments of the density are the given ones, at the very points asked for"""
    f = ctx.method(CLS, "eval_moments")
    r = ctx.run_method(CLS, "eval_moments")
    x = sym(first_param(f))
    ev = [e for e in r.events if e.kind == "call" and last(e.name) == "eval_all"]
    if len(ev) != 1 or not ev[0].args and not ev[0].kw:
        ctx.und("moments@at", f.full, "%d evaluations" % len(ev))
        return
    kw = ev[0].kw if isinstance(ev[0].kw, dict) else dict(ev[0].kw)
    a = ev[0].args[0] if ev[0].args else kw.get("value", NONE)
    while a.op == "call" and last(a.args[0]) in ("atleast_1d", "asarray", "array", "asanyarray") and len(a.args) == 2:
        a = a.args[1]
    ctx.req(a is x, "moments@at", ev[0].where(), "moments at the given points: " + show(a, 4))


# ------------------------------------------------------------------------------------------- the earlier density class
MOD4 = "mlmc.tool.distribution."
MM, LS, PC, SP = attr(SELF, "_moment_means"), attr(SELF, "_last_solved_multipliers"), attr(SELF, "_penalty_coef"), attr(SELF, "_stab_penalty")
RHO_ = "w * np.exp(-np.sum(phi * lam / sig, axis=1))"
ENDS = "np.maximum(np.sum(epd * lam, axis=1), 0)"
FUN_ = "(np.sum(mm * lam / sig) + np.sum(%s))" % RHO_
WANT4 = {
    "_calculate_functional": ("%s + np.abs(%s) * pc * np.sum(%s ** 2) + 0.5 * sp * np.sum((ls - lam) ** 2)" % (FUN_, FUN_, ENDS),
                              "sum_i mu_i lam_i / sig_i + integral of the density, its penalty for growth at the ends and for the distance from the last solution"),
    "_calculate_gradient": ("mm / sig - np.sum(phi * (%s)[:, None], axis=0) / sig + np.abs(%s) * pc * 2 * (%s @ epd) + sp * (lam - ls)" % (RHO_, FUN_, ENDS),
                            "gradient of the functional with the factor of the penalty held"),
}


def with_class(fun, mod, cls):
    def run(ctx):
        global MOD, CLS
        old = MOD, CLS
        MOD, CLS = mod, cls
        try:
            fun(ctx)
        finally:
            MOD, CLS = old
    return run


for _f in (d01_init, d01_density, d01_quadrature, d01_cdf, d01_moments, d03_distance):
    prop("D04", "The earlier density class is analysed by the rules of D01 and D03: array denotations of density, functional, gradient and quadrature, value flow of cdf and distances, and the normalisation of the fitted multipliers." if _f is d01_init else "",
         ["scipy quadrature and minimisation are accurate", "the first moment function is 1"] if _f is d01_init else [])(with_class(_f, MOD4, MOD4 + "Distribution"))


def whole_range(t):
    """the multipliers of the last solution, taken as many as the current ones"""
    t = subst(t, {mk("slice", NONE, mk("dim", LS), NONE): FULL, mk("slice", const(0), mk("dim", LS), NONE): FULL})
    for _ in range(4):
        m = {x: x.args[2] for x in walk(t) if x.op == "store" and x.args[1] is FULL}
        m.update({x: x.args[0] for x in walk(t) if x.op == "sub" and x.args[1] is FULL})
        if not m:
            break
        t = subst(t, m)
    return t


@prop("D04", "")
def d04_functional(ctx):
    cls = MOD4 + "Distribution"
    one = lambda a, s: Arr((s,), lambda i: mk("sub", a, i[0]))
    sc = lambda a: Arr((), lambda i: a)
    env = dict(phi=PHI, lam=LAM, sig=SIG, w=W, mm=MM, epd=EPD, ls=LS, pc=PC, sp=SP)
    for m, (want, what) in WANT4.items():
        f = ctx.method(cls, m)
        r = ctx.run_method(cls, m, opaque={"eval_moments", "_update_quadrature"}, args={first_param(f): LAM})
        ix = base_ix({MM: one(MM, M), LS: one(LS, M), PC: sc(PC), SP: sc(SP),
                      PHI: Arr((Q, M), lambda i: const(1) if is_const(i[1], 0) else mk("sub", mk("sub", PHI, i[0]), i[1]))})
        same(ctx, "functional@" + m, f.full, ix, whole_range(r.eng.deref(r.value, r.state)), term(want, **env), what)
        up = calls(r, "_update_quadrature")
        ctx.req(bool(up) and (up[0].args[-1] is LAM or kwarg(up[0], "multipliers", 0) is LAM) and not conds(up[0]), "quadrature@" + m, f.full, "quadrature is updated for the current multipliers before use")


@prop("D04", "")
def d04_normal(ctx):
    """the fitted density has unit mass"""
    cls = MOD4 + "Distribution"
    f = ctx.method(cls, "estimate_density_minimize")
    r = ctx.run_method(cls, "estimate_density_minimize", opaque={"eval_moments", "_update_quadrature", "_initialize_params", "_calculate_exact_moment", "extend_size"} | set(WANT4) | {"_calculate_jacobian_matrix"})
    ex = calls(r, "_calculate_exact_moment")
    lam = heap(r, SELF, "multipliers")
    for e in r.events:
        if e.kind == "call" and last(e.name) == "minimize":
            kw = e.kw if isinstance(e.kw, dict) else dict(e.kw)
            for m, t in (("_calculate_functional", e.args[0] if e.args else kw.get("fun")), ("_calculate_gradient", kw.get("jac")), ("_calculate_jacobian_matrix", kw.get("hess"))):
                if t is not None and t.op == "bound" and t.args[0] is SELF:
                    ctx.req(t.args[-1] == m, "minimize@" + m, e.where(), "given to the minimisation: " + show(t, 3))
            g = [x for x in calls(r, "extend_size") if x.loops and e.loops and x.loops[-1][0] is e.loops[-1][0]]
            if e.loops and not any(precedes(x, e) for x in g):
                ctx.bad("minimize@size", e.where(), "NOT SATISFIED: every step minimises with the multipliers of its own size")
    if lam is None:
        ctx.bad("minimize@result", f.full, "NOT SATISFIED: multipliers of the minimum are not set")
        return
    if not contains(lam, lambda x: x.op == "attr" and x.args[1] == "x"):
        ctx.bad("minimize@result", f.full, "NOT SATISFIED: multipliers of the minimum are not used")
        return
    if len(ex) != 1 or lam is None or lam.op not in ("store", "bin", "ite", "attr"):
        ctx.und("normalize@mass", f.full, show(lam, 5) if lam is not None else "multipliers not set")
        return
    I = ex[0].result
    m0 = sub(I, const(0))
    k = kwarg(ex[0], "m", 1)
    if not contains(lam, m0):
        ctx.bad("normalize@mass", f.full, "NOT SATISFIED: the mass of the density does not enter its multipliers: " + show(lam, 5))
        return
    if lam.op != "store":
        ctx.bad("normalize@mass", f.full, "NOT SATISFIED: the density has unit mass; the mass enters as %s" % show(lam, 5)) if lam.op == "bin" and lam.args[0] in ("*", "/", "-") else ctx.und("normalize@mass", f.full, show(lam, 5))
        return
    base, kk, v = lam.args
    A, B, S = sym("#a"), sym("#m0"), sym("#s")
    err0 = {sub(SIG, const(0)): S, sub(attr(SELF, "moment_errs"), const(0)): S}
    try:
        ok = numid.equal(subst(v, {sub(base, const(0)): A, m0: B, **err0}), term("a + np.log(b) * s", a=A, b=B, s=S), {A: (-1, 1), B: (0.5, 2), S: (0.2, 3)})
    except numid.Open as x:
        ctx.und("normalize@mass", f.full, str(x)[:200])
        return
    ctx.req(ok and is_const(kk, 0) and (k is NONE or is_const(k, 0)), "normalize@mass", f.full, "log of the mass, scaled by sig_0, is added to the first multiplier: " + show(v, 4))
    ctx.req(kwarg(ex[0], "multipliers", 0) is base, "normalize@multipliers", f.full, "mass of the resulting density: " + show(kwarg(ex[0], "multipliers", 0), 4))


@prop("D04", "")
def d04_extend(ctx):
    """enlarging the approximation keeps the multipliers found and uses moments and errors of the new size"""
    cls = MOD4 + "Distribution"
    f = ctx.method(cls, "extend_size")
    r = ctx.run_method(cls, "extend_size", opaque={"eval_moments", "_update_quadrature", "end_point_derivatives"})
    n = sym(first_param(f))
    for a, src in (("_moment_means", "moment_means"), ("_moment_errs", "moment_errs")):
        v = heap(r, SELF, a)
        want = sub(attr(SELF, src), mk("slice", NONE, n, NONE))
        if v is None:
            ctx.bad("extend@" + a, f.full, "NOT SATISFIED: %s of the new size" % a)
        elif v is want or v.op == "sub" and v.args[0] is attr(SELF, src) and v.args[1].op == "slice":
            ctx.req(v is want, "extend@" + a, f.full, "first new_size of %s: %s" % (src, show(v, 4)))
        else:
            ctx.und("extend@" + a, f.full, show(v, 4))
    v = heap(r, SELF, "approx_size")
    ctx.req(v is n, "extend@size", f.full, "number of moments used is the new size") if v is not None else ctx.bad("extend@size", f.full, "NOT SATISFIED: number of moments used is the new size")
    L = attr(SELF, "multipliers")
    lam = heap(r, SELF, "multipliers")
    if lam is None:
        ctx.bad("extend@multipliers", f.full, "NOT SATISFIED: multipliers of the new size")
    elif lam.op == "store" and lam.args[0].op == "call" and last(lam.args[0].args[0]) == "zeros":
        k = lam.args[1]
        ok = k.op == "slice" and k.args[0] is NONE and k.args[2] is NONE and (k.args[1].op == "dim" and k.args[1].args[0] is L or k.args[1] is attr(SELF, "approx_size"))
        ctx.req(ok and lam.args[2] is L, "extend@multipliers", f.full, "the multipliers found come first: " + show(lam, 5)) if k.op == "slice" else ctx.und("extend@multipliers", f.full, show(lam, 5))
    elif not contains(lam, L):
        ctx.bad("extend@multipliers", f.full, "NOT SATISFIED: the multipliers found are kept: " + show(lam, 4))
    elif lam.op == "call" and last(lam.args[0]) in ("concatenate", "append", "hstack", "r_"):
        p = lam.args[1:] if last(lam.args[0]) == "append" else lam.args[1].args if lam.args[1].op in ("tuple", "list") else ()
        p = [x for x in p if x.op != "kw"]
        if len(p) == 2 and p[1].op == "call" and last(p[1].args[0]) == "zeros":
            ctx.req(p[0] is L, "extend@multipliers", f.full, "the multipliers found come first: " + show(lam, 5))
        else:
            ctx.bad("extend@multipliers", f.full, "NOT SATISFIED: the multipliers found come first: " + show(lam, 5)) if len(p) == 2 and p[1] is L else ctx.und("extend@multipliers", f.full, show(lam, 5))
    else:
        ctx.und("extend@multipliers", f.full, show(lam, 5))
    up = calls(r, "_update_quadrature")
    v = heap(r, SELF, "_last_solved_multipliers")
    ctx.req(v is L, "extend@last", f.full, "the last solution: " + show(v, 3)) if v is not None else None
    ctx.req(bool(up) and is_const(kwarg(up[0], "force", 1)) and kwarg(up[0], "force", 1).args[0] is True, "extend@quadrature", f.full, "quadrature is renewed for the new size")


@prop("D04", "")
def d04_ends(ctx):
    """differences of the moments at both ends, positive for growth of the exponent towards the outside"""
    cls = MOD4 + "Distribution"
    f = ctx.method(cls, "end_point_derivatives")
    r = ctx.run_method(cls, "end_point_derivatives", opaque={"eval_moments"})
    v = r.eng.deref(r.value, r.state)
    dec = attr(SELF, "decay_penalty")
    v = subst(v, {sub(dec, const(0)): TRUE, sub(dec, const(1)): TRUE})
    v = leaves_one(v)
    st_ = [x for x in walk(v) if x.op == "call" and last(x.args[0]) in ("stack", "vstack", "array") and x.args[1].op in ("tuple", "list") and len(x.args[1].args) == 2]
    if len(st_) != 1:
        ctx.und("ends@difference", f.full, show(v, 5))
        return
    A, B = sym("#d0"), sym("#d1")
    ROW = sym("#row")
    for k, side in ((0, "left"), (1, "right")):
        t = st_[0].args[1].args[k]
        whole = subst(v, {st_[0]: ROW, SIG: const(1)})
        whole = subst(whole, {x: x.args[0] for x in walk(whole) if x.op == "sub" and x.args[0] is const(1)})
        t = subst(whole, {ROW: t})
        t = subst(t, {x: x.args[0] for x in walk(t) if x.op == "sub" and x.args[1].op in ("tuple", "const") and any(e.result is y for e in calls(r, "eval_moments") for y in walk(x.args[0]))})
        t = subst(t, {e.result: sqr(kwarg(e, "x", 0)) for e in calls(r, "eval_moments")})
        t = subst(t, {sub(DOM, const(0)): A, sub(DOM, const(1)): B})
        # derivative of x^2, compared to two decimal places of the difference quotient
        try:
            got = numid.value(t, {A: -1.5, B: 2.5})
        except (numid.Open, TypeError, ZeroDivisionError) as x:
            ctx.und("ends@" + side, f.full, str(x)[:200])
            continue
        want = -3.0 if k == 0 else -5.0
        ctx.req(abs(got - want) < 1e-2, "ends@" + side, f.full, "growth of the moments towards the %s end: %g for x^2 on [-1.5, 2.5]" % (side, got))


def leaves_one(t):
    for _ in range(6):
        m = {x: x.args[1] if x.args[0] is TRUE else x.args[2] for x in walk(t) if x.op == "ite" and is_const(x.args[0])}
        if not m:
            return t
        t = subst(t, m)
    return t


def sqr(a):
    return mk("bin", "*", a, a)
