"""Random fields: composition of fields over regions, scaling of samples, covariance and its factor, spectra of Fourier fields."""
import itertools
from rules.registry import prop
from rules.common import *
from sa.ixform import Ix, Arr, Unk, SizeErr, fresh, ONE
from sa.repo import AnchorError
from sa import numid

MOD = "mlmc.random.correlated_field."
SELF = sym("self")
FULL = mk("slice", NONE, NONE, NONE)


def heap(r, obj, name):
    v = r.state.heap.get(("f", obj, name))
    return r.eng.deref(v, r.state) if v is not None else None


def peel(t):
    """drop conversions that keep the values"""
    while t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple", "numpy.asanyarray", "numpy.copy", "copy.copy") and len(t.args) >= 2:
        t = t.args[1]
    return t


# ---------------------------------------------------------------------------------------------------- R01
def grouping(f, region_ids, events):
    """(understood, problem) of a dictionary 'region -> positions' filled in a loop, by the cases of an old and a new region"""
    init, mu, upd, idx, dom = f.args
    K = sub(region_ids, idx)
    IN = mk("cmp", "in", K, mu)
    if not (init.op == "dict" and not init.args) or dom is not dim(region_ids) or not contains(upd, IN):
        return None
    old, new = [subst(upd, {IN: b}) for b in (TRUE, FALSE)]
    item = sub(mu, K)

    def listed(x):
        if x.op == "list":
            return list(x.args)
        if x.op == "cat":
            out = []
            for y in x.args:
                z = listed(y.args[0] if y.op == "spread" else y)
                if z is None:
                    return None
                out += z
            return out
        return [item] if x is item else None
    if new.op != "store" or new.args[0] is not mu or new.args[1] is not K:
        return None
    a = listed(new.args[2])
    if old is mu:
        ev = [e for e in events if e.kind == "call" and e.recv is item and e.loops and e.loops[-1][0] is idx]
        if any(last(e.name) not in ("append",) for e in ev) or any(contains(c, K) and c is not IN for e in ev for c, _ in conds(e)):
            return None
        b = [item] + [e.args[0] for e in ev]
    elif old.op == "store" and old.args[0] is mu and old.args[1] is K:
        b = listed(old.args[2])
    else:
        return None
    if a is None or b is None:
        return None
    if a != [idx]:
        return ("the first point of a region is listed as %s" % [show(x, 4) for x in a],)
    if b != [item, idx]:
        return ("a further point of a region gives the list %s" % [show(x, 4) for x in b],)
    return (None,)


def group_list(t, region_ids, events=()):
    """t as 'list of positions of points in region X': returns (X, problem) ; None when not understood"""
    t = peel(t)
    if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "spread":
        return group_list(t.args[0].args[0], region_ids, events)
    if t.op == "ite":
        c, a, b = t.args
        for p, q in ((a, b), (b, a)):
            if q.op in ("list", "tuple") and not q.args:
                return group_list(p, region_ids, events)
        return None
    D, key = (t.args[1], t.args[2]) if t.op == "call" and t.args[0] == ".get" and len(t.args) in (3, 4) else t.args if t.op == "sub" else (None, None)
    if D is not None and isinstance(D, T) and D.op == "call" and D.args[0] == "collections.defaultdict" and len(D.args) == 2 and show(D.args[1]) == "ext('builtins.list')":
        ev = [e for e in events if e.kind == "call" and last(e.name) == "append" and e.recv is not None and e.recv.op == "sub" and e.recv.args[0] is D]
        if len(ev) != 1 or len(ev[0].loops) != 1 or ev[0].loops[0][1] is not dim(region_ids) or any(contains(c, ev[0].loops[0][0]) for c, _ in conds(ev[0])):
            return None
        idx = ev[0].loops[0][0]
        k = ev[0].recv.args[1]
        return key, "points are grouped by %s" % show(k, 4) if k is not sub(region_ids, idx) else None if ev[0].args[0] is idx else "listed positions are %s" % show(ev[0].args[0], 4)
    if t.op == "sub" and t.args[0].op == "fold":
        f, key = t.args
        init, mu, upd, idx, dom = f.args
        gr = grouping(f, region_ids, events) if upd.op != "store" else None
        if gr is not None:
            return key, gr[0]
        if not (init.op == "dict" and not init.args) or upd.op != "store" or upd.args[0] is not mu:
            return None
        k, v = upd.args[1:]
        prob = None
        if dom is not dim(region_ids):
            return None
        if k is not sub(region_ids, idx):
            prob = "points are grouped by %s" % show(k, 4)
        els = set()
        olds = 0
        alts = leaves_ite(v)
        for g, x in alts:
            if x.op == "list" and len(x.args) == 1:
                els.add(x.args[0])
            elif x.op == "cat" and len(x.args) == 2 and x.args[0].op == "spread" and x.args[1].op == "list" and len(x.args[1].args) == 1 and x.args[0].args[0] is sub(mu, k):
                els.add(x.args[1].args[0])
                olds += 1
            elif x is sub(mu, k):
                olds += 1
            elif x.op == "sub" and x.args[1].op == "slice" and x.args[1] is not FULL:
                els.add(idx)
                olds += 1
                prob = "only a part of the points of a region is kept: " + show(x, 5)
            else:
                return None
        if els != {idx}:
            prob = "listed positions are %s" % ", ".join(show(e, 4) for e in els)
        if not olds:
            prob = "only one point per region is kept"
        return key, prob
    if t.op == "sub" and is_const(t.args[1], 0) and t.args[0].op == "call" and last(t.args[0].args[0]) in ("where", "nonzero") or t.op == "call" and last(t.args[0]) == "flatnonzero":
        c = t.args[0].args[1] if t.op == "sub" else t.args[1]
        if c.op == "cmp" and c.args[0] == "==":
            for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if peel(x) is region_ids:
                    return y, None
        return None
    if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "each":
        idx, dom, part, g = t.args[0].args
        if dom is dim(region_ids) and part.op == "list" and len(part.args) == 1 and g.op == "cmp" and g.args[0] == "==":
            for x, y in ((g.args[1], g.args[2]), (g.args[2], g.args[1])):
                if x is sub(region_ids, idx) and not contains(y, idx):
                    return y, None if part.args[0] is idx else "listed positions are %s" % show(part.args[0], 4)
    return None


@prop("R01", "Value flow of Fields/Field: index sets of every field, copies (aliasing) of fields and random fields, kept samples and dependent functions; documented laws compared as rational normal forms.",
      ["user functions of dependent fields are pure"])
def r01_points(ctx):
    f = ctx.method(MOD + "Fields", "set_points")
    ps = f.params()
    pts, rids, rmap = [sym(p) for p in ps[1:4]]
    r = ctx.run_method(MOD + "Fields", "set_points")
    at = f.full
    sp = [e for e in r.events if e.kind == "call" and last(e.name) == "set_points"]
    ids = [e for e in r.events if e.kind == "setattr" and e.name == "full_sample_ids"]
    n_el = [e for e in r.events if e.kind == "setattr" and e.name == "n_elements"]
    if not sp or not ids:
        raise AnchorError("Fields.set_points: points of the fields")
    FI = attr(SELF, "fields")
    ctx.req(bool(n_el) and n_el[0].args[0] in (dim(pts), dim(rids), sub(attr(pts, "shape"), const(0))), "size@Fields.set_points", at, "a full sample has as many values as there are points")
    for e in sp + ids:
        nm = "points" if e in sp else "ids"
        if not e.loops:
            ctx.und("every-field@Fields.set_points " + nm, at, "not in a loop over the fields")
            return
        idx, dom, _ = e.loops[0]
        if dom is not dim(FI) or e.recv is not sub(FI, idx) and e.recv is not r.eng.deref(sub(FI, idx), r.state):
            ctx.und("every-field@Fields.set_points " + nm, at, "loop over %s, object %s" % (show(dom, 4), show(e.recv, 4)))
            return
    idx = sp[0].loops[0][0]
    fo = sub(FI, idx)
    regs = attr(fo, "regions")
    def val(t, st=None):
        return r.eng.deref(t, st or r.state)
    pre = {dim(pts): dim(rids)}
    cases = {True: [], False: []}
    for e in sp + ids:
        for restr in (True, False):
            alive = True
            for c, p in conds(e):
                v = has_regions(c, regs)
                if v == "?":
                    if contains(c, fo):
                        alive = None
                elif v is not None and (v == restr) != p:
                    alive = False
            if alive is None:
                ctx.und("every-field@Fields.set_points", e.where(), "condition on the field")
                return
            if alive:
                cases[restr].append(e)
    for restr in (True, False):
        nm = "field restricted to regions" if restr else "unrestricted field"
        P = [e for e in cases[restr] if e in sp]
        I = [e for e in cases[restr] if e in ids]
        if len(P) != 1 or len(I) != 1:
            if not P or not I:
                ctx.bad("assigned@%s" % nm, at, "a %s gets no evaluation points / positions" % nm)
            else:
                ctx.und("assigned@%s" % nm, at, "%d / %d assignments" % (len(P), len(I)))
            continue
        P, I = P[0], I[0]
        pv = deep(r, P.args[0], P)
        iv = deep(r, I.args[0], I)
        pv, iv = [pick(x, regs, restr) for x in (pv, iv)]
        # positions used for the points
        if pv is pts:
            pi = mk("ALL")
        elif pv.op == "sub" and peel(pv.args[0]) is pts:
            k = pv.args[1]
            if k.op == "tuple" and len(k.args) == 2 and k.args[1] is FULL:
                k = k.args[0]
            pi = all_ids(k, pts, rids)
        elif pv.op == "call" and last(pv.args[0]) == "take" and len(pv.args) >= 3 and peel(pv.args[1]) is pts:
            pi = all_ids(pv.args[2], pts, rids)
        elif pv.op == "cat" and len(pv.args) == 1 and pv.args[0].op == "each":
            ctx.und("same-points@" + nm, P.where(), show(pv, 5))
            continue
        elif pv.op == "bin" and pv.args[0] in ("+", "-", "*", "/") and any(peel(y) is pts or y.op == "sub" and peel(y.args[0]) is pts for y in pv.args[1:] if isinstance(y, T)):
            ctx.bad("same-points@" + nm, P.where(), "NOT SATISFIED: the field is evaluated at its own points: " + show(pv, 5))
            continue
        else:
            ctx.und("same-points@" + nm, P.where(), show(pv, 5))
            continue
        ii = all_ids(iv, pts, rids)
        ctx.req(pi is ii, "same-points@" + nm, P.where(), "values of the field go back to the points they were evaluated at: points %s, positions %s" % (show(pi, 6), show(ii, 6)))
        if not restr:
            ctx.req(ii.op == "ALL", "all-points@" + nm, I.where(), "an unrestricted field covers all points: " + show(ii, 5))
            continue
        # union over the field's regions of the points of that region
        t = peel(ii)
        if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "each":
            j, dom, part, g = t.args[0].args
            if dom is not dim(regs):
                ctx.und("regions@" + nm, I.where(), "loop over " + show(dom, 5))
                continue
            ctx.req(g is TRUE, "regions@%s all" % nm, I.where(), "points of every region of the field are taken: " + show(g, 4))
            gl = group_list(part, rids, r.events)
            if gl is None:
                cut = [y for y in walk(part) if y.op == "sub" and y.args[1].op == "slice" and any(is_const(q) and q is not NONE for q in y.args[1].args)]
                if cut and group_list(subst(part, {y: y.args[0] for y in cut}), rids, r.events) is not None:
                    ctx.bad("regions@" + nm, I.where(), "NOT SATISFIED: all points of a region are taken: " + show(cut[0].args[1], 3))
                    continue
                ctx.und("regions@" + nm, I.where(), show(part, 6))
                continue
            key, prob = gl
            want = sub(rmap, sub(regs, j))
            ctx.req(prob is None, "members@" + nm, I.where(), prob or "positions of all points whose region id is the given one")
            ctx.req(key is want, "regions@" + nm, I.where(), "region id is that of the field's region: %s" % show(key, 6))
        elif t.op == "last" and t.args[1] is dim(regs):
            ctx.bad("regions@" + nm, I.where(), "only the last region of the field is used: " + show(t, 4))
        else:
            ctx.und("regions@" + nm, I.where(), show(ii, 6))


def deep(r, t, e):
    """value of a mutable object at the time of the event"""
    if e.st is not None:
        try:
            return r.eng.deref(t, e.st)
        except Exception:
            pass
    return r.eng.deref(t, r.state)


def has_regions(c, regs):
    """does the condition say that the field is restricted to regions; '?' unknown, None unrelated"""
    if c is regs or c.op == "call" and c.args[0] == "builtins.bool" and c.args[1] is regs:
        return True
    if c.op == "not" and c.args[0] is regs:
        return False
    if c.op == "cmp" and dim(regs) in c.args[1:]:
        o, a, b = c.args
        if is_const(a):
            o, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o), b, a
        if is_const(b, 0):
            return {">": True, "!=": True, "==": False}.get(o, "?")
        return "?"
    return "?" if contains(c, regs) else None


def pick(t, regs, restr):
    m = {}
    for x in walk(t):
        if x.op == "ite":
            v = has_regions(x.args[0], regs)
            if v in (True, False):
                m[x] = x.args[1] if v == restr else x.args[2]
    return pick(subst(t, m), regs, restr) if m else t


def all_ids(k, pts, rids):
    k = peel(k)
    n = (dim(pts), dim(rids), attr(SELF, "n_elements"))
    if k is FULL or k.op == "range" and len(k.args) == 1 and k.args[0] in n:
        return mk("ALL")
    if k.op == "call" and last(k.args[0]) in ("arange", "range"):
        a = [x for x in k.args[1:] if isinstance(x, T) and x.op != "kw"]
        if len(a) == 1 and a[0] in n or len(a) == 2 and is_const(a[0], 0) and a[1] in n:
            return mk("ALL")
    if k.op == "range" and len(k.args) == 2 and is_const(k.args[0], 0) and k.args[1] in n:
        return mk("ALL")
    return k


@prop("R01", "")
def r01_sample(ctx):
    f = ctx.method(MOD + "Fields", "sample")
    r = ctx.run_method(MOD + "Fields", "sample")
    at = f.full
    FI = attr(SELF, "fields")
    smp = [e for e in r.events if e.kind == "call" and last(e.name) == "sample"]
    if not smp:
        raise AnchorError("Fields.sample: sampling of the fields")
    for e in smp:
        if not e.loops or e.loops[0][1] is not dim(FI) or e.recv is not sub(FI, e.loops[0][0]) or len(e.loops) != 1:
            ctx.und("all-sampled@Fields.sample", e.where(), "not a loop over all the fields")
            return
    ctx.req(len(smp) == 1, "once@Fields.sample", at, "every field is sampled once per sample (%d call sites)" % len(smp))
    e = smp[0]
    cs = conds(e)
    ctx.req(not cs, "all-sampled@Fields.sample", e.where(), "every field is sampled, in the order of dependence, whether it is part of the result or not (dependent fields use it)" if not cs else "sampled only if " + " and ".join(show(c, 4) for c, _ in cs))
    idx = e.loops[0][0]
    fo = sub(FI, idx)
    v = r.eng.deref(r.value, r.state)
    if v.op != "fstore":
        ctx.und("result@Fields.sample", at, show(v, 5))
        return
    base, i2, dom, key, val, g = v.args
    fo2 = sub(FI, i2)
    outer = attr(fo2, "is_outer")
    ctx.req(base.op == "dict" and not base.args, "fresh@Fields.sample", at, "the result starts empty")
    ctx.req(key is attr(fo2, "name"), "name@Fields.sample", at, "values are returned under the field's name: " + show(key, 4))
    ctx.req(g is outer, "outer@Fields.sample", at, "exactly the outer fields are returned: " + show(g, 4))
    val = subst(val, {outer: TRUE}) if val.op != "ite" else (val.args[1] if val.args[0] is outer else val)
    if val.op == "store" and is_full_zero(val.args[0]):
        b, k, s = val.args
        ctx.req(k is attr(fo2, "full_sample_ids"), "positions@Fields.sample", at, "sampled values are written to the points of the field: " + show(k, 4))
        res = subst(e.result, {idx: i2})
        ctx.req(s is res or s is e.result, "values@Fields.sample", at, "values written are those of this field's sample: " + show(s, 4))
        n = b.args[1] if b.op == "call" else None
        ctx.req(n is attr(SELF, "n_elements") or is_const(n) and False, "size@Fields.sample", at, "one value for every point: " + show(n, 4))
    elif val.op == "store":
        b = val.args[0]
        if b.op == "call" and last(b.args[0]) in ("empty", "ones", "full", "empty_like"):
            ctx.bad("zero@Fields.sample", at, "values outside of the field's regions are not zero: " + show(b, 4))
        else:
            ctx.und("values@Fields.sample", at, show(val, 5))
    else:
        ctx.und("values@Fields.sample", at, show(val, 5))


def is_full_zero(b):
    return b.op == "call" and b.args[0] == "numpy.zeros" or b.op == "call" and b.args[0] == "numpy.full" and len(b.args) >= 3 and is_const(b.args[2], 0)


@prop("R01", "")
def r01_field(ctx):
    f = ctx.method(MOD + "Field", "sample")
    r = ctx.run_method(MOD + "Field", "sample")
    at = f.full
    v = r.eng.deref(r.value, r.state)
    st = heap(r, SELF, "_sample")
    const_, corr, prm = attr(SELF, "const"), attr(SELF, "correlated_field"), attr(SELF, "param_fields")
    kinds = {"const": {none(const_): False}, "random": {none(const_): True, none(corr): False}, "dependent": {none(const_): True, none(corr): True}}
    for k, m in kinds.items():
        x = decide(v, m)
        s = decide(st, m) if st is not None else attr(SELF, "_sample")
        if k == "const":
            ctx.req(x is attr(SELF, "_sample"), "const@Field.sample", at, "a constant field returns the values set with the points: " + show(x, 4))
            continue
        ctx.req(s is x, "kept@Field.sample " + k, at, "the sample is kept for the fields that depend on it: kept %s, returned %s" % (show(s, 4), show(x, 4)))
        if k == "random":
            ev = [e for e in r.events if e.kind == "call" and last(e.name) == "sample" and e.recv is corr]
            if not ev:
                ctx.und("random@Field.sample", at, show(x, 4))
            else:
                ctx.req(x is ev[0].result, "random@Field.sample", at, "a random field returns a new sample of its random field: " + show(x, 4))
        else:
            if x.op == "call" and last(x.args[0]) == "_func":
                a = [y for y in x.args[1:] if not (y is SELF)]
                ok = None
                if len(a) == 1 and a[0].op == "star":
                    c = peel(a[0].args[0])
                    if c.op == "cat" and len(c.args) == 1 and c.args[0].op == "each":
                        j, dom, part, g = c.args[0].args
                        ok = dom is dim(prm) and g is TRUE and part.op == "list" and len(part.args) == 1 and part.args[0] is attr(sub(prm, j), "_sample")
                if ok is None:
                    ctx.und("dependent@Field.sample", at, show(x, 6))
                else:
                    ctx.req(ok, "dependent@Field.sample", at, "a dependent field is its function of the current samples of its parameter fields, in their order: " + show(x, 7))
            elif any(y is attr(SELF, "_sample") for _, y in leaves_ite(x)):
                ctx.bad("dependent@Field.sample", at, "a dependent field may return its former sample: " + show(x, 5))
            else:
                ctx.und("dependent@Field.sample", at, show(x, 5))
    f = ctx.method(MOD + "Field", "set_points")
    r = ctx.run_method(MOD + "Field", "set_points")
    pts = sym(f.params()[1])
    st = heap(r, SELF, "_sample")
    x = decide(st, kinds["const"]) if st is not None else None
    if x is None:
        ctx.und("const@Field.set_points", f.full, "no values of a constant field")
    elif any(y is attr(SELF, "_sample") for _, y in leaves_ite(x)):
        ctx.bad("const@Field.set_points", f.full, "NOT SATISFIED: a constant field has its value at every point set last; it may keep the values for former points: " + show(x, 5))
    else:
        try:
            ix = Ix({pts: Arr((sym("#n"), sym("#d")), lambda i: mk("sub", mk("sub", pts, i[0]), i[1])), const_: Arr((), lambda i: const_)})
            a = ix.ev(x)
            ctx.req(len(a.dims) == 1 and ix.norm(a.dims[0]) is sym("#n") and ix.norm(a.fn([mk("tvf", 0)])) is const_, "const@Field.set_points", f.full, "a constant field has its value at every point: " + show(x, 5))
        except Unk as e:
            ctx.und("const@Field.set_points", f.full, str(e))
    ev = [e for e in r.events if e.kind == "call" and last(e.name) == "set_points" and e.recv is corr]
    if not ev:
        ctx.bad("random@Field.set_points", f.full, "the points are not passed to the random field")
    else:
        ctx.req(ev[0].args and peel(ev[0].args[0]) is pts, "random@Field.set_points", ev[0].where(), "the random field is evaluated in the points of the field")


def none(t):
    return cmpop("is", t, NONE)


def decide(t, m):
    """resolve conditions `x is None` given by m"""
    full = {}
    for c, v in m.items():
        x = c.args[1] if c.args[2] is NONE else c.args[2]
        full[c] = TRUE if v else FALSE
        for o, val in (("is", v), ("==", v), ("is not", not v), ("!=", not v), ("isnot", not v)):
            full[mk("cmp", o, x, NONE)] = TRUE if val else FALSE
            full[mk("cmp", o, NONE, x)] = TRUE if val else FALSE
        full[mk("not", c)] = FALSE if v else TRUE
    return subst(t, full)


@prop("R01", "")
def r01_init(ctx):
    f = ctx.method(MOD + "Fields", "__init__")
    r = ctx.run_method(MOD + "Fields", "__init__")
    at = f.full
    fs = sym(f.params()[1])
    copies = [e for e in r.events if e.kind == "call" and e.name in ("copy.copy", "copy.deepcopy") and e.loops and e.args and e.args[0] is sub(fs, e.loops[0][0])]
    if not copies:
        app = [e for e in r.events if e.kind == "call" and last(e.name) == "append" and any(a is sub(fs, e.loops[0][0]) for a in e.args if e.loops)]
        if app:
            ctx.bad("own-copy@Fields", at, "the given Field objects are used directly: samples in one set of fields change those of another set")
        else:
            ctx.und("own-copy@Fields", at, "copies of the given fields not found")
        return
    c = copies[0]
    new = c.result
    idx = c.loops[0][0]
    ctx.ok("own-copy@Fields", c.where(), "every set of fields samples into its own copies of the given fields")
    cf = [e for e in r.events if e.kind == "setattr" and e.name == "correlated_field" and e.recv is new]
    if c.name == "copy.deepcopy":
        ctx.ok("own-random-field@Fields", c.where(), "deep copy")
    else:
        src = (attr(sub(fs, idx), "correlated_field"), attr(new, "correlated_field"))
        own = [e for e in cf if e.args[0].op == "call" and e.args[0].args[0] in ("copy.copy", "copy.deepcopy") and e.args[0].args[1] in src]
        ok = bool(own)
        # copied whenever there is a random field
        if own and not any(all(contains(g, lambda y: y in src) for g, _ in conds(e)) for e in own):
            ctx.bad("own-random-field@Fields", own[0].where(), "NOT SATISFIED: the random field is copied with the field only if " + ", ".join(("" if p else "not ") + show(g, 4) for g, p in conds(own[0])))
        elif cf and not ok:
            ctx.und("own-random-field@Fields", cf[0].where(), show(cf[0].args[0], 5))
        else:
            ctx.req(ok, "own-random-field@Fields", at, "fields given the same random field object (of different regions) each have their own points and factor: the random field is copied with the field")
    # registered under its name and listed after its parameters
    reg = [e for e in r.events if e.kind == "setitem" and e.args and e.args[1] is new] if r.events else []
    ok = any(e.args[0] is attr(new, "name") or e.args[0] is attr(sub(fs, idx), "name") for e in reg)
    ctx.req(ok, "registered@Fields", at, "the copy is registered under the field's name, so that later fields can refer to it") if reg else ctx.und("registered@Fields", at, "no registration found")
    app = [e for e in r.events if e.kind == "call" and last(e.name) == "append" and e.args and e.args[0] is new]
    prm = [e for e in r.events if e.kind == "setattr" and e.name == "param_fields" and e.recv is new]
    if not app or not prm:
        ctx.und("order@Fields", at, "listing of the fields")
    else:
        ctx.req(covered([conds(e) for e in app]), "listed@Fields", app[0].where(), "every given field is listed")
        consts = [e for e in r.events if e.kind == "call" and last(e.name) in ("insert", "append") and e.args and any(a.op == "new" for a in e.args)]
        for e in consts:
            ctx.req(e.seq < app[0].seq or last(e.name) == "insert" and is_const(e.args[0], 0), "order@Fields constants", e.where(), "constant parameters come before the fields that use them")
        # parameters come from this set's dictionary
        v = r.eng.deref(prm[0].args[0], prm[0].st or r.state)
        bad = contains(v, lambda x: x.op == "sub" and x.args[0] is fs and x.args[1] is not idx)
        ctx.req(not bad, "params@Fields", prm[0].where(), "parameter fields are the copies of this set: " + show(v, 5))
        constants(ctx, r, prm[0], v, new, fs, idx)
    f2 = ctx.method(MOD + "Fields", "set_outer_fields")
    r2 = ctx.run_method(MOD + "Fields", "set_outer_fields")
    outer = sym(f2.params()[1])
    sets = [e for e in r2.events if e.kind == "setattr" and e.name == "is_outer"]
    FI = attr(SELF, "fields")
    if not sets or any(not e.loops or e.loops[0][1] is not dim(FI) for e in sets):
        ctx.und("outer@Fields.set_outer_fields", f2.full, "loop over the fields not found")
        return
    for isin in (True, False):
        val = None
        for e in sets:
            alive = True
            for cnd, p in conds(e):
                v = member(cnd, FI, e.loops[0][0], outer)
                if v is None:
                    alive = None
                    break
                if (v == isin) != p:
                    alive = False
            if alive is None:
                val = "?"
                break
            if alive:
                x = e.args[0]
                mv = member(x, FI, e.loops[0][0], outer)
                val = bool(x.args[0]) if x.op == "const" else (mv == isin) if mv is not None else "?"
        if val == "?":
            ctx.und("outer@Fields.set_outer_fields", f2.full, "membership test")
        else:
            ctx.req(val is isin, "outer@Fields.set_outer_fields %s" % ("listed" if isin else "not listed"), f2.full, "a field is returned by sample() iff its name is listed")


def covered(css):
    """one of the condition lists holds in every case"""
    cs = []
    for l in css:
        for g, _ in l:
            if g not in cs:
                cs.append(g)
    if len(cs) > 8:
        return None
    return all(any(all(m[g] == p for g, p in l) for l in css) for m in (dict(zip(cs, v)) for v in itertools.product((True, False), repeat=len(cs))))


def constants(ctx, r, e, v, new, fs, idx):
    """a number given as a parameter becomes a field over the regions of the field that uses it"""
    key = "constant@Fields"
    v = peel(v)
    if v.op != "cat" or len(v.args) != 1 or v.args[0].op != "each":
        ctx.und(key, e.where(), show(v, 5))
        return
    j, dom, part, g = v.args[0].args
    if part.op != "list" or len(part.args) != 1:
        ctx.und(key, e.where(), show(part, 5))
        return
    x = part.args[0]
    tests = {y for y in walk(x) if y.op == "cmp" and y.args[0] in ("in", "notin") and y.args[1].op == "call" and y.args[1].args[0] == "builtins.type"}
    tests |= {y for y in walk(x) if y.op == "call" and y.args[0] == "builtins.isinstance"}
    if not tests:
        ctx.und(key, e.where(), "no test of the kind of a parameter in " + show(x, 5))
        return
    x = subst(x, {y: TRUE for y in tests})
    regs = (attr(new, "regions"), attr(sub(fs, idx), "regions"))
    for h, y in leaves_ite(x):
        y = r.eng.deref(y, e.st or r.state)
        if y.op == "new" and last(y.args[0]) == "Field":
            ctx.req(kwget(y, "regions") in regs, key, e.where(), "a number given as a parameter becomes a constant over the regions of the field that uses it: regions " + show(kwget(y, "regions"), 4))
        elif y.op == "sub" and not contains(y, lambda z: z.op == "undef"):
            ctx.bad(key, e.where(), "NOT SATISFIED: a number given as a parameter is a constant of its own over the regions of the field that uses it; taken from %s: it has the points of another field" % show(y, 4))
        else:
            ctx.und(key, e.where(), show(y, 5))


def member(c, FI, idx, outer):
    """True: the condition says the field's name is among outer; False: it is not; None unknown"""
    if c.op == "not":
        v = member(c.args[0], FI, idx, outer)
        return None if v is None else not v
    if c.op == "cmp" and c.args[0] in ("in", "not in", "notin"):
        a, b = c.args[1:]
        while True:
            if b.op == "call" and last(b.args[0]) in ("set", "list", "tuple", "frozenset") and len(b.args) == 2:
                b = b.args[1]
            elif b.op in ("asset", "spread") or b.op == "cat" and len(b.args) == 1 and b.args[0].op == "spread":
                b = b.args[0]
            else:
                break
        if a is attr(sub(FI, idx), "name") and b is outer:
            return c.args[0] == "in"
    return None


@prop("R01", "")
def r01_functions(ctx):
    """documented laws for dependent fields"""
    n = Ix({}).norm
    f = ctx.prog.func(MOD + "positive_to_range")
    r = ctx.run(f)
    x, a, b = [sym(p) for p in f.params()[:3]]
    B = lambda o, p, q: mk("bin", o, p, q)
    want = B("/", B("*", b, B("+", a, B("*", B("-", b, a), x))), B("+", b, B("*", B("-", b, a), x)))
    v = r.eng.deref(r.value, r.state)
    ctx.req(n(B("-", v, want)) is const(0) or n(v) is n(want), "range@positive_to_range", f.full, "maps <0, inf) onto <a, b): " + show(v, 6))
    f = ctx.prog.func(MOD + "kozeny_carman")
    r = ctx.run(f)
    ps = [sym(p) for p in f.params()[:4]]
    v = r.eng.deref(r.value, r.state)
    por = clipped(v, ps[0])
    if por is None:
        ctx.und("law@kozeny_carman", f.full, show(v, 6))
    else:
        lo, hi, p = por
        w = v
        while w.op == "call" and last(w.args[0]) in ("maximum", "max") and len(w.args) == 3:
            w = w.args[1] if is_const(w.args[2]) else w.args[2]
        want = B("/", B("/", B("*", ps[2], B("**", p, B("+", const(2), ps[1]))), B("**", B("-", const(1), p), const(2))), ps[3])
        m = {p: sym("#por")}
        ctx.req(n(subst(w, m)) is n(subst(want, m)), "law@kozeny_carman", f.full, "conductivity = factor * porosity^(2+m) / (1-porosity)^2 / viscosity: " + show(w, 7))
        ctx.req(0 < lo < 1e-3 and 1 - 1e-3 < hi < 1, "bounds@kozeny_carman", f.full, "porosity is kept inside (0, 1): %g, %g" % (lo, hi))


def clipped(v, p):
    """(lo, hi, term) of the clipped argument"""
    for x in walk(v):
        lo = hi = None
        y = x
        for _ in range(3):
            if y.op == "call" and last(y.args[0]) in ("maximum", "minimum") and len(y.args) == 3:
                c, o = (y.args[1], y.args[2]) if is_const(y.args[1]) else (y.args[2], y.args[1])
                if not is_const(c):
                    break
                if last(y.args[0]) == "maximum":
                    lo = c.args[0]
                else:
                    hi = c.args[0]
                y = o
            elif y.op == "call" and last(y.args[0]) == "clip" and len(y.args) == 4 and is_const(y.args[2]) and is_const(y.args[3]):
                lo, hi, y = y.args[2].args[0], y.args[3].args[0], y.args[1]
            else:
                break
        if y is p and lo is not None and hi is not None:
            return lo, hi, x
    return None


# ---------------------------------------------------------------------------------------------------- R02
def random_classes(ctx):
    base = ctx.prog.cls(MOD + "RandomFieldBase")
    return [c for c in ctx.prog.subclasses(base, proper=True)]


UNIT = ("_sample", "random_field")


@prop("R02", "Value flow of set_points and sample of all correlated field classes: scaling as a normal form, given/kept parameters by cases, and typestate of cached decompositions (dropped when points are set) with freshness of random draws.",
      ["an overridden _sample returns one value per point"])
def r02_scaling(ctx):
    n = Ix({}).norm
    B = lambda o, p, q: mk("bin", o, p, q)
    for c in random_classes(ctx):
        f = ctx.method(c, "sample")
        r = ctx.run_method(c, "sample", opaque=set(UNIT))
        v = r.eng.deref(r.value, r.state)
        unit = {e.result for e in r.events if e.kind == "call" and last(e.name) in UNIT}
        if not unit:
            ctx.und("unit@" + c.name, f.full, "values of the unit field not found in " + show(v, 5))
            continue
        m = {u: sym("#F") for u in unit}
        log = attr(SELF, "log")
        for lg in (False, True):
            x = n(flat(subst(subst(v, m), {log: TRUE if lg else FALSE})))
            lin = B("+", B("*", attr(SELF, "sigma"), sym("#F")), attr(SELF, "mu"))
            want = n(flat(mk("call", "numpy.exp", lin) if lg else lin))
            key = "scaled@%s%s" % (c.name, " log" if lg else "")
            if contains(x, log):
                ctx.und(key, f.full, show(x, 6))
            else:
                ctx.req(x is want, key, f.full, "sample is %s: %s" % ("exp(sigma*F + mu)" if lg else "sigma*F + mu", show(x, 7)))


def flat(t):
    """normal form inside exp()"""
    n = Ix({}).norm
    m = {x: mk("call", "numpy.exp", n(x.args[1])) for x in walk(t) if x.op == "call" and x.args[0] == "numpy.exp"}
    return subst(t, m) if m else t


@prop("R02", "")
def r02_points(ctx):
    for c in random_classes(ctx):
        f = ctx.method(c, "set_points")
        r = ctx.run_method(c, "set_points")
        ps = f.params()
        pts, mu, sg = [sym(p) for p in ps[1:4]]
        at = "%s (%s)" % (f.full, c.name)
        v = heap(r, SELF, "points")
        ctx.req(v is not None and peel(v) is pts, "points@" + c.name, at, "the field is evaluated in the given points: " + (show(v, 4) if v is not None else "not stored"))
        for nm, p in (("mu", mu), ("sigma", sg)):
            v = heap(r, SELF, nm)
            if v is None:
                ctx.bad("%s@%s" % (nm, c.name), at, "given %s is not used" % nm)
                continue
            g = peel(decide(v, {none(p): False}))
            d = peel(decide(v, {none(p): True}))
            g, d = [x.args[1] if x.op == "call" and last(x.args[0]) == "array" else x for x in (g, d)]
            if contains(g, none(p)) or contains(d, none(p)):
                ctx.und("%s@%s" % (nm, c.name), at, show(v, 4))
                continue
            ctx.req(g is p, "%s-given@%s" % (nm, c.name), at, "%s given with the points is used: %s" % (nm, show(g, 4)))
            ctx.req(d is attr(SELF, nm), "%s-kept@%s" % (nm, c.name), at, "%s not given: that of the field is kept: %s" % (nm, show(d, 4)))
    # nothing computed for previous points survives
    c = ctx.prog.cls(MOD + "SpatialCorrelatedField")
    r = ctx.run_method(c, "set_points", opaque={"_eigen_value_estimate"})
    f = ctx.method(c, "_sample")
    pts = sym(ctx.method(c, "set_points").params()[1])
    n0 = len(r.eng.events)
    v1 = r.eng.deref(r.eng.call_method(SELF, "_sample", [], {}, r.state, None), r.state)
    old = [nm for nm in ("_cov_l_factor", "cov_mat", "n_approx_terms", "_sqrt_ev", "points", "n_points") if contains(v1, attr(SELF, nm))]
    if contains(v1, lambda x: x.op == "amb"):
        ctx.und("renewed@SpatialCorrelatedField", f.full, show(v1, 5))
    else:
        ctx.req(not old, "renewed@SpatialCorrelatedField", f.full, "a sample taken after new points were set uses nothing computed for the previous points" + (": uses " + ", ".join(old) if old else ""))
    draws = [e for e in r.eng.events[n0:] if e.kind == "call" and e.name.startswith("numpy.random.") and last(e.name) in ("normal", "randn", "standard_normal")]
    ctx.req(bool(draws) and contains(v1, draws[-1].result), "drawn@SpatialCorrelatedField", f.full, "a sample is computed from new random numbers") if draws else ctx.und("drawn@SpatialCorrelatedField", f.full, "no normal draw found")
    n1 = len(r.eng.events)
    v2 = r.eng.deref(r.eng.call_method(SELF, "_sample", [], {}, r.state, None), r.state)
    d2 = [e for e in r.eng.events[n1:] if e.kind == "call" and e.name.startswith("numpy.random.") and last(e.name) in ("normal", "randn", "standard_normal")]
    if draws:
        ctx.req(bool(d2) and not [g for g in extra_conds(d2[-1], draws[-1]) if not contains(g[0], lambda y: y.op == "attr" and y.args[1] == "shape")] and contains(v2, d2[-1].result) and not contains(v2, draws[-1].result), "independent@SpatialCorrelatedField", f.full, "every further sample is drawn anew")
        fac2 = [e for e in r.eng.events[n1:] if last(e.name) in ("svd", "randomized_svd")]
        live = [e for e in fac2 if not any(x.op == "const" and bool(x.args[0]) != p for x, p in conds(e))]


@prop("R02", "")
def r02_fresh(ctx):
    """no random number is kept for further samples"""
    for c in random_classes(ctx):
        f = ctx.method(c, "sample")
        r = ctx.run_method(c, "sample")
        kept = {e.name for e in r.events if e.kind == "setattr" and e.recv is SELF}
        about = lambda y: y.op == "attr" and y.args[0] is SELF and y.args[1] in kept or y.op == "call" and y.args[0] == "builtins.hasattr" and y.args[1] is SELF and is_const(y.args[2]) and y.args[2].args[0] in kept
        dr = [e for e in r.events if e.kind == "call" and last(e.name) in ("normal", "standard_normal", "randn", "uniform", "random_sample", "random", "rand", "randint")]
        if not dr:
            continue
        for e in dr:
            cs = [g for g, p in conds(e) if contains(g, about)]
            ctx.req(not cs, "fresh@" + c.name, e.where(), "every sample is drawn anew" + (": drawn only if " + ", ".join(show(g, 4) for g in cs) if cs else ""))


# ---------------------------------------------------------------------------------------------------- R03
@prop("R03", "Closed formulas of kernel, factor, spectra and modes are extracted as terms and compared with the documented ones, by rational normal form or, for transcendental formulas, by the identity test of extracted formulas at fixed points (sa/numid.py); integer-typed arguments and restart of sums by effect analysis.",
      ["numpy/scipy/sklearn routines compute what they document", "two analytic formulas agreeing at the fixed points are identical"])
def r03_kernel(ctx):
    c = ctx.prog.cls(MOD + "SpatialCorrelatedField")
    f = ctx.method(c, "__init__")
    r = ctx.run_method(c, "__init__")
    at = f.full
    L, an, dm, ce = sym("corr_length"), sym("aniso_correlation"), sym("dim"), sym("corr_exp")
    B = lambda o, p, q: mk("bin", o, p, q)
    for p in (L, an, dm, ce):
        if p.args[0] not in f.params():
            raise AnchorError("%s(%s)" % (f.full, p.args[0]))
    v = heap(r, SELF, "correlation_tensor")
    if v is None:
        raise AnchorError("correlation_tensor")
    iso, ani = decide(v, {none(an): True}), decide(v, {none(an): False})
    ctx.req(peel(ani) is an, "tensor@given", at, "given correlation tensor is used: " + show(ani, 4))
    try:
        ix = Ix({dm: Arr((), lambda i: dm), L: Arr((), lambda i: L)})
        a = ix.ev(iso)
        i, j = mk("tvf", 0), mk("tvf", 1)
        want = B("*", mk("DELTA", *sorted((i, j), key=repr)), B("/", const(1), B("**", L, const(2))))
        ok = len(a.dims) == 2 and all(ix.norm(d) is dm for d in a.dims) and ix.norm(a.fn([i, j])) is ix.norm(want)
        ctx.req(ok, "tensor@isotropic", at, "K = I / L^2: " + show(iso, 6))
    except Unk as e:
        ctx.und("tensor@isotropic", at, str(e))
    for nm, given, w in (("gauss", "gauss", 2), ("exp", "exp", 1), ("number", 1.5, 1.5), ("number", 2, 2), ("number", 0.75, 0.75)):
        q = ctx.run_method(c, "__init__", args={ce.args[0]: const(given)})
        v = heap(q, SELF, "correlation_exponent")
        v = q.eng.deref(v, q.state) if v is not None else NONE
        if v.op == "call" and v.args[0] in ("builtins.float", "numpy.float64") and len(v.args) == 2 and is_const(v.args[1]) and isinstance(v.args[1].args[0], (int, float)):
            v = v.args[1]
        if is_const(v) and isinstance(v.args[0], (int, float)):
            ctx.req(v.args[0] == w, "exponent@" + nm, at, "alpha is %s for %r: %s" % (w, given, show(v, 3)))
        else:
            ctx.und("exponent@" + nm, at, show(v, 5))


@prop("R03", "")
def r03_cov(ctx):
    c = ctx.prog.cls(MOD + "SpatialCorrelatedField")
    f = ctx.method(c, "cov_matrix")
    r = ctx.run_method(c, "cov_matrix")
    P, K, al = attr(SELF, "points"), attr(SELF, "correlation_tensor"), attr(SELF, "correlation_exponent")
    B = lambda o, p, q: mk("bin", o, p, q)
    N, D = sym("#n"), sym("#d")
    for nm, v in (("returned", r.eng.deref(r.value, r.state)), ("stored", heap(r, SELF, "cov_mat"))):
        if v is None:
            ctx.und("kernel@" + nm, f.full, "not found")
            continue
        v = decide(v, {none(P): False})
        ix = Ix({P: Arr((N, D), lambda i: mk("sub", mk("sub", P, i[0]), i[1])), K: Arr((D, D), lambda i: mk("KT", *i)), al: Arr((), lambda i: al)})

        def hook(t, ix=ix):
            if t is dim(P) or t is attr(SELF, "n_points"):
                return ix.scalar(N)
            if t is attr(SELF, "sigma"):
                return ix.scalar(t)
            return None
        ix.hook = hook
        SG = attr(SELF, "sigma")
        v = subst(v, {x: SG for x in walk(v) if x.op == "call" and last(x.args[0]) in ("max", "amax", "mean") and len(x.args) == 2 and x.args[1] is SG})
        try:
            a = ix.ev(v)
            i, j = mk("tvf", 0), mk("tvf", 1)
            if len(a.dims) != 2 or any(ix.norm(d) is not N for d in a.dims):
                ctx.bad("size@" + nm, f.full, "covariance matrix has shape %s" % [show(d, 3) for d in a.dims])
                continue
            got = a.fn([i, j])
            d = mk("bin", "-", P, mk("sub", P, sym("#j")))
            wt = mk("call", "numpy.exp", mk("un", "-", B("**", mk("call", "numpy.sum", B("*", B("@", d, K), d), mk("kw", "axis", const(-1))), B("/", al, const(2)))))
            ix2 = Ix({P: Arr((N, D), lambda i: mk("sub", mk("sub", P, i[0]), i[1])), K: Arr((D, D), lambda i: mk("KT", *i)), al: Arr((), lambda i: al), sym("#j"): Arr((), lambda i: sym("#j"))})
            ws = [ix2.ev(wt), ix2.ev(subst(wt, {K: attr(K, "T")}))]
            one, two = ker(ix.norm(got), ix), [ker(ix.norm(subst(w.fn([y]), {sym("#j"): x})), ix) for x, y in ((i, j), (j, i)) for w in ws]
            ctx.req(one in two, "kernel@" + nm, f.full, "Cov[i,j] = exp(-(x^T K x)^(alpha/2)), x = x_i - x_j: got " + show(one, 9))
        except Unk as e:
            ctx.und("kernel@" + nm, f.full, str(e))


def ker(t, ix):
    """arguments of exp and powers in normal form"""
    for _ in range(3):
        m = {}
        for x in walk(t):
            if x.op == "call" and x.args[0] == "numpy.exp":
                y = mk("call", "numpy.exp", ix.norm(x.args[1]))
                if y is not x:
                    m[x] = y
        if not m:
            break
        t = ix.norm(subst(t, m))
    return t


@prop("R03", "")
def r03_factor(ctx):
    c = ctx.prog.cls(MOD + "SpatialCorrelatedField")
    f = ctx.method(c, "svd_dcmp")
    r = ctx.run_method(c, "svd_dcmp", opaque={"_eigen_value_estimate"})
    at = f.full
    CM = attr(SELF, "cov_mat")
    fac = heap(r, SELF, "_cov_l_factor")
    m = heap(r, SELF, "n_approx_terms")
    if fac is None or m is None:
        raise AnchorError("svd_dcmp: factor")
    # the decomposed matrix
    for e in r.events:
        if e.kind == "call" and last(e.name) in ("svd", "randomized_svd", "eigh", "eig"):
            x = r.eng.deref(e.args[0], r.state) if e.args else NONE
            have = decide(x, {none(CM): False})
            ctx.req(have is CM, "matrix@%s" % last(e.name), e.where(), "the covariance matrix is decomposed: " + show(have, 4))
            new = decide(x, {none(CM): True})
            ctx.req(new is not NONE and not contains(new, CM) and contains(new, attr(SELF, "points")), "matrix-new@%s" % last(e.name), e.where(), "a missing covariance matrix is computed for the present points first: " + show(new, 3))
    for e in r.events:
        if e.kind == "call" and last(e.name) == "randomized_svd":
            k = e.kw.get("n_components", e.args[1] if len(e.args) > 1 else None)
            todo, seen = [k] if k is not None else [], set()
            while todo:
                t = todo.pop()
                if t in seen:
                    continue
                seen.add(t)
                for g, x in leaves_ite(t):
                    if x in r.eng.loopinfo:
                        todo += list(r.eng.loopinfo[x][:2])
                        continue
                    bad = not_integer(x)
                    ctx.req(bad is None, "integer@randomized_svd", e.where(), "number of components is an integer" + (": " + show(bad, 4) if bad is not None else ""))
    for g, x in alternatives(fac, m):
        fx, mx = x
        key = "factor@" + (" and ".join(("" if p else "not ") + show(q, 3) for q, p in g) or "always")
        U = ev = None
        inner = {z for y in walk(fx) if y.op == "last" for z in walk(y) if z is not y}
        for y in walk(fx):
            b = svd_part(y)
            if b is not None and y not in inner:
                if b[1] == 0:
                    U = y
                elif b[1] == 1:
                    ev = y
                else:
                    ctx.bad(key, at, "the factor uses the third part of the decomposition: " + show(y, 4))
        if U is None or ev is None:
            ctx.und(key, at, show(fx, 5))
            continue
        if svd_part(U)[0] is not svd_part(ev)[0]:
            ctx.bad(key, at, "vectors and values of different decompositions: %s / %s" % (show(U, 4), show(ev, 4)))
            continue
        ix = Ix({U: Arr((sym("#n"), sym("#k")), lambda i: mk("sub", mk("sub", sym("#U"), i[0]), i[1])), ev: Arr((sym("#k"),), lambda i: mk("sub", sym("#ev"), i[0]))})
        full = last(svd_part(ev)[0].args[0]) in ("svd", "eigh", "eig") if svd_part(ev)[0].op == "call" else False
        had = any(y.op == "dim" and ev in set(walk(y)) for y in walk(mx))
        late = [y for y in walk(mx) if y.op == "fold" and y.args[1] in set(walk(ev))]
        if full or had:
            ctx.ok("bound@" + key, at, "as many terms as the decomposition has at most: " + show(mx, 4))
        elif late:
            ctx.bad("bound@" + key, at, "the number of terms is the one of the next decomposition, larger than the computed factor has: " + show(mx, 4))
        ms = {mx: sym("#m")}
        body = subst(fx, ms)
        ix.hook = lambda t, ix=ix: ix.scalar(t) if t is sym("#m") else None
        try:
            a = ix.ev(body)
            i, k = mk("tvf", 0), mk("tvf", 1)
            g1 = ix.norm(a.fn([i, k]))
            want = ix.norm(binop("*", mk("sub", mk("sub", sym("#U"), i), k), ix.sqrt(mk("sub", sym("#ev"), k))))
            nd = [ix.norm(count(d)) for d in a.dims]
            ctx.req(len(nd) == 2 and nd[1] is sym("#m"), "terms@" + key, at, "as many columns as random numbers are drawn (n_approx_terms): %s" % [show(d, 3) for d in nd])
            ctx.req(g1 is want, key, at, "factor is U[:, :m] * sqrt(ev[:m]): " + show(g1, 6))
        except Unk as e:
            ctx.und(key, at, str(e))
    # sample from the factor
    f = ctx.method(c, "_sample")
    r = ctx.run_method(c, "_sample", opaque={"svd_dcmp"}, fields={"_cov_l_factor": sym("#L"), "n_approx_terms": sym("#m")})
    v = subst(r.eng.deref(r.value, r.state), {none(sym("#L")): FALSE})
    ds = [e for e in r.events if e.kind == "call" and e.name.startswith("numpy.random.")]
    if len(ds) != 1:
        ctx.und("sample@SpatialCorrelatedField", f.full, "%d draws" % len(ds))
        return
    d = ds[0]
    a = list(d.args)
    nm = last(d.name)
    loc, scale, size = (d.kw.get("loc", a[0] if a else const(0)), d.kw.get("scale", a[1] if len(a) > 1 else const(1)), d.kw.get("size", a[2] if len(a) > 2 else None)) if nm == "normal" else (const(0), const(1), d.kw.get("size", a[0] if a else None))
    size = subst(size, {none(sym("#L")): FALSE}) if size is not None else None
    if nm not in ("normal", "standard_normal", "randn"):
        ctx.bad("normal@SpatialCorrelatedField", d.where(), "random numbers are not normal: " + d.name)
    else:
        ctx.req(is_const(loc) and loc.args[0] == 0 and is_const(scale) and scale.args[0] == 1, "normal@SpatialCorrelatedField", d.where(), "independent standard normal numbers are drawn: loc %s, scale %s" % (show(loc, 3), show(scale, 3)))
    try:
        ix = Ix({sym("#L"): Arr((sym("#n"), sym("#m")), lambda i: mk("sub", mk("sub", sym("#L"), i[0]), i[1])), d.result: Arr((sym("#m"),), lambda i: mk("sub", sym("#z"), i[0]))})
        got = ix.ev(v)
        want = ix.ev(mk("bin", "@", sym("#L"), d.result))
        i = mk("tvf", 0)
        ok = len(got.dims) == 1 and ix.norm(got.fn([i])) is ix.norm(want.fn([i]))
        ctx.req(ok, "sample@SpatialCorrelatedField", f.full, "sample is factor times the normal vector: " + show(v, 5))
        if size is None:
            ctx.bad("draw-size@SpatialCorrelatedField", d.where(), "a single number is drawn for all the terms")
        elif any(z in (sym("#m"), sub(attr(sym("#L"), "shape"), const(1)), sub(attr(sym("#L"), "shape"), const(-1))) for z in ([size] + list(size.args) if size.op == "tuple" and len(size.args) == 1 else [size])):
            ctx.ok("draw-size@SpatialCorrelatedField", d.where(), "one number for every column")
        else:
            ctx.und("draw-size@SpatialCorrelatedField", d.where(), show(size, 4))
    except Unk as e:
        ctx.und("sample@SpatialCorrelatedField", f.full, str(e))


def count(d):
    if d.op == "range" and len(d.args) == 2:
        return mk("bin", "-", d.args[1], d.args[0])
    return d


def not_integer(t):
    """a sub-value that is certainly not an integer in general, reached without a conversion"""
    if t.op == "call":
        n = last(t.args[0])
        if n in ("ceil", "floor", "rint", "round", "bisect", "brentq", "sqrt", "log") and t.args[0] not in ("math.ceil", "math.floor", "builtins.round"):
            return t
        if n in ("max", "min", "maximum", "minimum"):
            for x in t.args[1:]:
                y = not_integer(x) if isinstance(x, T) else None
                if y is not None:
                    return y
    if t.op == "ite":
        for x in t.args[1:]:
            y = not_integer(x)
            if y is not None:
                return y
    if t.op == "bin":
        if t.args[0] == "/":
            return t
        if t.args[0] in "+-*":
            for x in t.args[1:]:
                y = not_integer(x)
                if y is not None:
                    return y
    if t.op == "const" and isinstance(t.args[0], float) and not float(t.args[0]).is_integer():
        return t
    return None


def svd_part(y):
    """(decomposition, part) for U, ev, VT = svd(...)"""
    if y.op == "sub" and is_const(y.args[1]) and y.args[0].op in ("call", "occ") and has_top(y.args[0]):
        return y.args[0], y.args[1].args[0]
    if y.op == "last" and y.args[-1].op == "sub" and is_const(y.args[-1].args[1]) and has_top(y.args[-1].args[0]):
        return mk("last", *(list(y.args[:-1]) + [y.args[-1].args[0]])), y.args[-1].args[1].args[0]
    return None


def has_top(t):
    if t.op == "occ":
        t = t.args[0]
    return t.op == "call" and last(t.args[0]) in ("svd", "randomized_svd", "eigh", "eig")


def alternatives(*ts):
    """cases of the conditions that the values have in common"""
    cs = []
    for t in ts:
        for x in walk(t):
            if x.op == "ite" and x.args[0] not in cs and not contains(x.args[0], lambda y: y.op in ("mu", "idx")):
                cs.append(x.args[0])
    cs = [c for c in cs if c.op == "cmp"][:4]
    out = []

    def go(i, g, vs):
        if i == len(cs):
            if (g, vs) not in out:
                out.append((g, vs))
            return
        c = cs[i]
        if not any(contains(v, c) for v in vs):
            return go(i + 1, g, vs)
        for b in (True, False):
            go(i + 1, g + [(c, b)], [subst(v, {c: TRUE if b else FALSE}) for v in vs])
    go(0, [], list(ts))
    return out


# ------------------------------------------------------------------------------------------------ R03, Fourier fields
def row(t, j):
    """row j of a value assembled by stores of rows"""
    if t.op == "store":
        if is_const(t.args[1]):
            return t.args[2] if t.args[1].args[0] == j else row(t.args[0], j)
        raise Unk("store at " + show(t.args[1], 3))
    if t.op == "bin":
        return mk("bin", t.args[0], row(t.args[1], j), row(t.args[2], j))
    if t.op == "un":
        return mk("un", t.args[0], row(t.args[1], j))
    if t.op == "ite":
        raise Unk("open condition " + show(t.args[0], 3))
    if t.op == "seq" or t.op == "tuple" or t.op == "list":
        return t.args[j]
    if any(x.op == "store" for x in walk(t)):
        raise Unk(show(t, 4))
    if t.op == "call" and t.args[0] in ("numpy.array", "numpy.stack", "numpy.vstack") and len(t.args) > 1 and t.args[1].op in ("tuple", "list"):
        return t.args[1].args[j]
    return t


def draws(t):
    """calls of a random stream in a formula: [(occurrence, call)]"""
    out = []
    inner = set()
    for x in walk(t):
        if x.op == "occ":
            inner.add(x.args[0])
    for x in walk(t):
        c = x.args[0] if x.op == "occ" else x
        if x in inner:
            continue
        if isinstance(c, T) and c.op == "call" and last(c.args[0]) in ("normal", "uniform", "random_sample", "rand", "random", "standard_normal", "rayleigh", "weibull", "standard_cauchy", "choice", "randn", "standard_exponential", "exponential"):
            out.append((x, c))
    return out


def pos(c, k, kw, dflt=None):
    a = [x for x in c.args[1:] if isinstance(x, T) and x.op != "kw"]
    for x in c.args[1:]:
        if isinstance(x, T) and x.op == "kw" and x.args[0] == kw:
            return x.args[1]
    a = a[1:]                       # the stream
    return a[k] if k < len(a) else dflt


def is_number(t):
    try:
        numid.value(t, {})
        return True
    except (numid.Open, ArithmeticError, TypeError):
        return False


@prop("R03", "")
def r03_spectrum(ctx):
    c = ctx.prog.cls(MOD + "FourierSpatialCorrelatedField")
    r = ctx.run_method(c, "_initialize")
    LS = attr(SELF, "len_scale")
    ls = heap(r, SELF, "len_scale")
    L = attr(SELF, "_corr_length")
    PI = mk("ext", "numpy.pi")
    B = lambda o, p, q: mk("bin", o, p, q)
    C = lambda n, *a: mk("call", "numpy." + n, *a)
    if ls is None:
        raise AnchorError("FourierSpatialCorrelatedField.len_scale")
    U, TH = sym("#u"), sym("#theta")
    rg = {L: (0.1, 3.0), U: (0.05, 0.95), TH: (0.1, 6.0)}
    for m in ("gau", "exp"):
        f = ctx.method(c, m)
        at = f.full
        for d in (1, 2):
            key = "spectrum@%s-%dD" % (m, d)
            r = ctx.run_method(c, m, opaque={"_get_random_stream"}, fields={"dim": const(d)})
            v = r.eng.deref(r.value, r.state)
            P = f.params()
            n = sym(P[1] if P[0] == "self" else P[0])
            deep_v = decide(v, {none(n): False})
            deep_v = r.eng.deref(deep_v, r.state)
            deep_v = decide(deep_v, {none(n): False})
            try:
                rows = [subst(row(deep_v, j), {LS: ls}) for j in range(d)]
                dr = {x for q in rows for x in draws(q)}
                if d == 1 and m == "gau":
                    if len(dr) != 1 or last(list(dr)[0][1].args[0]) not in ("normal", "standard_normal"):
                        raise Unk(show(rows[0], 6))
                    x, call = list(dr)[0]
                    nm = last(call.args[0])
                    mean, sd = (pos(call, 0, "loc", const(0)), pos(call, 1, "scale", const(1))) if nm == "normal" else (const(0), const(1))
                    z0, z1 = subst(rows[0], {x: mean}), subst(rows[0], {x: B("+", mean, sd)})
                    got = B("**", B("-", z1, z0), const(2))
                    want = B("/", const(1), B("*", const(2), B("**", B("*", PI, L), const(2))))
                    ok = numid.equal(z0, const(0), rg) and numid.equal(got, want, rg)
                    ctx.req(ok, key, at, "frequencies N(0, s^2), (2 pi s)^2 / 2 = 1 / L^2, so the covariance is exp(-r^2/L^2): s^2 = " + show(got, 8))
                elif d == 1:
                    if len(dr) != 1 or last(list(dr)[0][1].args[0]) not in ("uniform", "random_sample", "rand", "random"):
                        raise Unk(show(rows[0], 6))
                    x, call = list(dr)[0]
                    lo, hi = (pos(call, 0, "low", const(0)), pos(call, 1, "high", const(1))) if last(call.args[0]) == "uniform" else (const(0), const(1))
                    z = subst(rows[0], {x: B("+", lo, B("*", U, B("-", hi, lo)))})
                    want = B("/", C("tan", B("*", PI, B("-", U, const(0.5)))), B("*", B("*", const(2), PI), L))
                    ok = any(numid.equal(z, w, rg) for w in (want, mk("un", "-", want)))
                    ctx.req(ok, key, at, "frequencies tan(U(-pi/2, pi/2)) / (2 pi L) (Cauchy), so the covariance is exp(-r/L): " + show(rows[0], 8))
                else:
                    m2 = {}
                    for x, call in dr:
                        nm = last(call.args[0])
                        if nm not in ("uniform", "random_sample", "rand", "random"):
                            raise Unk(show(call, 4))
                        lo, hi = (pos(call, 0, "low", const(0)), pos(call, 1, "high", const(1))) if nm == "uniform" else (const(0), const(1))
                        w = B("-", hi, lo)
                        if numid.equal(w, B("*", const(2), PI), {}):
                            m2[x] = TH if is_const(lo) and lo.args[0] == 0 else B("+", lo, TH)
                        elif numid.equal(w, const(1), {}):
                            m2[x] = B("+", lo, U)
                        elif all(any(y.op == "call" and y.args[0] == "numpy." + t and y.args[1] is x for q in rows for y in walk(q)) for t in ("cos", "sin")) and is_number(w):
                            ctx.bad("direction@%s-%dD" % (m, d), at, "directions uniform on the circle: NOT SATISFIED, the angle has the range %s" % show(w, 4))
                            raise Unk("range of the angle " + show(w, 4))
                        else:
                            raise Unk(show(call, 4))
                    if len(dr) != 2 or len(set(m2.values())) != 2:
                        raise Unk("draws " + ", ".join(show(x, 4) for x, _ in dr))
                    z = [subst(q, m2) for q in rows]
                    r2 = B("+", B("**", z[0], const(2)), B("**", z[1], const(2)))
                    if m == "gau":
                        rad2 = lambda u: B("/", mk("un", "-", C("log", u)), B("**", B("*", PI, L), const(2)))
                        what = "radius^2 = -log(u) / (pi L)^2, so the covariance is exp(-r^2/L^2)"
                    else:
                        rad2 = lambda u: B("/", B("-", B("/", const(1), B("**", u, const(2))), const(1)), B("**", B("*", B("*", const(2), PI), L), const(2)))
                        what = "radius^2 = (1/u^2 - 1) / (2 pi L)^2, so the covariance is exp(-r/L)"
                    ok = any(numid.equal(r2, rad2(u), rg) for u in (U, B("-", const(1), U)))
                    ctx.req(ok, key, at, what + ": " + show(r2, 7))
                    dirs = [B("**", B("/", q, C("sqrt", r2)), const(2)) for q in z]
                    c2, s2 = B("**", C("cos", TH), const(2)), B("**", C("sin", TH), const(2))
                    ok = any(numid.equal(dirs[0], a, rg) and numid.equal(dirs[1], b, rg) for a, b in ((c2, s2), (s2, c2)))
                    ctx.req(ok, "direction@%s-%dD" % (m, d), at, "directions uniform on the circle: " + ", ".join(show(q, 5) for q in rows))
            except (Unk, numid.Open) as e:
                ctx.und(key, at, str(e)[:200])


@prop("R03", "")
def r03_modes(ctx):
    c = ctx.prog.cls(MOD + "FourierSpatialCorrelatedField")
    f = ctx.method(c, "random_field")
    at = f.full
    B = lambda o, p, q: mk("bin", o, p, q)
    PI = mk("ext", "numpy.pi")
    NM = attr(SELF, "mode_no")
    norm = Norm()
    CE = attr(SELF, "correlation_exponent")
    PT = attr(SELF, "points")
    for d in (1, 2, 3):
        r = ctx.run_method(c, "random_field", opaque={"_get_random_stream", "gau", "exp", "get_normal_distr"}, fields={"dim": const(d)})
        v = r.eng.deref(r.value, r.state)
        sums = {x for x in walk(v) if x.op == "bsum"}
        sums = [x for x in sums if not any(x is not y and x in set(walk(y)) for y in sums)]
        if len(sums) != 1:
            ctx.und("modes@%dD" % d, at, show(v, 6))
            continue
        S = sums[0]
        idx, dom, body = S.args[0], S.args[1], S.args[2]
        # the factor
        acc = [x for x in walk(v) if x.op == "amb" and S in set(walk(x))]
        acc += [x for x in walk(v) if x.op == "bin" and x.args[0] == "+" and S in x.args[1:]]
        top = acc[0] if acc else S
        rg = {NM: (3.0, 50.0), sym("#s"): (0.5, 2.0)}
        try:
            ok = numid.equal(subst(v, {top: sym("#s")}), B("*", sym("#s"), mk("call", "numpy.sqrt", B("/", const(1), NM))), rg)
            ctx.req(ok, "factor@%dD" % d, at, "field = sqrt(1/N) * sum of modes: " + show(subst(v, {top: sym("#s")}), 6))
        except numid.Open as e:
            ctx.und("factor@%dD" % d, at, str(e)[:200])
        choice(ctx, r, d, at)
        # slices
        sl = {x for x in walk(body) if x.op == "slice" and x.args[:2] != (NONE, NONE)}
        key = "chunks@%dD" % d
        if len(sl) == 1 and dom.op != "while":
            a, e, st = list(sl)[0].args
            cl = norm(B("-", e, a))
            nxt = norm(subst(a, {idx: B("+", idx, const(1))}))
            ok = norm(subst(a, {idx: const(0)})) is norm(const(0)) and nxt is norm(e) and st is NONE
            ceil = [x for x in walk(cl) if x.op == "call" and last(x.args[0]) == "ceil"]
            ok2 = len(ceil) == 1 and norm(ceil[0].args[1]) is norm(B("/", NM, dom))
            short = None
            if not ok2:
                try:
                    short = [(n, k) for n in range(1, 40) for k in range(1, 10) if numid.value(subst(B("-", e, a), {idx: const(0)}), {NM: n, dom: k}) * k < n]
                except (numid.Open, ArithmeticError, TypeError):
                    pass
                ok2 = short is not None
            if short:
                ctx.bad(key, at, "with %d modes in %d chunks the last modes are left out: chunk length %s" % (short[0] + (show(cl, 5),)))
            elif not ok2:
                ctx.und(key, at, "chunk length " + show(cl, 5))
            else:
                ctx.req(ok, key, at, "consecutive chunks of ceil(N / chunks) modes: %s : %s" % (show(a, 5), show(e, 5)))
        elif len(sl) > 1:
            ctx.bad(key, at, "frequencies and amplitudes of different modes are combined: " + " / ".join(show(x, 5) for x in sl))
        else:
            ctx.und(key, at, show(body, 6))
        # the summed function
        key = "function@%dD" % d
        b = body
        shape_ok = True
        while b.op == "call" and last(b.args[0]) in ("squeeze", "sum"):
            if last(b.args[0]) == "sum":
                ax = [x.args[1] for x in b.args[1:] if isinstance(x, T) and x.op == "kw" and x.args[0] == "axis"] + list(b.args[2:3])
                shape_ok = bool(ax) and ax[0].op in ("const", "un") and show(ax[0]) in ("-1", "1")
            b = b.args[1]
        b = subst(b, {cmpop("==", CE, const(2)): TRUE, cmpop("!=", CE, const(2)): FALSE})
        ctx.req(shape_ok, "axis@%dD" % d, at, "summed over the modes")
        z = [sym("#z0"), sym("#z1")]
        k = [sym("#k%d" % i) for i in range(3)]
        xs = [sym("#x%d" % i) for i in range(3)]
        m = {}
        bad = None
        for x in walk(b):
            if x.op == "sub" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and is_const(x.args[1].args[0]):
                i = x.args[1].args[0].args[0]
                names = {last(y.args[0]) for y in walk(x.args[0]) if y.op == "call"}
                if "get_normal_distr" in names:
                    m[x] = z[i] if i in (0, 1) else None
                elif "gau" in names or "exp" in names:
                    m[x] = k[i] if 0 <= i < 3 else None
            elif x.op == "call" and last(x.args[0]) == "reshape" or x is PT:
                base = x.args[1] if x is not PT else x
                if base.op == "sub" and base.args[0] is attr(PT, "T") and is_const(base.args[1]):
                    m[x] = xs[base.args[1].args[0]]
                elif base is PT and d == 1:
                    m[x] = xs[0]
        m = {a: q for a, q in m.items() if q is not None}
        g = subst(b, m)
        ph = None
        for i in range(d):
            t = B("*", k[i], xs[i])
            ph = t if ph is None else B("+", ph, t)
        ph = B("*", B("*", const(2), PI), ph)
        want = lambda p, q: B("+", B("*", p, mk("call", "numpy.cos", ph)), B("*", q, mk("call", "numpy.sin", ph)))
        rg = {x: (0.3, 2.0) for x in z + k[:d] + xs[:d]}
        try:
            ok = any(numid.equal(g, w, rg) for w in (want(z[0], z[1]), want(z[1], z[0])))
            ctx.req(ok, key, at, "mode = Z0 cos(2 pi k.x) + Z1 sin(2 pi k.x): " + show(g, 9))
        except numid.Open as e:
            ctx.und(key, at, str(e)[:200])
        # nothing of an attempt that ran out of memory is kept
        key = "retry@%dD" % d
        whiles = [mu for mu in r.eng.loopinfo if r.eng.loopinfo[mu][3].op == "while"]
        carried = [mu for mu in whiles if mu in set(walk(top)) and not any(mu in set(walk(x)) for x in (dom, body))]
        if carried:
            z = [e for e in r.events if (e.kind == "setitem" and len(e.args) == 2 and is_const(e.args[1]) and e.args[1].args[0] == 0 and (e.args[0].op == "const" and e.args[0].args[0] is Ellipsis or show(e.args[0]) == "Ellipsis" or e.args[0] is FULL)
                                         or e.kind == "call" and last(e.name) == "fill" and e.args and is_const(e.args[-1]) and e.args[-1].args[0] == 0) and len(e.loops) == 1]
            ctx.req(bool(z), key, at, "sum starts from zero in every attempt")
        elif dom.op != "while":
            ctx.ok(key, at, "sum starts anew in every attempt")


def choice(ctx, r, d, at):
    """the spectrum belongs to the exponent of the field"""
    CE = attr(SELF, "correlation_exponent")
    for ex, nm in ((2.0, "gau"), (1.0, "exp")):
        key = "spectrum-choice@%dD" % d
        alive = []
        for e in r.events:
            if e.kind != "call" or last(e.name) not in ("gau", "exp") or e.name.startswith("numpy"):
                continue
            vs = [truth_of(subst(g, {CE: const(ex)}), p) for g, p in conds(e) if contains(g, CE)]
            if False in vs:
                continue
            if None in vs:
                alive = None
                break
            alive.append(last(e.name))
        if not alive:
            ctx.und(key, at, "choice of the spectrum")
        else:
            ctx.req(set(alive) == {nm}, key, at, "for exponent %s the frequencies come from the spectrum %s; found %s" % (ex, nm, sorted(set(alive))))


def truth_of(g, p):
    if g.op == "cmp":
        g = cmpop(*g.args)
    if g.op == "not":
        return truth_of(g.args[0], not p)
    return bool(g.args[0]) == p if g.op == "const" else None


@prop("R03", "")
def r03_amplitudes(ctx):
    c = ctx.prog.cls(MOD + "FourierSpatialCorrelatedField")
    f = ctx.method(c, "get_normal_distr")
    r = ctx.run_method(c, "get_normal_distr", opaque={"_get_random_stream"})
    at = f.full
    NM = attr(SELF, "mode_no")
    v = r.eng.deref(r.value, r.state)
    key = "amplitudes@FourierSpatialCorrelatedField"
    draw = [e for e in r.events if e.kind == "call" and last(e.name) in ("normal", "standard_normal", "randn", "uniform", "random", "rand", "random_sample")]
    sizes = set()
    for d in draw:
        if last(d.name) not in ("normal", "standard_normal", "randn"):
            ctx.bad(key, d.where(), "amplitudes are not normal: " + last(d.name))
            return
        nm, a = last(d.name), list(d.args)
        if nm == "normal":
            loc, sc, size = d.kw.get("loc", a[0] if a else const(0)), d.kw.get("scale", a[1] if len(a) > 1 else const(1)), d.kw.get("size", a[2] if len(a) > 2 else None)
        else:
            loc, sc, size = const(0), const(1), d.kw.get("size", a[0] if len(a) == 1 else mk("tuple", *a) if a else None)
        std = is_const(loc) and loc.args[0] == 0 and is_const(sc) and sc.args[0] == 1
        ctx.req(std, "standard@FourierSpatialCorrelatedField", d.where(), "standard normal amplitudes: loc %s, scale %s" % (show(loc, 3), show(sc, 3)))
        if size is not None and size.op in ("tuple", "list") and len(size.args) == 1:
            size = size.args[0]
        if size is None and not d.loops:
            ctx.bad(key, d.where(), "one number for all the modes")
            return
        sizes.add(size)
    if sizes == {NM} and len(draw) == 1 and not draw[0].loops and not any(x.op in ("map", "lam") for x in walk(v)):
        ctx.req(draw[0].result not in set(walk(v)), key, draw[0].where(), "both amplitudes of a mode are the same number: " + show(v, 5))
    elif sizes == {NM} and len(draw) == 1:
        ctx.ok(key, draw[0].where(), "every row is drawn on its own")
    elif sizes == {NM} and len(draw) == 2:
        try:
            rows = [{x for x, _ in draws(row(v, j))} for j in (0, 1)]
        except Unk as e:
            ctx.und(key, at, str(e))
            return
        if any(len(x) != 1 for x in rows):
            ctx.und(key, at, show(v, 6))
        else:
            ctx.req(rows[0] != rows[1], key, at, "the two amplitudes of a mode are independent draws: " + show(v, 6))
    elif len(sizes) == 1 and len(draw) == 1 and list(sizes)[0].op in ("tuple", "list"):
        sz = list(sizes)[0]
        ok = len(sz.args) == 2 and is_const(sz.args[0]) and sz.args[0].args[0] == 2 and sz.args[1] is NM
        ctx.req(ok, key, at, "2 x N numbers: " + show(sz, 3))
    else:
        ctx.und(key, at, "%d draws of %s" % (len(draw), sorted(show(x, 3) for x in sizes)))


@prop("R03", "")
def r03_coordinates(ctx):
    """the coordinates are given to gstools in the order of the axes"""
    c = ctx.prog.cls(MOD + "GSToolsSpatialCorrelatedField")
    f = ctx.method(c, "random_field")
    PT = attr(SELF, "points")
    for d in (1, 2, 3):
        key = "coordinates@%dD" % d
        r = ctx.run_method(c, "random_field", fields={"dim": const(d)})
        es = [e for e in r.events if e.kind == "call" and e.args and contains(r.eng.deref(e.args[0], r.state), PT) and (last(e.name) in ("srf", "__call__", "apply", "unstructured"))]
        if len(es) != 1:
            ctx.und(key, f.full, "%d evaluations of the field" % len(es))
            continue
        a = r.eng.deref(es[0].args[0], r.state)
        cols = []
        for x in (a.args if a.op in ("tuple", "list") else ()):
            x = r.eng.deref(x, r.state)
            while True:
                if x.op == "call" and last(x.args[0]) in ("reshape", "ravel", "flatten", "squeeze", "array", "asarray"):
                    x = x.args[1]
                else:
                    break
            if x.op == "sub" and x.args[0] is attr(PT, "T") and is_const(x.args[1]):
                cols.append(x.args[1].args[0])
            elif x.op == "sub" and x.args[0] is PT and x.args[1].op == "tuple" and is_const(x.args[1].args[-1]):
                cols.append(x.args[1].args[-1].args[0])
            elif x is PT and d == 1:
                cols.append(0)
            else:
                cols.append(None)
        if a is attr(PT, "T"):
            cols = list(range(d))
        if None in cols or not cols:
            ctx.und(key, es[0].where(), show(a, 5))
            continue
        ctx.req(cols == list(range(d)), key, es[0].where(), "coordinates in the order of the axes: %s" % cols)
