"""Simulations: fine and coarse sample from one random input, reproducibility by the seed, level configuration and mesh extraction."""
from rules.registry import prop
from rules.common import *
from rules.r_pool import thread_pools
from sa import numid
from sa.ixform import Ix, Arr, Unk, SizeErr, fresh
from sa.repo import AnchorError
from sa.terms import Norm

FLOW = "mlmc.tool.flow_mc.FlowSim"
SYN = "mlmc.sim.synth_simulation."
HF, HC = sym("HF"), sym("HC")


def pos(t):
    return [a for a in t.args[1:] if isinstance(t, T) and isinstance(a, T) and a.op != "kw"]


# ------------------------------------------------------------------------------------------------- synthetic
def drop_nan(t):
    """the branch that injects artificial NaN results (always rejected) is left aside"""
    m = {}
    for x in walk(t):
        if x.op == "ite":
            for a, b in ((1, 2), (2, 1)):
                if contains(x.args[a], lambda y: y.op == "ext" and last(y.args[0]) == "nan") and not contains(x.args[b], lambda y: y.op == "ext" and last(y.args[0]) == "nan"):
                    m[x] = x.args[b]
    return drop_nan(subst(t, m)) if m else t


def settle(t, zero):
    """decide tests of the coarse step against zero; the fine step is positive"""
    for _ in range(4):
        m = {}
        for x in walk(t):
            if x.op == "cmp":
                o, a, b = x.args
                if is_const(b) and not is_const(a):
                    o, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o), b, a
                if is_const(a) and isinstance(a.args[0], (int, float)) and a.args[0] == 0 and b in (HF, HC):
                    z = zero and b is HC
                    v = {"==": z, "!=": not z, "<": not z, "<=": True, ">": False, ">=": z}.get(o)
                    if v is not None:
                        m[x] = TRUE if v else FALSE
            elif x.op == "ite" and x.args[0] in (HF, HC):
                m[x] = x.args[2] if zero and x.args[0] is HC else x.args[1]
        if not m:
            break
        t = subst(t, m)
    return t


def is_nan_test(c):
    return contains(c, lambda y: y.op == "call" and last(y.args[0]) in ("isnan", "isfinite")) or contains(c, lambda y: y.op == "ext" and last(y.args[0]) == "nan")


def syn_ix():
    ix = Ix({})

    def hook(t):
        if t.op == "occ":
            return Arr((mk("dim", t),), lambda i: mk("sub", t, i[0]))
        if t in (HF, HC) or t.op == "attr" and t.args[1] in ("eps", "tiny") and t.args[0].op in ("call", "occ"):
            return ix.scalar(t)
        if t.op == "call" and t.args[0] in ("numpy.sort", "numpy.flip", "numpy.roll", "numpy.random.permutation") and len(t.args) >= 2:
            a = ix.ev(t.args[1])
            if len(a.dims) == 1:
                return Arr(a.dims, lambda i: mk("sub", t, i[0]))
        return None
    ix.hook = hook
    return ix


def flat_body(t):
    """the array whose C-order flattening t is"""
    if t.op == "call" and last(t.args[0]) in ("flatten", "ravel") and len(t.args) == 2:
        return t.args[1]
    if t.op == "call" and last(t.args[0]) == "reshape" and len(t.args) == 3 and (is_const(t.args[2], -1) or t.args[2].op == "tuple" and len(t.args[2].args) == 1):
        return t.args[1]
    if t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray") and len(t.args) == 2:
        return flat_body(t.args[1])
    return None


def syn_results(ctx, cls):
    f = ctx.method(SYN + cls, "calculate")
    r = ctx.run_method(SYN + cls, "calculate")
    v = r.eng.deref(r.value, r.state)
    cfg = sym(f.params()[0])
    m = {}
    for x in walk(v):
        if x.op == "sub" and is_const(x.args[1], "step") and x.args[0].op == "sub" and x.args[0].args[0] is cfg and is_const(x.args[0].args[1]):
            m[x] = {"fine": HF, "coarse": HC}.get(x.args[0].args[1].args[0], x)
    v = drop_nan(subst(v, m))
    return f, r, v, m


@prop("F01", "Value flow of calculate of every bundled simulation: the random draw reaching the fine and the coarse result, array denotation of both results (axes, element formula), independence of the fine result of the coarse step, and for the flow simulation one Fields.sample() over fine+coarse points, split back by the element counts, with the write/run/read order of both solver runs.",
      ["the external solver is a function of its input files", "scipy rvs draws depend only on the generator state"])
def f01_synth(ctx):
    for cls in ("SynthSimulation", "SynthSimulationWorkspace"):
        f, r, v, m = syn_results(ctx, cls)
        if v.op not in ("tuple", "list") or len(v.args) != 2:
            ctx.und("result@" + cls, f.full, "result is not a pair: " + show(v, 4))
            continue
        n = Ix({}).norm
        # one random input
        seen = {}
        for k, nm in ((0, "fine"), (1, "coarse")):
            t = settle(v.args[k], False)
            seen[nm] = {x for x in walk(t) if x.op == "occ" and contains(x, lambda y: y.op == "call" and last(y.args[0]) in DRAWS)}
        if not seen["fine"]:
            ctx.und("draw@" + cls, f.full, "no random draw found in the fine result")
            continue
        ctx.req(seen["fine"] == seen["coarse"], "same-draw@" + cls, f.full,
                "fine and coarse result are computed from the same random draw(s): fine %s, coarse %s" % (", ".join(sorted(show(x, 3) for x in seen["fine"])), ", ".join(sorted(show(x, 3) for x in seen["coarse"]))))
        arr = {}
        for zero in (False, True):
            for k, nm in ((0, "fine"), (1, "coarse")):
                t = settle(v.args[k], zero)
                b = flat_body(t)
                if b is None and t.op == "call" and last(t.args[0]) in ("flatten", "ravel", "reshape") and any(is_const(y, "F") for x in t.args[1:] if isinstance(x, T) for y in (x.args if x.op == "kw" else (x,)) if isinstance(y, T)):
                    ctx.bad("layout@%s.%s%s" % (cls, nm, " (first level)" if zero else ""), f.full, "values in the order of columns, not of the result format: " + show(t, 3))
                elif b is None:
                    ctx.und("layout@%s.%s%s" % (cls, nm, " (first level)" if zero else ""), f.full, "result is not a flattened array: " + show(t, 3))
                    continue
                try:
                    arr[nm, zero] = syn_ix().ev(b)
                except Unk as e:
                    ctx.und("layout@%s.%s%s" % (cls, nm, " (first level)" if zero else ""), f.full, str(e))
        js = [mk("tvf", i) for i in range(8)]

        def at(a, h=None):
            e = n(a.fn(js[:len(a.dims)]))
            return subst(e, h) if h else e
        hs = sym("h")
        if ("fine", False) in arr and ("coarse", False) in arr:
            F, C = arr["fine", False], arr["coarse", False]
            # C-order flattening: axes must agree, entries must be the same function of the step
            same = len(F.dims) == len(C.dims) and all(n(subst(a, {HF: hs})) is n(subst(b, {HC: hs})) for a, b in zip(dims_at(F, js), dims_at(C, js)))
            ctx.req(same, "aligned@" + cls, f.full, "fine and coarse result have the same layout: %s / %s" % ([show(d, 3) for d in F.dims], [show(d, 3) for d in C.dims]))
            if same:
                ef, ec = n(subst(plain_all(at(F)), {HF: hs})), n(subst(plain_all(at(C)), {HC: hs}))
                ctx.req(ef is ec, "same-model@" + cls, f.full, "the entries of both results are the same function of the random input and of their own step: fine %s, coarse %s" % (show(at(F), 8), show(at(C), 8)))
            ctx.req(not contains(at(F), HC), "fine-independent@" + cls, f.full, "the fine result does not depend on the coarse step: " + show(at(F), 8))
        if ("fine", False) in arr and ("fine", True) in arr:
            a, b = at(arr["fine", False]), at(arr["fine", True])
            ctx.req(a is b, "fine-every-level@" + cls, f.full,
                    "with the same step and random input the fine result is the same on the first level and on the other levels (consecutive level differences telescope): %s / %s" % (show(b, 8), show(a, 8)))
        if ("coarse", True) in arr:
            a = at(arr["coarse", True])
            ctx.req(is_const(a, 0), "coarse-zero@" + cls, f.full, "coarse result of the first level is zero: " + show(a, 8))
            if ("fine", True) in arr:
                F, C = arr["fine", True], arr["coarse", True]
                ok = len(F.dims) == len(C.dims) and all(same_dim(a, b, n) for a, b in zip(dims_at(F, js), dims_at(C, js)))
                if ok:
                    ctx.ok("coarse-zero-size@" + cls, f.full, "as many values as the fine result")
                else:
                    ctx.und("coarse-zero-size@" + cls, f.full, "%s / %s" % ([show(d, 4) for d in F.dims], [show(d, 4) for d in C.dims]))
        # layout: quantity, time, location, components
        if ("fine", False) in arr:
            F = arr["fine", False]
            qf = None
            for x in walk(v):
                if x.op == "sub" and is_const(x.args[1], "res_format"):
                    qf = x
            if qf is None or len(F.dims) != 4:
                ctx.und("order@" + cls, f.full, "axes %s" % [show(d, 3) for d in F.dims])
            else:
                ds = dims_at(F, js)
                q = mk("sub", qf, js[0])
                want = [dim(qf), dim(attr(q, "times")), dim(attr(q, "locations"))]
                for i, (d, w) in enumerate(zip(ds[:3], want)):
                    ctx.req(n(d) is n(w), "order@%s axis %d" % (cls, i), f.full, "axis %d of the result runs over %s: %s" % (i, ("quantities", "times", "locations")[i], show(d, 4)))


@prop("F01", "")
def f01_synth_steps(ctx):
    """steps of the level reach the configuration of the samples; NaN is refused"""
    for cls in ("SynthSimulation", "SynthSimulationWorkspace"):
        f = ctx.method(SYN + cls, "level_instance")
        r = ctx.run_method(SYN + cls, "level_instance", opaque={"n_ops_estimate"})
        ps = [p for p in f.params() if p != "self"]
        lv = r.eng.deref(r.value, r.state)
        cfg = None
        if lv.op == "new":
            kw = {x.args[0]: x.args[1] for x in lv.args[1:] if isinstance(x, T) and x.op == "kw"}
            cfg = r.eng.deref(kw.get("config_dict", NONE), r.state)
        for k, p in (("fine", ps[0]), ("coarse", ps[1])):
            part = dget(cfg, k) if cfg is not None else None
            part = r.eng.deref(part, r.state) if part is not None else None
            x = dget(part, "step") if part is not None else None
            key = "step@%s.%s" % (cls, k)
            if x is None:
                ctx.und(key, f.full, show(cfg, 5) if cfg is not None else show(lv, 4))
            else:
                ctx.req(x is sub(sym(p), const(0)), key, f.full, "%s step of a sample is that of its level: %s" % (k, show(x, 4)))
        f = ctx.method(SYN + cls, "calculate")
        r = ctx.run_method(SYN + cls, "calculate")
        if contains(r.eng.deref(r.value, r.state), lambda y: y.op == "ext" and last(y.args[0]) == "nan"):
            hit = [e for e in r.events if e.kind == "raise" and any(is_nan_test(c) for c, _ in conds(e))]
            ctx.req(bool(hit), "nan@" + cls, f.full, "a sample whose result is not a number fails instead of returning it")
            weak = [y for e in hit for c, p in conds(e) if p and c.op != "not" for y in walk(c) if y.op == "call" and last(y.args[0]) == "all" and len(y.args) == 2 and y.args[1].op == "call" and last(y.args[1].args[0]) == "isnan"]
            for y in weak:
                ctx.bad("nan@" + cls, f.full, "NOT SATISFIED: a sample fails only if all its values are not numbers: " + show(y, 4))
            isn = lambda y: y.op == "call" and last(y.args[0]) == "isnan"
            both = [e for e in hit if len({x for c, p in conds(e) if p and c.op == "call" and last(c.args[0]) == "any" for x in walk(c) if isn(x)}) > 1
                    and all(p and c.op == "call" and last(c.args[0]) == "any" for c, p in conds(e) if contains(c, isn))]
            if both and len(both) == len(hit):
                ctx.bad("nan@" + cls, f.full, "NOT SATISFIED: a sample fails only if both its results contain a value that is not a number: " + " and ".join(show(c, 4) for c, p in conds(both[0])))


DRAWS = ("rvs", "random_sample", "normal", "uniform", "randn", "rand", "random", "randint", "standard_normal", "choice", "sample")


def plain_all(e):
    return e


def dims_at(a, js):
    out = []
    for k, d in enumerate(a.dims):
        # dimensions of nested comprehensions may refer to outer indices
        m = {x: js[x.args[1]] for x in walk(d) if x.op == "idx" and isinstance(x.args[1], int) and x.args[1] < k}
        out.append(subst(d, m))
    return out


def same_dim(a, b, n):
    if n(a) is n(b):
        return True
    # dim(zeros(dim(e))) of an elementwise expression over the draw
    def base(d):
        if d.op == "dim":
            o = {x for x in walk(d) if x.op == "occ"}
            if len(o) == 1:
                return next(iter(o))
        return None
    return base(a) is not None and base(a) is base(b)


# ------------------------------------------------------------------------------------------------- flow
def flow_cfg(coarse):
    return mk("dict", const("fine"), mk("dict", const("step"), HF, const("common_files_dir"), sym("DF")),
              const("coarse"), mk("dict", const("step"), const(coarse), const("common_files_dir"), sym("DC") if coarse else NONE),
              const("fields_params"), sym("FP"), const("fields_used_params"), sym("USED"), const("gmsh"), sym("GM"), const("flow123d"), sym("FLOW123D"))


class Flow:
    pass


def flow_run(ctx, coarse, inline_fields=False):
    f = ctx.method(FLOW, "calculate")
    ps = f.params()
    for nm in ("extract_mesh", "_extract_result"):
        ctx.method(FLOW, nm)
    r = ctx.run_method(FLOW, "calculate", args={ps[0]: flow_cfg(coarse)}, opaque={"extract_mesh", "create_corr_field", "_extract_result", "write_fields"})
    w = Flow()
    w.f, w.r, w.eng, w.seed = f, r, r.eng, sym(ps[1])
    w.MF = w.MC = None
    for e in calls(r, "extract_mesh"):
        if any(contains(a, sym("DF")) for a in e.args):
            w.MF = e.result
        if any(contains(a, sym("DC")) for a in e.args):
            w.MC = e.result
    if w.MF is None or (coarse and w.MC is None):
        raise AnchorError("extract_mesh of the level's meshes")
    m = {}
    for M in (w.MF, w.MC):
        if M is not None:
            m.update({cmpop("is", M, NONE): FALSE, cmpop("==", M, NONE): FALSE, cmpop("is not", M, NONE): TRUE, cmpop("!=", M, NONE): TRUE})
    w.smp = calls(r, "sample")
    w.assume = lambda t: nonempty(subst(t, m))
    w.events = []
    for e in r.events:
        alive = True
        for c, p in conds(e):
            v = truthy(w.assume(c))
            if v is not None and v != p:
                alive = False
        if alive:
            w.events.append(e)
    v = w.assume(r.eng.deref(r.value, r.state))
    w.res = list(v.args) if v.op in ("tuple", "list") else None
    return w


def nonempty(t):
    m = {}
    for x in walk(t):
        if x.op == "ite":
            v = truthy(x.args[0])
            if v is not None:
                m[x] = x.args[1] if v else x.args[2]
    return nonempty(subst(t, m)) if m else t


def truthy(c):
    """truth of a container value: the set of sampled fields is not empty"""
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        v = truthy(c.args[0])
        return None if v is None else not v
    if c.op in ("dict", "list", "tuple"):
        return len(c.args) > 0
    if c.op == "store":
        return True
    if c.op == "fstore" and c.args[5] is TRUE and c.args[2].op == "dim":
        return True
    if c.op == "call" and c.args[0] == "builtins.bool" and len(c.args) == 2:
        return truthy(c.args[1])
    if c.op == "cmp" and c.args[1].op == "dim" and is_const(c.args[2], 0) or c.op == "cmp" and c.args[2].op == "dim" and is_const(c.args[1], 0):
        o, a, b = c.args
        if is_const(a, 0):
            o, a, b = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o), b, a
        v = truthy(a.args[0])
        if v is not None:
            n = 1 if v else 0
            return {"==": n == 0, "!=": n != 0, ">": n > 0, ">=": True, "<": False, "<=": n == 0}.get(o)
    return None


def ev_pos(e, f, name, k):
    """argument `name` (position k) of a call event"""
    for kk, v in (e.kw.items() if isinstance(e.kw, dict) else e.kw):
        if kk == name:
            return v
    return e.args[k] if k < len(e.args) else None


NF, NC = sym("#fine"), sym("#coarse")


def flow_ix(w):
    ix = Ix({})
    S = w.sample

    def mesh(M, n):
        def g(t):
            if t.op == "sub" and t.args[0] is M and is_const(t.args[1]):
                k = t.args[1].args[0]
                if k == "points":
                    return Arr((n, sym("#dim")), lambda i, t=t: mk("sub", mk("sub", t, i[0]), i[1]))
                if k in ("point_region_ids", "ele_ids"):
                    return Arr((n,), lambda i, t=t: mk("sub", t, i[0]))
            return None
        return g
    gs = [mesh(w.MF, NF)] + ([mesh(w.MC, NC)] if w.MC is not None else [])

    def hook(t):
        for g in gs:
            a = g(t)
            if a is not None:
                return a
        if t.op == "dim":
            for M, n in ((w.MF, NF), (w.MC, NC)):
                if M is not None and t.args[0].op == "sub" and t.args[0].args[0] is M and is_const(t.args[0].args[1]) and t.args[0].args[1].args[0] in ("points", "point_region_ids", "ele_ids"):
                    return ix.scalar(n)
        if S is not None and t.op == "sub" and t.args[0] is S:
            tot = NF if w.MC is None else mk("bin", "+", NF, NC)
            return Arr((tot,), lambda i, t=t: mk("sub", mk("sub", S, sym("#name")), i[0]))
        if t in (NF, NC):
            return ix.scalar(t)
        return None
    ix.hook = hook
    return ix


def field_values(t, S):
    """dict {name: values} of the sampled fields -> (values term at a generic name, complete over names) or None"""
    if t.op == "fstore":
        base, idx, dom, key, val, g = t.args
        if base.op == "dict" and not base.args and g is TRUE and dom is dim(S):
            k = sym("#name")
            if key.op == "key" and key.args[0] is S and key.args[1] is idx:
                return subst(val, {key: k})
            if key.op == "sub" and key.args[1] is idx:
                return subst(val, {key: k})
    return None


@prop("F01", "")
def f01_flow(ctx):
    for coarse in (2, 0):
        w = flow_run(ctx, coarse)
        lv = "two-level" if coarse else "first level"
        at = w.f.full
        evs = w.events
        smp = [e for e in evs if e.kind == "call" and last(e.name) == "sample"]
        if not smp:
            ctx.und("draw@FlowSim " + lv, at, "no call of Fields.sample")
            continue
        one = len(smp) == 1 and not smp[0].loops
        ctx.req(one, "one-draw@FlowSim " + lv, at, "the random fields of the fine and the coarse simulation come from a single Fields.sample() call (found %d)" % len(smp))
        if not one:
            continue
        w.sample = smp[0].result
        fields = smp[0].recv
        sp = [e for e in evs if e.kind == "call" and last(e.name) == "set_points" and e.recv is fields]
        if len(sp) != 1:
            ctx.und("points@FlowSim " + lv, at, "%d calls of set_points" % len(sp))
            continue
        sp = sp[0]
        ctx.req(precedes(sp, smp[0]) or sp.seq < smp[0].seq, "points-first@FlowSim " + lv, at, "evaluation points are set before the fields are sampled")
        j = mk("tvf", 0)
        blocks = {}
        for nm, kk, i in (("points", "points", 0), ("region_ids", "point_region_ids", 1)):
            t = w.assume(ev_pos(sp, None, nm, i) or NONE)
            ix = flow_ix(w)
            parts = (split_concat(t) if coarse else [t]) or [t]
            who = [which(x, w, kk, ix) for x in parts]
            if None in who:
                ctx.und("points@FlowSim %s %s" % (lv, nm), at, show(t, 6))
                continue
            want = ["coarse", "fine"] if coarse else ["fine"]
            blocks[nm] = who
            ctx.req(sorted(who) == want, "points@FlowSim %s %s" % (lv, nm), at, "the %s are those of %s: %s" % (nm, "the fine and of the coarse mesh" if coarse else "the fine mesh", " + ".join(who)))
        if len(blocks) < 2:
            continue
        ctx.req(blocks["points"] == blocks["region_ids"], "points-regions@FlowSim " + lv, at, "points and their region ids are in the same order: %s / %s" % (blocks["points"], blocks["region_ids"]))
        coarse_first = blocks["points"][0] == "coarse"
        rm = w.assume(ev_pos(sp, None, "region_map", 2) or NONE)
        okm = rm.op == "sub" and rm.args[0] in (w.MF, w.MC) and is_const(rm.args[1], "region_map")
        ctx.req(okm, "region-map@FlowSim " + lv, at, "region names are translated by the region map of the meshes: " + show(rm, 4))
        # runs
        wf = [e for e in evs if last(e.name) == "write_fields"]
        runs = [e for e in evs if e.kind == "call" and e.name.startswith("subprocess.")]
        ext = [e for e in evs if last(e.name) == "_extract_result"]
        need = 2 if coarse else 1
        if not (len(wf) == len(runs) == len(ext) == need):
            ctx.und("runs@FlowSim " + lv, at, "%d field files written, %d solver runs, %d results read" % (len(wf), len(runs), len(ext)))
            continue
        for i, (M, D, other, nn, nm) in enumerate(((w.MF, "DF", "DC", NF, "fine"), (w.MC, "DC", "DF", NC, "coarse"))[:need]):
            a, b, c = wf[i], runs[i], ext[i]
            ctx.req(a.seq < b.seq < c.seq and (i == 0 or ext[0].seq < a.seq), "order@FlowSim %s %s" % (lv, nm), at, "the %s fields are written, the solver is run, and its result is read, in this order" % nm)
            ids = w.assume(ev_pos(a, None, "ele_ids", 1))
            ctx.req(ids.op == "sub" and ids.args[0] is M and is_const(ids.args[1], "ele_ids"), "elements@FlowSim %s %s" % (lv, nm), at, "the %s fields are written for the elements of the %s mesh: %s" % (nm, nm, show(ids, 5)))
            cmd = w.assume(w.eng.deref(b.args[0], w.r.state)) if b.args else NONE
            ctx.req(contains(cmd, sym(D)) and not contains(cmd, sym(other)), "input@FlowSim %s %s" % (lv, nm), at, "the %s run uses the input of the %s level: %s" % (nm, nm, show(cmd, 6)))
            val = w.assume(w.eng.deref(ev_pos(a, None, "fields", 2), w.r.state))
            body = field_values(val, w.sample)
            if body is None:
                ctx.und("values@FlowSim %s %s" % (lv, nm), at, show(val, 5))
                continue
            try:
                ix = flow_ix(w)
                n = ix.norm
                arr = ix.ev(body)
                arr = Arr(tuple(count(d) for d in arr.dims), arr.fn)
                okd = len(arr.dims) in (1, 2) and n(arr.dims[0]) is nn and (len(arr.dims) == 1 or is_const(n(arr.dims[1]), 1))
                ctx.req(okd, "values-count@FlowSim %s %s" % (lv, nm), at, "one value per element of the %s mesh: %s" % (nm, [show(n(d), 4) for d in arr.dims]))
                if okd:
                    g = n(arr.fn([j] + [const(0)] * (len(arr.dims) - 1)))
                    off = mk("bin", "+", NC if coarse_first else NF, j) if coarse_first == (nm == "fine") else j
                    want = n(mk("sub", mk("sub", w.sample, sym("#name")), n(off)))
                    ctx.req(g is want, "values@FlowSim %s %s" % (lv, nm), at, "value of the %s field at element j is the sampled value at that element's point: got %s, expected %s" % (nm, show(g, 6), show(want, 6)))
            except Unk as e:
                ctx.und("values@FlowSim %s %s" % (lv, nm), at, str(e))
        if w.res is None or len(w.res) != 2:
            ctx.und("result@FlowSim " + lv, at, "result is not a pair")
            continue
        ctx.req(w.res[0] is ext[0].result, "result@FlowSim %s fine" % lv, at, "first result is that of the fine run: " + show(w.res[0], 5))
        if coarse:
            ctx.req(w.res[1] is ext[1].result, "result@FlowSim %s coarse" % lv, at, "second result is that of the coarse run: " + show(w.res[1], 5))
            stale(ctx, w, ext[0], runs[1], at)
        else:
            z = w.res[1]
            okz = z.op == "call" and z.args[0] in ("numpy.zeros", "numpy.zeros_like")
            ctx.req(okz, "result@FlowSim first level coarse", at, "without a coarse simulation the coarse result is zero: " + show(z, 5))
            if okz:
                d = z.args[1]
                fine = ext[0].result
                ok = z.args[0].endswith("_like") and d is fine or contains(d, fine)
                if ok:
                    ctx.ok("result-size@FlowSim first level coarse", at, "of the size of the fine result")
                else:
                    ctx.und("result-size@FlowSim first level coarse", at, show(d, 5))


def count(d):
    if d.op == "range" and len(d.args) == 2:
        return mk("bin", "-", d.args[1], d.args[0])
    return d


def split_concat(t):
    """pieces of a concatenation along the first axis"""
    if t.op == "call" and last(t.args[0]) in ("concatenate", "vstack", "append", "hstack"):
        a = pos(t)
        if last(t.args[0]) == "append" and len(a) >= 2:
            return a[:2]
        if a and a[0].op in ("tuple", "list"):
            out = []
            for x in a[0].args:
                out += split_concat(x) or [x]
            return out
    return None


def which(t, w, key, ix):
    """'fine' / 'coarse' when the array is that entry of the mesh data, another entry is named, None: not understood"""
    for M, nm in ((w.MF, "fine"), (w.MC, "coarse")):
        if M is None:
            continue
        want = mk("sub", M, const(key))
        if t is want:
            return nm
        if t.op == "sub" and t.args[0] is M and is_const(t.args[1]):
            return "%s %s" % (nm, t.args[1].args[0])
        try:
            a, b = ix.ev(t), ix.ev(want)
        except Unk:
            continue
        js = [mk("tvf", i) for i in range(len(b.dims))]
        if len(a.dims) == len(b.dims) and ix.norm(a.fn(js)) is ix.norm(b.fn(js)):
            return nm
    return None


def stale(ctx, w, first, second, at):
    """the coarse result cannot be the file written by the fine run"""
    nm = "water_balance.yaml"
    ok = False
    und = None
    for e in w.events:
        if not (first.seq < e.seq < second.seq) or e.kind != "call" or last(e.name) not in ("move", "rename", "replace", "remove", "unlink", "rmtree"):
            continue
        if not e.args:
            continue
        src = e.args[0]
        if not e.loops:
            if contains(src, const(nm)):
                ok = True
            continue
        names = [x for x in walk(src) if x.op == "sub" and contains(x.args[0], lambda y: y.op == "call" and last(y.args[0]) in ("listdir", "glob", "scandir")) and x.args[1] is e.loops[-1][0]]
        if not names:
            und = show(src, 4)
            continue
        keep = True
        for c, p in conds(e):
            if not contains(c, names[0]):
                continue
            v = on_name(subst(c, {names[0]: const(nm)}))
            if v is None:
                keep, und = False, show(c, 4)
            elif v != p:
                keep = False
        ok = ok or keep
    if not ok and und is None:
        # separate output directories
        a, b = [w.eng.deref(e.args[0], w.r.state) for e in w.events if e.kind == "call" and e.name.startswith("subprocess.")][:2]
        oa, ob = out_dir(a), out_dir(b)
        if oa is None or ob is None:
            und = "output directory"
        elif strip_occ(oa) is not strip_occ(ob):
            ok = True
    if ok:
        ctx.ok("stale@FlowSim", at, "files of the fine run are moved away before the coarse run, a failed coarse run cannot return the fine result")
    elif und is not None:
        ctx.und("stale@FlowSim", at, und)
    else:
        ctx.bad("stale@FlowSim", at, "the result file of the fine run (%s) is still in place when the coarse solver is started: a coarse run that fails to write it returns the fine result as the coarse one" % nm)


def out_dir(cmd):
    if cmd.op in ("list", "tuple"):
        for i, x in enumerate(cmd.args[:-1]):
            if is_const(x, "-o"):
                return cmd.args[i + 1]
    return None


def strip_occ(t):
    m = {x: x.args[0] for x in walk(t) if x.op == "occ"}
    return subst(t, m)


def on_name(c):
    """truth of a test on a concrete file name"""
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        v = on_name(c.args[0])
        return None if v is None else not v
    if c.op == "bool":
        vs = [on_name(x) for x in c.args[1:]]
        if c.args[0] == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c.op == "call" and c.args[0] in (".startswith", ".endswith") and len(c.args) == 3 and is_const(c.args[1]):
        p = c.args[2]
        ps = [p] if is_const(p) else list(p.args) if p.op == "tuple" else None
        if ps and all(is_const(x) for x in ps):
            return any(getattr(c.args[1].args[0], c.args[0][1:])(x.args[0]) for x in ps)
    if c.op == "cmp" and is_const(c.args[1]) and is_const(c.args[2]):
        a, b = c.args[1].args[0], c.args[2].args[0]
        if c.args[0] in ("==", "!="):
            return (a == b) == (c.args[0] == "==")
        if c.args[0] in ("in", "not in") and isinstance(b, str):
            return (a in b) == (c.args[0] == "in")
    if c.op == "cmp" and c.args[0] in ("in", "not in") and is_const(c.args[1]) and c.args[2].op in ("list", "tuple", "set") and all(is_const(x) for x in c.args[2].args):
        return (c.args[1] in c.args[2].args) == (c.args[0] == "in")
    return None


# ------------------------------------------------------------------------------------------------- F02
STREAMS = ("RandomState", "default_rng", "Generator", "SRF", "MT19937", "PCG64", "SeedSequence", "Random")
NPR = mk("ext", "numpy.random")
PASSIVE = STREAMS + ("seed", "get_state", "set_state")


def global_draw(t):
    """the term contains a draw from numpy's global generator"""
    return contains(t, lambda y: y.op == "call" and (y.args[0].startswith("numpy.random.") and last(y.args[0]) not in PASSIVE or y.args[0].startswith(".") and len(y.args) > 1 and y.args[1] is NPR))


def is_stream(e):
    n = last(e.name)
    if n not in STREAMS:
        return False
    return e.name.startswith(("numpy.random.", "gstools.", "random.")) or n in ("SRF", "RandomState", "default_rng")


def stream_seed(e):
    if last(e.name) == "SRF":
        return e.kw.get("seed")
    for k in ("seed", "bit_generator"):
        if k in e.kw:
            return e.kw[k]
    return e.args[0] if e.args else None


def seed_kind(t, ok):
    """'seeded' when determined by one of the terms in ok or by numpy's global generator, 'none', 'const' or None (not understood)"""
    if t is None or t is NONE:
        return "none"
    if t.op == "ite":
        ks = {seed_kind(t.args[1], ok), seed_kind(t.args[2], ok)}
        for k in ("none", "const", None):
            if k in ks:
                return k
        return "seeded"
    if any(contains(t, lambda y: y.op == "call" and y.args[0] in (b, ) or y.op == "call" and last(y.args[0]) in ("urandom", "time_ns", "getpid", "uuid4", "perf_counter")) for b in ("time.time",)):
        return "none"
    if any(contains(t, x) for x in ok) or global_draw(t):
        return "seeded"
    if t.op == "const":
        return "const"
    return None


@prop("F02", "Must-precede and taint analysis of random generators: every draw of a bundled simulation follows the seeding by the sample's seed, and every generator created in the random field classes (call sites enumerated) is seeded from numpy's global generator.",
      ["numpy's global generator is not used by another thread of the same process"])
def f02_synth(ctx):
    for cls in ("SynthSimulation", "SynthSimulationWorkspace"):
        f = ctx.method(SYN + cls, "calculate")
        r = ctx.run_method(SYN + cls, "calculate")
        seed = sym(f.params()[1])
        draws = [e for e in r.events if e.kind == "call" and (last(e.name) == "rvs" or e.name.startswith("numpy.random.") and last(e.name) not in PASSIVE)]
        if not draws:
            ctx.und("draw@" + cls, f.full, "no random draw found")
            continue
        glob = [e for e in r.events if e.kind == "call" and e.name == "numpy.random.seed"]
        for i, e in enumerate(draws):
            key = "seeded@%s draw %d" % (cls, i)
            src = e.kw.get("random_state")
            shared = None
            if src is None and last(e.name) == "rvs":
                for s in r.events:
                    if s.kind == "setattr" and s.name == "random_state" and s.recv is e.recv and precedes(s, e):
                        src = s.args[0]
                        if contains(s.recv, sym(f.params()[0])):
                            shared = "the distribution shared by all samples of the level"
            if src is None:
                gs = [g for g in glob if precedes(g, e)]
                src = gs[-1].args[0] if gs and gs[-1].args else None
                shared = "numpy's global generator"
            thr = thread_pools(ctx)
            ctx.req(shared is None or not thr, "own-generator@%s draw %d" % (cls, i), e.where(), "samples running in threads of one process do not draw from the generator of each other%s" % ("" if shared is None else ": generator of " + shared))
            src = r.eng.deref(src, r.state) if src is not None else None
            k = seed_kind(stream_arg(src), (seed,))
            if k is None:
                ctx.und(key, e.where(), show(src, 5))
            else:
                ctx.req(k == "seeded", key, e.where(), "the random draw is determined by the seed of the sample: generator %s" % (show(src, 5) if src is not None else "not seeded"))
                fp = foreign_part(stream_arg(src), seed) if k == "seeded" else None
                ctx.req(fp is None, "alone@%s draw %d" % (cls, i), e.where(), "nothing but the seed of the sample determines the draw" + (": " + fp if fp else ""))


def foreign_part(t, seed):
    """what besides the given seed determines the seed of a generator (None: nothing), or how the seed is narrowed"""
    for x in walk(t):
        if x is seed:
            continue
        if x.op == "global" or x.op == "sym" or x.op == "call" and last(x.args[0]) in ("load", "read", "getpid", "time", "random", "randint", "time_ns", "id", "open", "get_ident"):
            return "it depends on " + show(x, 4)
        if x.op == "bin" and contains(x, seed):
            o, a, b = x.args
            try:
                b = numid.value(b, {})
            except Exception:
                b = None
            if o == "%" and isinstance(b, int) and b < 2 ** 31 or o == "&" and isinstance(b, int) and b < 2 ** 31 - 1 or o == ">>" and b or o == "//" and isinstance(b, int) and b > 1:
                return "different seeds give the same input: " + show(x, 4)
    return None


def stream_arg(t):
    """seed a generator value was created from"""
    if t is None:
        return None
    if t.op == "occ":
        return stream_arg(t.args[0])
    if t.op == "call" and last(t.args[0]) in STREAMS:
        a = pos(t)
        return kwget(t, "seed") or (a[0] if a else None)
    return t


@prop("F02", "")
def f02_flow(ctx):
    for coarse in (2, 0):
        w = flow_run(ctx, coarse)
        lv = "two-level" if coarse else "first level"
        at = w.f.full
        seeds = [e for e in w.events if e.kind == "call" and e.name == "numpy.random.seed"]
        good = [e for e in seeds if e.args and contains(r_deref(w, e.args[0]), w.seed)]
        uses = [e for e in w.events if e.kind == "call" and last(e.name) in ("create_corr_field", "set_points", "sample") or e.kind == "call" and e.name.startswith("numpy.random.") and last(e.name) not in PASSIVE]
        if not uses:
            ctx.und("seed-first@FlowSim " + lv, at, "no use of the random fields found")
            continue
        if not good:
            used = any(contains(a, w.seed) for e in w.events for a in list(e.args) + list(e.kw.values()))
            if used:
                ctx.und("seed-first@FlowSim " + lv, at, "seed is passed on in a way the analysis does not follow")
            else:
                ctx.bad("seed-first@FlowSim " + lv, at, "the random number generator is not seeded by the seed of the sample")
            continue
        for e in good:
            fp = foreign_part(r_deref(w, e.args[0]), w.seed)
            ctx.req(fp is None, "alone@FlowSim " + lv, e.where(), "nothing but the seed of the sample determines the random numbers" + (": " + fp if fp else ""))
        if coarse:
            thr = [c.rsplit(".", 1)[-1] for c in thread_pools(ctx)]
            ctx.req(not thr, "own-generator@FlowSim", good[0].where(), "samples running in threads of one process (%s) do not draw from the generator of each other: numpy's global generator" % ", ".join(thr))
        need = {"create_corr_field": draws_in(ctx, ("__init__", "_initialize")), "set_points": draws_in(ctx, ("set_points", "_set_points", "svd_dcmp"))}
        for e in uses:
            if not need.get(last(e.name), True):
                continue
            ok = any(precedes(g, e) for g in good)
            ctx.req(ok, "seed-first@FlowSim %s %s" % (lv, last(e.name)), e.where(), "numpy's generator is seeded by the seed of the sample before %s, which may draw from it" % last(e.name))
        for e in seeds:
            if e not in good and e.seq > good[0].seq:
                ctx.bad("reseed@FlowSim " + lv, e.where(), "the generator is seeded anew by a value that does not come from the seed of the sample: " + (show(e.args[0], 4) if e.args else "no value"))


def field_classes(prog):
    mod = prog.modules.get("mlmc.random.correlated_field")
    if mod is None:
        raise AnchorError("mlmc.random.correlated_field")
    return [c for _, c in sorted(mod.classes.items())]


def draws_in(ctx, names):
    """do the methods of these names of the random field classes use numpy's global generator"""
    for c in field_classes(ctx.prog):
        for m in names:
            f = c.methods.get(m)
            if f is None:
                continue
            r = ctx.run(f, c)
            for e in r.events:
                if e.kind == "call" and (e.name.startswith("numpy.random.") and last(e.name) not in PASSIVE or e.recv is NPR or last(e.name) == "randomized_svd" and e.kw.get("random_state", NONE) is NONE):
                    return True
    return False


def r_deref(w, t):
    return w.eng.deref(t, w.r.state)


@prop("F02", "")
def f02_streams(ctx):
    """every generator created by the random field classes is determined by numpy's global generator"""
    from sa.repo import AnchorError
    prog = ctx.prog
    todo = []
    for c in field_classes(prog) + [prog.cls(FLOW)]:
        todo += [(c, m) for m in sorted(c.methods)]
    if not todo:
        raise AnchorError("mlmc.random.correlated_field")
    n = 0
    for c, m in todo:
        f = c.methods[m]
        try:
            r = ctx.run(f, c, opaque={"extract_mesh", "_extract_result"})
        except Exception as e:
            ctx.und("streams@%s.%s" % (c.name, m), f.full, str(e))
            continue
        ps = {sym(p) for p in f.params()}
        own = {s for s in ps if s.args[0] != "self"}
        for e in r.events:
            if e.kind not in ("call", "new"):
                continue
            if is_stream(e):
                s = stream_seed(e)
                s = r.eng.deref(s, r.state) if s is not None else None
                if not e_live(e, s):
                    continue
                k = seed_kind(s, own)
                key = "stream@%s.%s:%s" % (c.name, m, last(e.name))
                n += 1
                if k == "seeded":
                    ctx.ok(key, e.where(), show(s, 4))
                elif k is None:
                    ctx.und(key, e.where(), show(s, 4))
                else:
                    ctx.bad(key, e.where(), "generator %s: its values are not determined by the seed set for the sample" % ("created without a seed" if k == "none" else "created with a fixed seed, the same for all samples"))
            elif e.name.startswith("random.") or e.name.startswith("secrets.") or e.name in ("os.urandom", "uuid.uuid4"):
                n += 1
                ctx.bad("foreign@%s.%s:%s" % (c.name, m, last(e.name)), e.where(), "%s does not follow the generator seeded for the sample" % e.name)
            elif last(e.name) == "randomized_svd":
                n += 1
                s = e.kw.get("random_state", NONE)
                ctx.ok("svd@%s.%s" % (c.name, m), e.where(), "random_state=%s: numpy's global generator or a fixed one" % show(s, 3))
    ctx.req(n > 0, "streams@count", "mlmc.random.correlated_field", "%d generators found" % n) if n else ctx.und("streams@count", "mlmc.random.correlated_field", "no generator found")


def e_live(e, s):
    """events on a branch where the seed parameter is None are reported with the constant value; drop contradictory ones"""
    for c, p in conds(e):
        if c.op == "const" and bool(c.args[0]) != p:
            return False
    return True


# ---------------------------------------------------------------------------------------------------- F03
def dget(t, k):
    """value of a constant key of a dictionary term"""
    while True:
        if t.op == "store":
            if is_const(t.args[1]):
                if t.args[1].args[0] == k:
                    return t.args[2]
                t = t.args[0]
                continue
            return None
        if t.op == "dict":
            for a, b in zip(t.args[0::2], t.args[1::2]):
                if is_const(a, k):
                    return b
        return None


def li_run(ctx):
    f = ctx.method(FLOW, "level_instance")
    r = ctx.run_method(FLOW, "level_instance", opaque={"extract_mesh", "force_mkdir", "_make_mesh", "substitute_placeholders"})
    return f, r


@prop("F03", "Value flow of the level setup (directories, mesh step, template parameters as path terms and rational normal forms), of the mesh reader (array denotation of points, ids and regions), of placeholder substitution and of the result reader (guards of refusal).",
      ["gmsh and flow123d obey their command lines", "placeholders do not occur inside substituted values"])
def f03_level(ctx):
    f, r = li_run(ctx)
    ps = [p for p in f.params() if p != "self"]
    at = f.full
    HF_, HC_ = sub(sym(ps[0]), const(0)), sub(sym(ps[1]), const(0))
    lv = r.eng.deref(r.value, r.state)
    if lv.op != "new" or last(lv.args[0]) != "LevelSimulation":
        raise AnchorError("LevelSimulation returned by " + at)
    kw = {x.args[0]: x.args[1] for x in lv.args[1:] if isinstance(x, T) and x.op == "kw"}
    cfg = r.eng.deref(kw.get("config_dict", NONE), r.state)
    fine, coarse = dget(cfg, "fine"), dget(cfg, "coarse")
    if fine is None or coarse is None:
        raise AnchorError("fine / coarse parts of the level configuration")
    fine, coarse = r.eng.deref(fine, r.state), r.eng.deref(coarse, r.state)
    ctx.req(dget(fine, "step") is HF_, "step@fine", at, "fine step of the configuration: " + show(dget(fine, "step"), 4) if dget(fine, "step") is not None else "missing")
    ctx.req(dget(coarse, "step") is HC_, "step@coarse", at, "coarse step of the configuration: " + show(dget(coarse, "step"), 4) if dget(coarse, "step") is not None else "missing")
    df, dc = dget(fine, "common_files_dir"), dget(coarse, "common_files_dir")
    if df is None or dc is None:
        ctx.bad("dir@config", at, "directory of the common files is missing")
        return
    ctx.req(contains(df, HF_), "dir@fine", at, "fine directory is determined by the fine step: " + show(df, 6))
    z = cmpop("==", HC_, const(0))
    given = subst(dc, {z: FALSE, cmpop("!=", HC_, const(0)): TRUE, cmpop(">", HC_, const(0)): TRUE, HC_: HC_})
    nolev = subst(dc, {z: TRUE, cmpop("!=", HC_, const(0)): FALSE, cmpop(">", HC_, const(0)): FALSE})
    ctx.req(subst(df, {HF_: HC_}) is given, "dir@coarse", at, "coarse simulation uses the directory prepared by the level with that fine step: fine %s, coarse %s" % (show(df, 6), show(given, 6)))
    # files prepared in the fine directory
    inside = lambda p: p.op == "path" and df.op == "path" and p.args[:len(df.args)] == df.args
    mk_ = [e for e in calls(r, "_make_mesh")]
    CL = attr(SELF_, "clean")
    for e in mk_:
        mf, st = ev_pos(e, None, "mesh_file", 1), ev_pos(e, None, "fine_step", 2)
        ctx.req(mf is not None and inside(mf) and mf.args[-1] is const("mesh.msh"), "mesh@made", e.where(), "mesh is made in the fine directory: " + show(mf, 6) if mf is not None else "?")
        ctx.req(st is HF_, "mesh@step", e.where(), "mesh step is the fine step: " + show(st, 4) if st is not None else "?")
        ex = [c for c in conds(e) if not (c[0] is CL and c[1])]
        ctx.req(not ex, "mesh@always", e.where(), "mesh of every level is made")
    if not mk_:
        ctx.und("mesh@made", at, "no call of _make_mesh")
    # substitution of the template
    for e in calls(r, "substitute_placeholders"):
        prm = ev_pos(e, None, "params", 2)
        prm = r.eng.deref(prm, e.st) if prm is not None else None
        if prm is None:
            ctx.und("yaml@params", e.where(), "parameters not found")
            continue
        fo = ev_pos(e, None, "file_out", 1)
        ctx.req(fo is not None and inside(fo) and fo.args[-1] is const("flow_input.yaml"), "yaml@file", e.where(), "input file is written to the fine directory: " + show(fo, 5) if fo is not None else "?")
        norm = Norm()
        tf = attr(SELF_, "time_factor")
        for k, want in (("mesh_file", None), ("timestep_h1", mk("bin", "*", tf, HF_)), ("timestep_h2", mk("bin", "*", tf, mk("bin", "*", HF_, HF_)))):
            v = dget(prm, k)
            if v is None:
                ctx.bad("yaml@" + k, e.where(), "placeholder <%s> is not substituted" % k)
            elif want is None:
                ctx.req(inside(v) and v.args[-1] is const("mesh.msh"), "yaml@" + k, e.where(), "mesh of this level: " + show(v, 6))
            else:
                ctx.req(norm(v) is norm(want), "yaml@" + k, e.where(), "%s = %s" % (k, show(v, 5)))
        base = prm
        while base.op == "store":
            base = base.args[0]
        ff = [x for x in walk(base) if x.op == "fstore"]
        if len(ff) == 1 and ff[0].args[2] is dim(attr(attr(SELF_, "_fields"), "names")):
            b0, idx, dom, key, val, g = ff[0].args
            nm = sub(attr(attr(SELF_, "_fields"), "names"), idx)
            ok = key is nm and g is TRUE and val.op == "bin" and val.args[0] == "%" and val.args[2].op == "tuple" and len(val.args[2].args) == 2 and val.args[2].args[1] is nm
            ctx.req(ok, "yaml@fields", e.where(), "placeholder of every field is replaced by the field of that name: %s -> %s" % (show(key, 4), show(val, 5)))
            if ok:
                ctx.req(val.args[2].args[0] is const("fields_sample.msh"), "yaml@fields-file", e.where(), "field file is the one written by the sample: " + show(val.args[2].args[0], 3))
        else:
            ctx.und("yaml@fields", e.where(), show(base, 5))
    # field names passed to the samples
    up = dget(cfg, "fields_used_params")
    if up is None:
        ctx.bad("used@fields", at, "the level configuration lacks the used fields")
    else:
        for c in (TRUE, FALSE):
            v = subst(up, {CL: c, mk("not", CL): FALSE if c is TRUE else TRUE})
            nm = "used@" + ("clean" if c is TRUE else "existing")
            if v is NONE or v is attr(SELF_, "_fields_used_params"):
                ctx.bad(nm, at, "samples get no list of the used fields (%s)" % show(v, 3))
            elif c is TRUE:
                ctx.req(v.op in ("call", "occ") and contains(v, lambda x: x.op == "call" and last(x.args[0]) == "substitute_placeholders"), nm, at, "parameters found in the template: " + show(v, 3))
            else:
                bare = [y for y in walk(v) if y.op == "each" and y.args[3].op == "cmp" and y.args[3].args[0] == "in" and y.args[2].op == "list" and y.args[3].args[1] in y.args[2].args]
                ctx.req(not bare, nm, at, "fields whose placeholder is in the existing files: " + show(v, 4))
    for k, want in (("fields_params", attr(SELF_, "_fields_params")), ("flow123d", sub(attr(SELF_, "env"), const("flow123d")))):
        v = dget(cfg, k)
        ctx.req(v is want, "config@" + k, at, "%s of the simulation: %s" % (k, show(v, 4) if v is not None else "missing"))
    ts = kw.get("task_size")
    em = [e for e in calls(r, "extract_mesh")]
    pts = [sub(e.result, const("points")) for e in em if e.args and inside(e.args[-1])]
    if ts is None or not pts:
        ctx.und("task@size", at, "task size not found")
    else:
        norm = Norm()
        q = norm(mk("bin", "/", ts, dim(pts[0])))
        ctx.req(not contains(q, pts[0]) and contains(ts, pts[0]), "task@size", at, "task size is proportional to the number of fine mesh elements: " + show(ts, 5))
    # directories removed
    for e in r.events:
        force = ev_pos(e, None, "force", 1) if e.kind == "call" and last(e.name) == "force_mkdir" else None
        if e.kind == "call" and e.args and (last(e.name) in ("rmtree", "remove_tree") or force is not None and not is_const(force, False) and force is not NONE):
            p = e.args[0]
            always = is_const(force, True) if force is not None else True
            if always and not conds(e):
                ctx.bad("removed@clean", e.where(), "existing simulation files are removed though clean is not set: " + show(p, 5))
            above = p.op == "path" and df.op == "path" and len(p.args) < len(df.args) and df.args[:len(p.args)] == p.args or p is attr(SELF_, "work_dir")
            if above:
                ctx.bad("removed@level", e.where(), "files of the other levels are removed when a level is set up: " + show(p, 5))
            elif inside(p):
                ctx.ok("removed@level", e.where(), "only the directory of this level is removed: " + show(p, 5))
            else:
                ctx.und("removed@level", e.where(), show(p, 5))
    ns = kw.get("need_sample_workspace")
    ctx.req(is_const(ns) and ns.args[0] is True if ns is not None else False, "workspace@sample", at, "every sample has its own directory")


SELF_ = sym("self")


@prop("F03", "")
def f03_calculate_dirs(ctx):
    """the samples run with the files of their level"""
    for h in (0, 2):
        w = flow_run(ctx, h)
        n = 0
        for e in w.events:
            if e.kind == "call" and e.name in ("subprocess.call", "subprocess.run", "subprocess.check_call", "subprocess.Popen") and e.args:
                n += 1
                cmd = w.eng.deref(e.args[0], e.st)
                hasF, hasC = contains(cmd, sym("DF")), contains(cmd, sym("DC"))
                ctx.req(hasF != hasC, "input@%d.%d" % (h, n), e.where(), "input of one level's directory: " + show(cmd, 4))
                ctx.req(contains(cmd, sym("FLOW123D")), "program@%d.%d" % (h, n), e.where(), "runs the configured flow123d")
        for M, D in ((w.MF, "DF"), (w.MC, "DC")):
            if M is not None:
                ctx.req(contains(M, sym(D)) and contains(M, lambda x: is_const(x) and x.args[0] == "mesh.msh"), "mesh@%d.%s" % (h, D), w.f.full, "mesh read from the level's directory: " + show(M, 5))


def as_rows(t, r):
    """(index, domain, guard, body) of an array or list built element by element"""
    t = strip_occ(t) if t.op == "occ" else t
    if t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray", "builtins.list", "numpy.stack", "numpy.vstack", "builtins.tuple", "numpy.row_stack") and len(t.args) > 1:
        return as_rows(r.eng.deref(t.args[1], r.state), r)
    if t.op == "fstore":
        b0, idx, dom, key, val, g = t.args
        if key is not idx or g is not TRUE:
            raise Unk("rows stored at %s if %s" % (show(key, 3), show(g, 3)))
        return through(idx, dom, TRUE, val, r)
    if t.op == "cat":
        if len(t.args) == 1 and t.args[0].op == "each":
            idx, dom, part, g = t.args[0].args
            if part.op == "list" and len(part.args) == 1:
                return through(idx, dom, g, part.args[0], r)
    raise Unk(show(t, 4))


def through(idx, dom, g, val, r):
    """a list made from a list: in terms of the first one"""
    if not (dom.op == "dim" and dom.args[0].op == "cat"):
        return idx, dom, g, val
    L = dom.args[0]
    j, D, gg, b = as_rows(L, r)
    out = []
    for x in (val, g):
        v = subst(x, {L: sym("#L")})
        v = subst(v, {sub(sym("#L"), idx): mk("fresh#", b)})
        if contains(v, idx) and not contains(v, sym("#L")) and v is val:
            raise NumberedErr("row %s of a filtered list is numbered by its position" % show(v, 4))
        if contains(v, idx) or contains(v, sym("#L")):
            raise Unk("row %s of a filtered list" % show(v, 4))
        out.append(subst(v, {mk("fresh#", b): b}))
    v, g = out
    return j, D, gg if g is TRUE else g if gg is TRUE else mk("bool", "and", gg, g), v


class NumberedErr(Unk):
    pass


def by_keys(t, *dicts):
    """iterating a dictionary yields its keys"""
    return subst(t, {x: mk("key", x.args[0], x.args[1]) for x in walk(t) if x.op == "sub" and x.args[0] in dicts and x.args[1].op == "idx"})


@prop("F03", "")
def f03_mesh(ctx):
    f = ctx.method(FLOW, "extract_mesh")
    r = ctx.run_method(FLOW, "extract_mesh")
    at = f.full
    v = r.eng.deref(r.value, r.state)
    parts = {k: dget(v, k) for k in ("points", "point_region_ids", "ele_ids", "region_map")}
    for k, x in parts.items():
        if x is None:
            ctx.bad("mesh@" + k, at, "mesh data lack '%s'" % k)
            return
    MESH = [x for x in walk(v) if x.op == "new" and last(x.args[0]) == "GmshIO"]
    if not MESH:
        raise AnchorError("GmshIO in extract_mesh")
    E, PH, ND = attr(MESH[0], "elements"), attr(MESH[0], "physical"), attr(MESH[0], "nodes")
    parts = {k: by_keys(x, E, PH, ND) for k, x in parts.items()}
    pts = parts["points"]
    axes = None
    if pts.op == "sub" and pts.args[1].op == "tuple" and pts.args[1].args[0].op == "slice" and len(pts.args[1].args) == 2:
        axes = pts.args[1].args[1]
        pts = pts.args[0]
    try:
        rows = {"points": as_rows(pts, r), "point_region_ids": as_rows(parts["point_region_ids"], r), "ele_ids": as_rows(parts["ele_ids"], r)}
    except NumberedErr as e:
        ctx.bad("rows@mesh", at, str(e))
        return
    except Unk as e:
        ctx.und("rows@mesh", at, str(e))
        return
    j = sym("#j")
    can = {}
    for k, (idx, dom, g, b) in rows.items():
        can[k] = (dom, subst(g, {idx: j}), subst(b, {idx: j}))
    d0, g0, b0 = can["ele_ids"]
    for k in ("points", "point_region_ids"):
        d, g, b = can[k]
        ctx.req(d is d0 and g is g0, "align@" + k, at, "%s list the same elements as ele_ids in the same order" % k)
    el = sub(E, mk("key", E, j))
    ctx.req(b0 is mk("key", E, j), "element@id", at, "element ids of the mesh file: " + show(b0, 5))
    ctx.req(can["point_region_ids"][2] is sub(sub(el, const(1)), const(0)), "element@region", at, "region id is the first tag of the element: " + show(can["point_region_ids"][2], 6))
    c = can["points"][2]
    try:
        if not (c.op == "call" and last(c.args[0]) in ("average", "mean")):
            raise Unk(show(c, 5))
        ax = [x.args[1] for x in c.args[1:] if isinstance(x, T) and x.op == "kw" and x.args[0] == "axis"] + [x for x in c.args[2:3] if x.op != "kw"]
        wt = [x for x in c.args[1:] if isinstance(x, T) and x.op == "kw" and x.args[0] == "weights"]
        i2, dm, g2, nb = as_rows(c.args[1], r)
        ok = bool(ax) and is_const(ax[0], 0) and not wt and g2 is TRUE and nb is sub(ND, sub(sub(el, const(2)), i2)) and dm is dim(sub(el, const(2)))
        ctx.req(ok, "element@center", at, "point is the average of the element's nodes: " + show(c, 6))
    except Unk as e:
        ctx.und("element@center", at, str(e))
    # boundary elements left out
    reg = sub(sub(el, const(1)), const(0))
    g = g0
    sign = True
    while g.op == "not":
        g, sign = g.args[0], not sign
    ff = [x for x in walk(g) if x.op == "fstore"]
    if g.op == "sub" and len(ff) == 1 and g.args[0] is ff[0]:
        bb, idx, dom, key, val, gg = ff[0].args
        ctx.req(g.args[1] is reg, "boundary@region", at, "element is judged by its own region: " + show(g.args[1], 5))
        ok = dom is dim(PH) and key is sub(sub(PH, mk("key", PH, idx)), const(0)) and gg is TRUE
        ctx.req(ok, "boundary@ids", at, "region ids of the physical names: " + show(key, 5))
        dot = dotted(val)
        pre = [y for y in walk(val) if y.op == "call" and last(y.args[0]) == "startswith" and len(y.args) == 3 and is_const(y.args[2]) and isinstance(y.args[2].args[0], str)]
        if dot is None and val in pre and len(val.args[2].args[0]) != 1:
            ctx.bad("boundary@name", at, "NOT SATISFIED: regions whose name starts with '.' are left out; judged by " + show(val, 5))
        elif dot is None:
            ctx.und("boundary@name", at, show(val, 6))
        else:
            ctx.req(dot == (not sign), "boundary@name", at, "only regions whose name starts with '.' are left out")
    elif g0.op == "bool" and g0.args[0] == "or" and any(y.op == "not" and y.args[0].op == "sub" and y.args[0].args[0] in ff and y.args[0].args[1] is reg for y in g0.args[1:]) and not any(contains(y, PH) or contains(y, reg) for y in g0.args[1:] if y.op != "not"):
        ctx.bad("boundary@region", at, "NOT SATISFIED: elements of boundary regions are left out; kept if " + show(g0, 6))
    else:
        ctx.und("boundary@region", at, show(g0, 6))
    # names of regions
    m = parts["region_map"]
    if m.op == "fstore":
        bb, idx, dom, key, val, gg = m.args
        ok = dom is dim(PH) and gg is TRUE and val is sub(sub(PH, mk("key", PH, idx)), const(0)) and contains(key, mk("key", PH, idx))
        ctx.req(ok, "regions@map", at, "region name -> its id: %s -> %s" % (show(key, 5), show(val, 5)))
    else:
        ctx.und("regions@map", at, show(m, 5))
    if axes is not None:
        fixed = r.eng.deref(axes, r.state)
        ev = [e for e in r.events if e.kind == "call" and last(e.name) in ("pop", "remove", "__delitem__") or e.kind == "delitem"]
        for e in ev:
            a = e.args[-1] if e.args else None
            flat = [x for x, p in conds(e) if contains(x, lambda y: y.op == "call" and last(y.args[0]) == "argmin")]
            if last(e.name) == "pop" and flat and (a is None or is_const(a)) and (e.recv is axes or e.recv is fixed or e.recv is not None and e.recv.op in ("list", "tuple") and len(e.recv.args) == 3 and all(is_const(x) for x in e.recv.args)):
                ctx.bad("axes@extent", e.where(), "NOT SATISFIED: the axis dropped is the one the mesh is flat along; dropped: %s" % (show(a) if a is not None else "the last one"))
            if a is None or not (a.op == "call" and last(a.args[0]) == "argmin"):
                continue
            d = a.args[1]
            ok = d.op == "bin" and d.args[0] == "-" and extent(d.args[1], "max", pts) and extent(d.args[2], "min", pts)
            ctx.req(ok, "axes@extent", e.where(), "axis of the smallest extent of the points: " + show(a, 6)) if d.op == "bin" else ctx.und("axes@extent", e.where(), show(a, 5))
            cs = [x for x, p in conds(e) if contains(x, sub(d, a)) and p]
            ctx.req(bool(cs), "axes@flat", e.where(), "an axis is dropped only if the mesh is flat along it")


def extent(t, what, pts):
    return t.op == "call" and last(t.args[0]) in (what, "a" + what) and t.args[1] is pts


def dotted(v):
    """True if v says: the name starts with a dot"""
    if v.op == "cmp" and v.args[0] == "==":
        a, b = v.args[1], v.args[2]
        if is_const(a):
            a, b = b, a
        if is_const(b, ".") and a.op == "sub" and (is_const(a.args[1], 0) or show(a.args[1]) in ("slice(0, 1, None)", "slice(None, 1, None)")):
            return True
    if v.op == "call" and last(v.args[0]) == "startswith" and is_const(v.args[-1], "."):
        return True
    if v.op == "not":
        x = dotted(v.args[0])
        return None if x is None else not x
    return None


@prop("F03", "")
def f03_substitute(ctx):
    f = ctx.prog.func("mlmc.tool.flow_mc.substitute_placeholders")
    r = ctx.run(f, None)
    at = f.full
    ps = f.params()
    PR = sym(ps[2])
    wr = [e for e in r.events if e.kind == "call" and last(e.name) == "write"]
    if len(wr) != 1:
        ctx.und("substitute@write", at, "%d writes" % len(wr))
        return
    e = wr[0]
    op = [x for x in r.events if x.kind == "call" and x.name == "builtins.open"]
    src = [x for x in op if x.args[0] is sym(ps[0])]
    dst = [x for x in op if x.args[0] is sym(ps[1])]
    ctx.req(bool(src) and bool(dst), "substitute@files", at, "template read, result written to the output file")
    t = by_keys(e.args[-1], PR)
    fo = [x for x in walk(t) if x.op == "fold"]
    if t.op != "fold" or len(fo) != 1 or t.args[4] is not dim(PR):
        ctx.und("substitute@replace", at, show(t, 5))
        return
    init, mu, upd, idx, dom = t.args
    ctx.req(contains(init, lambda x: x.op == "call" and last(x.args[0]) == "read") and not contains(init, lambda x: x.op == "call" and last(x.args[0]) in ("strip", "lower", "replace")), "substitute@template", at, "starts from the template: " + show(init, 5))
    nm = mk("key", PR, idx)
    rep = [x for x in walk(upd) if x.op == "call" and last(x.args[0]) == "replace"]
    if len(rep) != 1:
        ctx.und("substitute@replace", at, show(upd, 6))
        return
    old, ph, val = rep[0].args[1:4]
    okp = ph.op == "fmt" and len(ph.args) == 3 and show(ph.args[0]) == "'<'" and show(ph.args[2]) == "'>'" and contains(ph.args[1], nm)
    ctx.req(okp, "substitute@placeholder", at, "placeholder <name>: " + show(ph, 6))
    ctx.req(contains(val, sub(PR, nm)) and old is mu and len(rep[0].args) == 4, "substitute@value", at, "all are replaced by the value of that name: " + show(rep[0], 5))
    if upd is not rep[0]:
        c = upd.args[0] if upd.op == "ite" else None
        ok = c is not None and contains(c, ph) and contains(c, mu) and mu in upd.args[1:] and rep[0] in upd.args[1:]
        if not ok:
            ctx.und("substitute@all", at, show(upd, 5))
        else:
            v = found_cond(c, mu, ph)
            if v is None:
                ctx.und("substitute@all", at, show(c, 5))
            else:
                ctx.req((upd.args[1] is rep[0]) == v, "substitute@all", at, "every placeholder found is replaced, if " + show(c, 5))
    else:
        c = None
    v = r.eng.deref(r.value, r.state)
    ap = [x for x in r.events if x.kind == "call" and last(x.name) == "append" and x.loops]
    for x in ap:
        cs = [(by_keys(q, PR), p) for q, p in conds(x)]
        ok = by_keys(x.args[-1], PR) is nm
        ctx.req(ok, "substitute@used-name", x.where(), "returned names are those replaced: " + show(x.args[-1], 4))
        pol = [(found_cond(q, mu, ph), p) for q, p in cs]
        if len(pol) == 1 and pol[0][0] is not None:
            ctx.req(pol[0][0] == pol[0][1], "substitute@used", x.where(), "returned names are those found in the template")
        elif not pol:
            ctx.bad("substitute@used", x.where(), "names not present in the template are returned as used")
        else:
            ctx.und("substitute@used", x.where(), "; ".join(show(q, 4) for q, _ in cs))


def found_cond(c, mu, ph):
    """True: c says that the placeholder is in the text; False: that it is not"""
    if c.op == "not":
        v = found_cond(c.args[0], mu, ph)
        return None if v is None else not v
    if c.op == "cmp":
        o, a, b = c.args
        cnt = lambda x: x.op == "call" and last(x.args[0]) == "count" and x.args[1:] == (mu, ph)
        if o == "in" and a is ph and b is mu:
            return True
        if o == "not in" and a is ph and b is mu:
            return False
        if o == "<" and is_const(a, 0) and cnt(b) or o == "<=" and is_const(a, 1) and cnt(b) or o == "!=" and (is_const(a, 0) and cnt(b) or is_const(b, 0) and cnt(a)):
            return True
        if o == "==" and (is_const(a, 0) and cnt(b) or is_const(b, 0) and cnt(a)):
            return False
    if c.op == "call" and last(c.args[0]) == "count" and c.args[1:] == (mu, ph):
        return True
    return None


@prop("F03", "")
def f03_result(ctx):
    f = ctx.method(FLOW, "_extract_result")
    r = ctx.run_method(FLOW, "_extract_result")
    at = f.full
    v = r.eng.deref(r.value, r.state)
    for e in r.events:
        if e.kind == "call" and last(e.name) == "open" and e.args:
            names = {y.args[0] for y in walk(e.args[0]) if is_const(y) and isinstance(y.args[0], str) and y.args[0].endswith((".yaml", ".yml", ".txt"))}
            ctx.req(len(names) <= 1, "flux@own", e.where(), "only the balance file of this run is read, %s" % (sorted(names),))
    item = lambda x, k: x.op == "sub" and is_const(x.args[1], k)
    BS = [x for x in walk(v) if x.op == "bsum"]
    if len(BS) != 1:
        over = [x for x in walk(v) if x.op == "fold" and any(y is not x.args[1] and not contains(y, x.args[1]) for _, y in leaves_ite(x.args[2]))]
        if over:
            ctx.bad("flux@sum", at, "only one item of the outflow boundary is taken, not their sum: " + show(over[0], 5))
        else:
            ctx.und("flux@sum", at, show(v, 6))
        return
    idx, dom, body = BS[0].args
    # the value returned
    S = [x for x in walk(v) if x.op == "amb" and BS[0] in set(walk(x))]
    top = S[0] if S else BS[0]
    u = v.args[1] if v.op == "call" and v.args[0] == "numpy.array" else v
    u = r.eng.deref(u, r.state)
    if u.op in ("list", "tuple") and len(u.args) == 1:
        n = Norm()
        ctx.req(n(u.args[0]) is n(mk("un", "-", top)), "flux@sign", at, "result is minus the total flux: " + show(subst(u, {top: sym("TOTAL")}), 4))
    else:
        ctx.und("flux@sign", at, show(u, 4))
    reg = None
    if body.op == "ite":
        c, a, b = body.args
        if is_const(b, 0) or is_const(b, 0.0):
            reg, val = c, a
    if reg is None:
        ctx.und("flux@regions", at, show(body, 6))
        return
    its = {x.args[0] for x in walk(reg) if item(x, "region")}
    ok = reg.op == "cmp" and reg.args[0] in ("in", "==") and len(its) == 1 and contains(reg, lambda x: is_const(x, ".bc_outflow"))
    ctx.req(ok, "flux@regions", at, "fluxes over the outflow boundary: " + show(reg, 6))
    if its:
        it = list(its)[0]
        core = val.args[1] if val.op == "call" and last(val.args[0]) == "float" else val
        ctx.req(core is sub(sub(it, const("data")), const(0)), "flux@value", at, "flux of the balance item of that region: " + show(val, 6))
        tm = [x for x in walk(dom) if x.op == "upto"]
        br = [(c, p) for e in r.events if e.kind == "raise" for c, p in conds(e)]
        t0 = [c for c, p in br if contains(c, sub(it, const("time")))]
        if t0:
            c = t0[0]
            ctx.req(c.op == "cmp" and c.args[0] == "<" and is_const(c.args[1], 0) and c.args[2] is sub(it, const("time")), "flux@time", at, "only the initial (steady) balance: " + show(c, 5))
        elif not any(is_const(y, "time") for x in [v] + [q for e in r.events for q in list(e.args) + [c for c, _ in conds(e)] + [l[1] for l in e.loops]] for y in walk(x)):
            ctx.bad("flux@time", at, "balance items of all times are summed")
        else:
            ctx.und("flux@time", at, "condition on time not found")
    # a sample without outflow fails
    rs = [e for e in r.events if e.kind == "raise" and not e.loops]
    mus = {m: x for m, x in r.eng.loopinfo.items() if is_const(x[0]) and isinstance(x[0].args[0], bool)}
    hit = [e for e in rs if any(contains(c, m) for c, p in conds(e) for m in mus)]
    # numbers of the items found
    cnt = [x for e in rs for c, p in conds(e) for x in walk(c) if x.op == "bsum" and (x.args[2].op == "ite" and x.args[2].args[0] is reg and is_const(x.args[2].args[1]) or is_const(x.args[2]))]
    hit += [e for e in rs if any(contains(c, x) for c, p in conds(e) for x in cnt)]
    if not hit and any(contains(c, lambda y: y.op in ("mu", "bsum", "fold", "each", "amb")) for e in rs for c, p in conds(e)):
        ctx.und("flux@missing", at, "refused if %s" % [(show(c, 5), p) for e in rs for c, p in conds(e)])
    else:
        ctx.req(bool(hit), "flux@missing", at, "a result without the outflow boundary is refused, not reported as zero flux")
    rs = [e for e in r.events if e.kind == "raise" and e.loops and its and any(contains(c, sub(sub(list(its)[0], const("data")), const(1))) and p for c, p in conds(e))]
    ctx.req(bool(rs), "flux@inflow", at, "inflow over the outflow boundary is refused")
    for e in rs:
        for c, p in conds(e):
            if p and c.op == "cmp" and c.args[0] in ("<", "<=") and is_const(c.args[1]) and contains(c.args[2], sub(sub(list(its)[0], const("data")), const(1))):
                ctx.req(c.args[1].args[0] <= 1e-6, "flux@tolerance", e.where(), "any inflow beyond rounding is refused: " + show(c, 4))
