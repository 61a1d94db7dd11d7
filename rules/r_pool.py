"""Sampling pools: seeds, failure isolation, result hand-over, workspace clean-up, running time accounting."""
from .registry import prop
from .common import *

POOL = "mlmc.sampling_pool.SamplingPool"
LOCAL = ["mlmc.sampling_pool.OneProcessPool", "mlmc.sampling_pool.ProcessPool", "mlmc.sampling_pool.ThreadPool"]
PBS = "mlmc.sampling_pool_pbs.SamplingPoolPBS"
JOB = "mlmc.tool.pbs_job.PbsJob"
CALC = "SamplingPool.calculate_sample"
F = "mlmc/sampling_pool.py:"

IMPURE = ("builtins.hash", "builtins.id", "time.", "random.", "numpy.random", "os.getpid", "os.urandom", "os.environ", "os.getenv",
          "uuid.", "secrets.", "datetime.", "socket.", "threading.", "multiprocessing.", "platform.", "os.getcwd", "os.stat", "os.path.get")


def short(c):
    return c.rsplit(".", 1)[-1]


LOSSY = {"split", "rsplit", "partition", "rpartition", "strip", "lstrip", "rstrip", "lower", "upper", "casefold", "replace", "translate", "findall",
         "search", "match", "sub", "sorted", "set", "frozenset", "len", "count", "find", "index", "removeprefix", "removesuffix"}


def hashed(t):
    return contains(t, lambda y: y.op == "call" and (y.args[0].startswith(("hashlib.", "zlib.", "binascii.crc")) or last(y.args[0]) in ("digest", "hexdigest")))


def seed_term_ok(t, sid):
    """(ok, why): t is a deterministic function of the whole sample id sid"""
    for x in walk(t):
        if x.op == "occ":
            return False, "depends on %s" % show(x)
        if x.op == "call" and (x.args[0].startswith(IMPURE) or x.args[0] == "builtins.hash"):
            return False, "depends on %s, which differs between processes or runs" % x.args[0]
        if x.op == "sub" and contains(x.args[0], sid) and not hashed(x.args[0]):
            return False, "only a part of the sample id is used: %s" % show(x)
        if x.op == "call" and last(x.args[0]) in LOSSY and len(x.args) > 1 and contains(x, sid) and not hashed(x):
            return False, "the sample id is not used as a whole: %s" % show(x)
        if x.op in ("sym",) and x is not sid and not contains(sid, x):
            return False, "depends on %s" % show(x)
        if x.op == "attr" and not contains(sid, x) and contains(x, lambda y: y.op == "sym") and not contains(x, sid):
            return False, "depends on state %s" % show(x)
        if x.op in ("mu", "part", "exc", "amb"):
            return False, "depends on %s" % show(x)
    if not contains(t, sid):
        return False, "does not depend on the sample id"
    for x in walk(t):
        if x.op == "bin" and x.args[0] in ("%", "&", ">>", "//") and contains(x, sid):
            k = x.args[2]
            if k.op == "const" and isinstance(k.args[0], int) and (x.args[0] == "%" and k.args[0] < 2 ** 31 or x.args[0] == "&" and k.args[0] < 2 ** 31 - 1):
                return False, "reduced to few values: %s" % show(x)
        if x.op == "call" and x.args[0] == "numpy.frombuffer":
            d = kwget(x, "dtype")
            if d is None and len(x.args) > 2 and x.args[2].op != "kw":
                d = x.args[2]
            n = dtype_name(d)
            if n is not None and n not in ("uint32", "u4", "<u4", "=u4", ">u4", "uint", "uint64"):
                return False, "hash digest read as %s: not a full 32 bit unsigned seed" % n
        if x.op == "call" and last(x.args[0]) in ("encode",) and contains(x, sid) and len(x.args) > 2:
            k = [a for a in x.args[2:] if a.op == "const" or a.op == "kw"]
            if any(is_const(a.args[1] if a.op == "kw" else a, "ignore") or is_const(a.args[1] if a.op == "kw" else a, "replace") for a in k):
                return False, "lossy encoding of the id"
    return True, ""


def dtype_name(d):
    if d is None:
        return None
    if d.op == "const":
        return d.args[0]
    if d.op == "ext":
        return d.args[0].rsplit(".", 1)[-1]
    if d.op == "attr":
        return d.args[1]
    return None


@prop("S05", "Value-flow of the seed argument reaching the simulation call in every pool (helpers and the PBS worker expanded): the term must be a "
      "deterministic function of the complete sample id, and the value prepared by the PBS master must be the value the worker hands over.",
      ["hashlib and numpy.frombuffer are deterministic", "YAML round-trips the scheduled rows"])
def s05(ctx):
    sid = sym("sample_id")
    # 1. default seed in the sample calculation
    r = ctx.run_method(POOL, "calculate_sample")
    calcs = calls(r, "_calculate")
    w = F + "SamplingPool.calculate_sample"
    if not ctx.req(len(calcs) >= 1, "calc@call", w, "the level's calculation is called"):
        return
    lv = sym("level_sim")
    for e in calcs:
        a = list(e.args)
        cfg = a[0] if a else e.kw.get("config_dict")
        sd = a[1] if len(a) > 1 else e.kw.get("seed")
        ctx.req(e.recv is lv and cfg is attr(lv, "config_dict"), "calc@config", e.where(),
                "the sample must run its own level's calculation with that level's configuration; found %s" % show(cfg))
        if sd is None:
            ctx.bad("seed@passed", e.where(), "no seed is passed to the simulation")
            continue
        given = subst(sd, {sym("seed"): const(12345), mk("cmp", "is", sym("seed"), NONE): FALSE})
        ctx.req(is_const(strip_int(given), 12345), "seed@given", e.where(), "a prepared seed must be passed on unchanged, found %s" % show(given))
        dflt = subst(sd, {sym("seed"): NONE})
        good, why = seed_term_ok(dflt, sid)
        ctx.req(good, "seed@default", e.where(), "seed must be a function of the whole sample id only: %s" % (why or show(dflt)))
        for g, p in conds(e):
            if g.op != "exc":
                ctx.bad("calc@unconditional", e.where(), "calculation is skipped unless %s" % show(g))
    # 2. the compute_seed helper is the same for PBS and local pools
    rs = ctx.run_method(PBS, "schedule_sample", opaque={"SamplingPoolPBS.execute"})
    rows = [e for e in rs.events if e.kind == "call" and last(e.name) == "append" or e.kind == "setattr" and e.name == "_scheduled"]
    row = None
    for e in rows:
        for t in e.args:
            for x in walk(t):
                if x.op == "tuple" and len(x.args) == 3 and any(y is sid for y in x.args):
                    row, ev = x, e
    wp = "mlmc/sampling_pool_pbs.py:SamplingPoolPBS.schedule_sample"
    if row is None:
        ctx.bad("pbs@row", wp, "no (level, sample id, seed) row is queued for the job")
        return
    dflt = subst(seed_arg(calcs[0]), {sym("seed"): NONE})
    lev, rid, rsd = row.args
    ctx.req(lev is attr(lv, "_level_id") and rid is sid, "pbs@row", ev.where(), "row is %s" % show(row))
    ctx.req(strip_int(rsd) is strip_int(dflt), "pbs@same-seed", ev.where(),
            "the seed prepared for a PBS job must equal the one local pools use; PBS %s, local %s" % (show(rsd), show(dflt)))
    # 3. the worker uses the row
    rj = ctx.run_method(JOB, "calculate_samples")
    cj = calls(rj, "_calculate")
    wj = "mlmc/tool/pbs_job.py:PbsJob.calculate_samples"
    if not ctx.req(bool(cj), "worker@call", wj, "the PBS worker calculates samples"):
        return
    for e in cj:
        sd = e.args[1] if len(e.args) > 1 else e.kw.get("seed")
        leaves = [x for _, x in leaves_ite(sd)]
        ok, det = True, []
        rowt = None
        for x in leaves:
            y = strip_int(x)
            if y.op == "sub" and is_const(y.args[1], 2):
                rowt = y.args[0]
            else:
                base = [z for z in walk(y) if z.op == "sub" and is_const(z.args[1], 1)]
                if base and strip_int(y) is strip_int(subst(dflt, {sid: base[0]})):
                    rowt = rowt or base[0].args[0]
                    continue
                ok = False
                det.append(show(y))
        ctx.req(ok and rowt is not None, "worker@seed", e.where(), "worker must use the seed of the scheduled row; found %s" % "; ".join(det or [show(sd)]))


def seed_arg(e):
    return e.args[1] if len(e.args) > 1 else e.kw.get("seed")


# ------------------------------------------------------------------------------------------------ failure isolation
def nonempty_str(t):
    if t.op == "const":
        return bool(t.args[0])
    if t.op == "fmt":
        if any(p.op == "const" and p.args[0] for p in t.args):
            return True
        rs = [nonempty_str(p) for p in t.args]
        return True if True in rs else (None if None in rs else False)
    if t.op == "fpart":
        if t.args[2] == "r":
            return True
        return nonempty_str(t.args[0])
    if t.op == "excval" or t.op == "sub" and is_const(t.args[1], 1) and t.args[0].op == "call" and t.args[0].args[0] == "sys.exc_info":
        return False            # str(exception) may be empty
    if t.op == "call":
        n = t.args[0]
        if n in ("traceback.format_exc", "builtins.repr", "traceback.format_exception", "traceback.format_exception_only"):
            return True
        if n == ".join":
            return nonempty_str(t.args[2]) if len(t.args) > 2 else None
        if n == "builtins.str":
            return nonempty_str(t.args[1]) if len(t.args) > 1 else False
        if n in (".strip", ".rstrip", ".lstrip"):
            return nonempty_str(t.args[1])
        return None
    if t.op == "attr" and t.args[1] in ("args", "message", "msg", "strerror"):
        return False
    if t.op == "ite":
        c, a, b = t.args
        x = True if c is a or c.op == "fmt" and c is a else nonempty_str(a)
        y = nonempty_str(b)
        if c is a:
            return y
        return True if x and y else (False if x is False or y is False else None)
    if t.op == "occ":
        return nonempty_str(t.args[0])
    return None


RISKY = {"_calculate", "calculate", "_result_format", "chdir", "makedirs", "mkdir", "copy", "copyfile", "copytree", "rmtree", "remove", "unlink",
         "listdir", "symlink", "link", "move", "rename", "copy2"}


def eq_class_connected(t, want):
    """equality atoms in condition t connect all terms of `want` (list of predicates)"""
    edges = []
    for x in walk(t):
        if x.op == "cmp" and x.args[0] in ("==", "!="):
            edges.append((x.args[1], x.args[2]))
    nodes = []
    for p in want:
        c = {s for e in edges for s in e if p(s)}
        if not c:
            return False
        nodes.append(c)
    comp = set(nodes[0])
    ch = True
    while ch:
        ch = False
        for a, b in edges:
            if (a in comp) != (b in comp):
                comp |= {a, b}
                ch = True
    return all(n & comp for n in nodes)


def size_of(t, which, calc):
    """t is the length of the fine/coarse result vector"""
    if t.op == "attr" and t.args[1] == "size":
        x = t.args[0]
    elif t.op == "dim":
        x = t.args[0]
        if not has_call(x, "flatten", "ravel", "reshape"):
            return False
    elif t.op == "call" and last(t.args[0]) in ("size", "prod"):
        x = t.args[1]
    else:
        return False
    return contains(x, sub(calc, const(which))) and not contains(x, sub(calc, const(1 - which)))


@prop("S06", "Exception-effect analysis of the sample calculation (everything that runs user code or touches files lies in a region whose handler "
      "records a non-empty message and does not escape) and case analysis of the hand-over (success / failure) in every local pool, its callbacks included.",
      ["traceback.format_exception yields a non-empty text", "the result handler of the pool calls exactly one of callback / error_callback per task"])
def s06(ctx):
    r = ctx.run_method(POOL, "calculate_sample")
    w = F + "SamplingPool.calculate_sample"
    sid = sym("sample_id")
    v = r.eng.deref(r.value, r.state) if r.value is not None else None
    if v is None or v.op not in ("tuple", "list") or len(v.args) != 4:
        v2 = [sub(v, const(i)) for i in range(4)] if v is not None and v.op == "ite" else None
        if v2 is None:
            ctx.bad("calc@outcome", w, "calculation must return (sample id, result, error message, time); returns %s" % (v and show(v)))
            return
        v = tup(*v2)
    ctx.req(v.args[0] is sid, "calc@id", w, "outcome must carry the id of the sample; found %s" % show(v.args[0]))
    calcs = calls(r, "_calculate")
    if not ctx.req(bool(calcs), "calc@call", w, "the level's calculation is called"):
        return
    for e in r.events:
        if e.kind in ("call", "new") and last(e.name) in RISKY:
            cov = [t for t in e.tries if any(n.split(".")[-1].strip("() ") in ("Exception", "BaseException") or "Exception" in n.replace("(", "").replace(")", "").replace(" ", "").split(",") for n in t[1])]
            key = "covered@%s" % last(e.name)
            if not ctx.req(bool(cov), key, e.where(), "%s may raise outside of the region that turns errors into a failed sample" % e.name):
                continue
    errt = v.args[2]
    tids = sorted({t[0] for e in calcs for t in e.tries})
    allx = {x for x in walk(errt) if x.op == "exc"} | {mk("exc", t) for t in tids}
    clean = subst(errt, {x: FALSE for x in allx})
    ctx.req(clean.op == "const" and not clean.args[0], "message@success", w, "without an exception the error message must be empty; found %s" % show(clean))
    for t in tids:
        m = {x: FALSE for x in allx}
        m[mk("exc", t)] = TRUE
        et = subst(errt, m)
        lv = [nonempty_str(x) for _, x in leaves_ite(et)]
        ne = nonempty_str(et)
        if ne is None and all(x is True for x in lv):
            ne = True
        if ne is None:
            ctx.und("message@failure", w, "cannot decide that the message is non-empty: %s" % show(et))
        else:
            ctx.req(ne, "message@failure", w, "after an exception the error message must be non-empty (an empty one is taken for success); found %s" % show(et))
    esc = [x for x in r.raises]
    ctx.req(not esc, "escape@calculate", w, "an exception escapes the sample calculation: %s" % [show(x[1]) if x[1] is not None else "re-raise" for x in esc][:2])
    # result length check
    calc = None
    for e in calcs:
        calc = e.result if e.result is not None else calc
    cand = [e for e in r.events if e.kind == "raise" and e.tries]
    res = [x for x in walk(v.args[1]) if x.op == "call" and last(x.args[0]) == "_calculate"]
    calc = res[0] if res else calc
    found = False
    for e in cand:
        cs = [c for c, p in conds(e) if c.op != "exc"]
        big = mk("tuple", *cs) if cs else None
        if big is None or calc is None:
            continue
        isexp = lambda s: contains(s, lambda y: y.op == "call" and last(y.args[0]) == "_result_format")
        if eq_class_connected(big, [lambda s: size_of(s, 0, calc), lambda s: size_of(s, 1, calc), isexp]):
            extra = [(c, p) for c, p in conds(e) if c.op != "exc" and not contains(c, isexp)
                     and not type_test(c)
                     and not (c.op == "cmp" and size_pair(c, calc))]
            found = True
            ctx.req(not extra, "length@always", e.where(), "result length is checked only if %s" % [show(c) for c, p in extra])
            exps = [s for x in walk(big) if x.op == "cmp" for s in x.args[1:] if isexp(s)]
            ctx.req(all(expected_len(s) for s in exps), "length@expected", e.where(), "expected length must be the sum of shape x times x locations over the result format; found %s" % [show(s) for s in exps][:2])
    if found:
        for txt, f, c in (("only the fine", 4, 3), ("only the coarse", 3, 4), ("each", 4, 4), ("only the fine", 2, 3), ("only the coarse", 3, 2)):
            def leaf(s, f=f, c=c):
                if size_of(s, 0, calc):
                    return f
                if size_of(s, 1, calc):
                    return c
                return 3 if isexp(s) else None
            vals = []
            for e in cand:
                ts = [(truth3(g, leaf), p) for g, p in conds(e) if g.op != "exc"]
                ts = [None if t is None else t == p for t, p in ts]
                vals.append(False if False in ts else None if None in ts else True)
            if vals and all(x is False for x in vals):
                ctx.bad("length@every", w, "a result of which %s vector has a wrong length is accepted" % txt)
                break
    ctx.req(found, "length@check", w, "a result whose fine or coarse vector does not have the length given by the result format must become a failed sample")
    # hand-over
    for cls in LOCAL:
        handover(ctx, cls)


def truth3(t, leaf):
    """truth of a condition over lengths given by leaf (None: not known)"""
    if t.op == "const":
        return bool(t.args[0])
    if t.op == "un" and t.args[0] in ("not", "~"):
        v = truth3(t.args[1], leaf)
        return None if v is None else not v
    if t.op == "not":
        v = truth3(t.args[0], leaf)
        return None if v is None else not v
    if t.op == "bool":
        vs = [truth3(x, leaf) for x in t.args[1:]]
        stop = t.args[0] == "or"
        return stop if stop in vs else None if None in vs else not stop
    if t.op == "cmp" and len(t.args) == 3:
        a, b = leaf(t.args[1]), leaf(t.args[2])
        if a is None or b is None:
            return None
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}.get(t.args[0])
    return None


def type_test(c):
    """a test of the types of the results only, not of their dimensions or lengths"""
    if not contains(c, lambda y: y.op == "call" and y.args[0] in ("builtins.type", "builtins.isinstance", "isinst") or y.op == "isinst"):
        return False
    return not contains(c, lambda y: y.op == "attr" and y.args[-1] in ("ndim", "size", "shape") or y.op == "call" and y.args[0] in ("builtins.len", "numpy.ndim", "numpy.size", "numpy.shape") or y.op == "len")


def size_pair(c, calc):
    return any(size_of(s, k, calc) for s in c.args[1:] for k in (0, 1))


def expected_len(s):
    """sum over specs of prod(shape)*len(times)*len(locations)"""
    spec = None
    for x in walk(s):
        if x.op == "attr" and x.args[1] == "shape" and contains(x, lambda y: y.op == "call" and last(y.args[0]) == "_result_format"):
            spec = x.args[0]
    if spec is None:
        return False
    want = binop("*", binop("*", mk("call", "numpy.prod", attr(spec, "shape")), dim(attr(spec, "times"))), dim(attr(spec, "locations")))
    n = Norm()
    s = strip_int(s)
    if s.op == "bsum":
        return n.equal(s.args[2], want)
    if s.op == "call" and last(s.args[0]) in ("sum",):
        inner = s.args[1]
        el = [x for x in walk(inner) if x.op == "each"]
        if el and el[0].args[2].op == "list":
            return n.equal(el[0].args[2].args[0], want)
    if s.op == "bin" or s.op == "poly":
        bs = [x for x in walk(s) if x.op == "bsum"]
        return any(n.equal(b.args[2], want) for b in bs) and len(bs) == 1 and n.equal(s, bs[0])
    fold = [x for x in walk(s) if x.op in ("bsum", "fold")]
    return any(x.op == "bsum" and n.equal(x.args[2], want) for x in fold)


def outcome_events(ctx, cls):
    """[(kind, outcome term R, sample id term, events, base event)] of the hand-over of one scheduled sample"""
    eng = ctx.engine(opaque={CALC})
    r = ctx.run_method(cls, "schedule_sample", eng=eng)
    out = []
    direct = [e for e in r.events if e.kind == "call" and last(e.name) == "calculate_sample"]
    for e in direct:
        out.append(("direct", e.result, r.events, e))
    asy = [e for e in r.events if e.kind == "call" and last(e.name) in ("apply_async", "map_async", "starmap_async", "submit")]
    for e in asy:
        for k in ("callback", "error_callback"):
            cb = e.kw.get(k)
            if cb is None:
                out.append((k, None, [], e))
                continue
            n0 = len(eng.events)
            st = e.st.copy()
            res = sym("outcome")
            eng.call(cb, [res], {}, st, e.node)
            ctx.functions |= eng.analysed
            out.append((k, res, eng.events[n0:], e))
    return r, direct, asy, out


PUT = ("put", "put_nowait", "append", "extend", "appendleft", "add")


def put_target(e):
    """name of the self field a delivery goes to"""
    slf = sym("self")
    cands = []
    ts = [e.recv] if e.recv is not None else []
    for x in ts:
        cands += [y for y in walk(x) if y.op == "attr" and y.args[0] is slf]
    if not cands:
        for c, p in conds(e):
            if c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[2].op == "attr" and c.args[2].args[0] is slf:
                cands.append(c.args[2])
    return cands[0].args[1] if cands else None


def put_level(e):
    slf = sym("self")
    if e.recv is not None and e.recv.op == "sub":
        return e.recv.args[1]
    for c, p in conds(e):
        if c.op == "cmp" and c.args[0] in ("in", "notin"):
            return c.args[1]
    return None


def case_puts(events, mapping):
    out = []
    for e in events:
        if e.kind != "call" or last(e.name) not in PUT:
            continue
        if put_target(e) is None:
            continue
        res = []
        dead = False
        for c, p in conds(e):
            v = subst(c, mapping)
            if v.op == "const":
                if bool(v.args[0]) != p:
                    dead = True
                continue
            res.append((v, p))
        if dead:
            continue
        out.append((e, [subst(a, mapping) for a in e.args], tuple(res)))
    return out


def covers(residuals):
    """the residual guard sets cover every case exactly once"""
    if residuals == [()]:
        return True
    if len(residuals) == 2 and all(len(x) == 1 for x in residuals):
        (a, p), = residuals[0]
        (b, q), = residuals[1]
        return a is b and p != q
    return False


def handover(ctx, cls):
    r, direct, asy, outs = outcome_events(ctx, cls)
    name = short(cls)
    w = F + name + ".schedule_sample"
    slf, sid, lv = sym("self"), sym("sample_id"), sym("level_sim")
    if not ctx.req(bool(direct or asy), "handover@%s" % name, w, "a scheduled sample must be calculated"):
        return
    for e in direct + asy:
        ctx.req(not conds(e) and not e.loops, "run-once@%s" % name, e.where(), "every scheduled sample is run exactly once; conditions %s" % [show(c[0]) for c in conds(e)])
    ctx.req(len(direct) + len(asy) == 1, "run-once@%s" % name, w, "sample is run %d times" % (len(direct) + len(asy)))
    for e in asy:
        fn = e.args[0] if e.args else None
        a = e.kw.get("args")
        if a is None:
            ps = list(e.args[1:])
            a = ps[0] if ps and ps[0].op in ("tuple", "list") else (tup(*ps) if ps else None)
        good = fn is not None and contains(fn, lambda x: x.op in ("func", "bound") and str(x.args[-1]).endswith("calculate_sample")) \
            and a is not None and len(a.args) >= 2 and a.args[0] is sid and a.args[1] is lv
        kwd = e.kw.get("kwds")
        ctx.req(good, "task@%s" % name, e.where(), "the task must calculate this sample with its level's simulation; found %s%s" % (fn and show(fn), a and show(a)))
        if len(a.args if a is not None else ()) > 3 or (kwd is not None and contains(kwd, lambda x: is_const(x, "seed"))):
            ctx.bad("task-seed@%s" % name, e.where(), "the pool overrides the seed")
    for e in direct:
        a0 = e.kw.get("sample_id") or e.arg(0)
        a1 = e.kw.get("level_sim") or e.arg(1)
        sd = e.kw.get("seed") or e.arg(3)
        ctx.req(a0 is sid and a1 is lv and (sd is None or sd is NONE), "task@%s" % name, e.where(), "the task must calculate this sample with its level's simulation")
    fields = set()
    for kind, R, evs, base in outs:
        key = "%s-%s" % (name, kind)
        if R is None:
            ctx.bad("reported@%s" % key, base.where(), "no %s: the outcome of the task is never reported" % kind)
            continue
        if kind == "error_callback":
            # an exception: must be recorded as failure of this sample, whatever it is
            ps = []
            for e, args, res in case_puts(evs, {}):
                res = tuple((c, p) for c, p in res if not (nonempty_str(c) is True and p))
                if any(nonempty_str(c) is True and not p for c, p in res):
                    continue
                ps.append((e, args, res))
            good = covers([x[2] for x in ps]) and len({put_target(x[0]) for x in ps}) == 1
            ctx.req(good, "reported@%s" % key, base.where(), "an error outside of the calculation must be reported as exactly one failed sample; deliveries: %s" % [(repr(x[0])[:200]) for x in ps][:3])
            for e, args, res in ps:
                item = args[0] if args else None
                gi = item is not None and item.op == "tuple" and len(item.args) == 2 and item.args[0] is sid
                ctx.req(gi, "item@%s" % key, e.where(), "failed item must be (sample id, message): %s" % (item and show(item)))
                if gi:
                    ne = nonempty_str(item.args[1])
                    ctx.req(ne is not False, "item-message@%s" % key, e.where(), "message may be empty: %s" % show(item.args[1]))
                ctx.req(put_level(e) is attr(lv, "_level_id"), "level@%s" % key, e.where(), "reported under level %s" % (put_level(e) and show(put_level(e))))
                ctx.req(put_target(e) not in {f for k, f in fields if k == "ok"}, "field@%s" % key, e.where(), "error is put among successful results")
            continue
        R0, R1, R2 = sub(R, const(0)), sub(R, const(1)), sub(R, const(2))
        for case in ("ok", "fail"):
            m = {R0: sid, R2: const("") if case == "ok" else const("E")}
            ps = case_puts(evs, m)
            k2 = "%s-%s" % (key, case)
            if not ctx.req(covers([x[2] for x in ps]) and len({put_target(x[0]) for x in ps}) == 1, "reported@%s" % k2, base.where(),
                           "a %s sample must be reported exactly once; deliveries: %s" % (case, [repr(x[0])[:160] for x in ps][:3])):
                continue
            for e, args, res in ps:
                item = args[0] if args else None
                if case == "ok":
                    want = [tup(sid, tup(sub(R1, const(0)), sub(R1, const(1)))), tup(sid, R1)]
                else:
                    want = [tup(sid, const("E"))]
                ctx.req(item in want, "item@%s" % k2, e.where(), "item %s" % (item and show(item)))
                ctx.req(put_level(e) is attr(lv, "_level_id"), "level@%s" % k2, e.where(), "reported under level %s" % (put_level(e) and show(put_level(e))))
                fields.add((case, put_target(e)))
    okf = {f for k, f in fields if k == "ok"}
    ff = {f for k, f in fields if k == "fail"}
    ctx.req(len(okf) == 1 and len(ff) == 1 and not okf & ff, "separate@%s" % name, w, "successful and failed samples are kept apart: %s / %s" % (okf, ff))
    # collected under the right heading
    g = ctx.run_method(cls, "get_finished")
    val = g.eng.deref(g.value, g.state) if g.value is not None else None
    wg = F + name + ".get_finished"
    if val is None or val.op != "tuple" or len(val.args) != 4:
        ctx.bad("collect@%s" % name, wg, "get_finished must return (successful, failed, running, times)")
        return
    for i, fs, nm in ((0, okf, "successful"), (1, ff, "failed")):
        roots = {x.args[1] for x in walk(val.args[i]) if x.op == "attr" and x.args[0] is slf and x.args[1] in okf | ff}
        ctx.req(roots == fs, "collect-%s@%s" % (nm, name), wg, "%s samples are taken from %s" % (nm, roots))


# ------------------------------------------------------------------------------------------------ hand-over to the sampler, threads
def simp_empty(t):
    """ite(container non-empty, f(len), f(0)) -> f(len)"""
    for _ in range(6):
        m = {}
        for x in walk(t):
            if x.op != "ite":
                continue
            c, a, b = x.args
            cont = None
            neg_ = False
            if c.op == "cmp" and c.args[0] in ("==", "<"):
                ds = [y for y in c.args[1:] if y.op == "dim"]
                if len(ds) == 1 and any(is_const(y, 0) for y in c.args[1:]):
                    d = ds[0]
                    if c.args[0] == "==":
                        neg_ = True
                    cont = d
            elif c.op == "dim":
                cont = c
            else:
                cont = dim(c)
            if cont is None:
                continue
            if neg_:
                a, b = b, a
            if Norm().equal(subst(a, {cont: const(0)}), b):
                m[x] = a
        if not m:
            return t
        t = subst(t, m)
    return t


@prop("S07", "Effect analysis of the result hand-over between the pool's callback thread and the collecting thread: the copy and the clear of each "
      "queue lie in one critical section on that queue's lock, the running counter is only touched by the collecting thread, and its net change equals the number of results returned.",
      ["queue.Queue.put holds the queue's mutex", "callbacks run in another thread than schedule_sample / get_finished"])
def s07(ctx):
    slf = sym("self")
    for cls in LOCAL:
        name = short(cls)
        eng = ctx.engine()
        eng.track = {"queue"}
        g = ctx.run_method(cls, "get_finished", eng=eng)
        wg = F + name + ".get_finished"
        val = eng.deref(g.value, g.state) if g.value is not None else None
        if val is None or val.op != "tuple" or len(val.args) != 4:
            ctx.bad("collect@%s" % name, wg, "get_finished must return (successful, failed, running, times)")
            continue
        clears = [e for e in g.events if e.kind == "call" and last(e.name) in ("clear",) and e.recv is not None and contains(e.recv, lambda x: x.op == "attr" and x.args[1] == "queue")
                  or e.kind == "setattr" and e.name == "queue"]
        gets = [e for e in g.events if e.kind == "call" and last(e.name) in ("get", "get_nowait", "popleft", "pop", "popitem")]
        repl = [e for e in g.events if e.kind == "setattr" and e.recv is slf and e.name not in ("_n_running",)]
        reads = [e for e in g.events if e.kind == "read" and e.name == "queue"]
        for e in clears:
            q = e.recv
            while q.op == "attr" and q.args[1] == "queue":
                q = q.args[0]
            key = "drain@%s-%s" % (name, next((x.args[1] for x in walk(q) if x.op == "attr" and x.args[0] is slf), "?"))
            lk = [i for l, i in zip(e.locks, e.lockids) if l.op == "attr" and l.args[0] is q and l.args[1] in ("mutex", "not_empty", "not_full", "all_tasks_done")]
            if not ctx.req(bool(lk), key, e.where(), "queue is cleared without holding its lock"):
                continue
            rd = [x for x in reads if x.recv is q and x.loops == e.loops and not is_load_for(x, e)]
            okr = [x for x in rd if set(lk) & set(x.lockids)]
            bad = [x for x in rd if not set(lk) & set(x.lockids)]
            ctx.req(bool(okr) and not bad, key + "-atomic", e.where(),
                    "the results must be copied and cleared in one critical section; %s" % ("read outside of it at line %s" % bad[0].line if bad else "no copy inside it"))
            rc = [c for c in extra_conds(e, okr[0]) if not nonempty_guard(c)] if okr else []
            ctx.req(not rc, key + "-always", e.where(), "copied results are cleared only if %s" % [show(c[0]) for c in rc])
        for e in gets:
            if e.result is not None and any(contains(val.args[i], e.result) for i in (0, 1)):
                ctx.ok("drain@%s-get" % name, e.where(), "every result removed from a queue is returned")
            elif e.result is not None and e.recv is not None and contains(e.recv, lambda x: x.op == "attr" and x.args[1] in ("_queues", "_failed_queues")):
                ctx.bad("drain@%s-get" % name, e.where(), "a result removed from a queue is not returned")
        if not clears and not gets:
            if repl:
                ctx.und("drain@%s" % name, wg, "queues are replaced rather than cleared")
            else:
                ctx.bad("drain@%s" % name, wg, "collected results are not removed from the pool: they would be returned again")
        # everything in the queue is returned, as a copy
        n = Norm()
        total = const(0)
        for i in (0, 1):
            v = val.args[i]
            fld = [x for x in walk(v) if x.op == "attr" and x.args[0] is slf]
            if v.op == "fstore" and fld:
                base, idx, dom, it, content, gd = v.args
                src = fld[0]
                qv = sub(src, mk("key", src, idx))
                q = attr(qv, "queue")
                full = content in (spread(q), cat(spread(q)), mk("cat", mk("spread", q)))
                key = "all@%s-%s" % (name, src.args[1])
                if unclear(content):
                    ctx.und(key, wg, "results taken from the queue: %s" % show(content, 4))
                    total = None
                    break
                if content is q:
                    ctx.bad(key, wg, "the queue's own buffer is returned, not a copy: it is cleared afterwards")
                elif content.op == "sub":
                    ctx.bad(key, wg, "only a part of the queue is returned: %s" % show(content))
                else:
                    ctx.req(full and n(dom) is n(dim(src)) and it is mk("key", src, idx), key, wg,
                            "all results of a level must be returned under that level: %s -> %s" % (show(it), show(content)))
                ctx.req(gd is TRUE or nonempty_of(gd, q), key + "-filter", wg, "results are returned only if %s" % show(gd))
                total = binop("+", total, mk("bsum", idx, dim(src), dim(q)))
            else:
                ctx.und("all@%s-%d" % (name, i), wg, "collected results not resolved: %s" % show(v))
                total = None
                break
        nr = val.args[2]
        cf = [x for x in walk(nr) if x.op == "attr" and x.args[0] is slf and x.args[1] not in ("_queues", "_failed_queues")]
        cnt = None
        if total is not None:
            cands = [x for x in cf if x.op == "attr" and not contains(total, x)]
            cnt = cands[0] if cands else None
            if cnt is None:
                ctx.bad("running@%s" % name, wg, "number of running samples is not kept: %s" % show(nr))
            else:
                t = simp_empty(fuse(nr))
                t = bsum_linear(t)
                if unclear(t):
                    ctx.und("running@%s" % name, wg, show(nr, 4))
                    cnt = None
        if cnt is not None and total is not None:
            if True:
                good = n.equal(t, bsum_linear(binop("-", cnt, total)))
                ctx.req(good, "running@%s" % name, wg, "running = scheduled - returned (successful and failed); found %s" % show(nr))
                fin = g.field(slf, cnt.args[1])
                if fin is not None:
                    ctx.req(n.equal(bsum_linear(simp_empty(fuse(fin))), bsum_linear(binop("-", cnt, total))), "running-kept@%s" % name, wg, "counter after collection: %s" % show(fin))
                else:
                    ctx.bad("running-kept@%s" % name, wg, "counter is not updated")
        # schedule: +1, never in callbacks
        r, direct, asy, outs = outcome_events(ctx, cls)
        if cnt is not None:
            ws = F + name + ".schedule_sample"
            fin = r.field(slf, cnt.args[1])
            ctx.req(fin is not None and n.equal(fin, binop("+", cnt, const(1))), "count@%s" % name, ws, "scheduling a sample must add one to the running count; found %s" % (fin and show(fin)))
            for kind, R, evs, base in outs:
                if kind == "direct":
                    continue
                wr = [e for e in evs if e.kind == "setattr" and e.name == cnt.args[1]]
                ctx.req(not wr, "thread@%s-%s" % (name, kind), wr[0].where() if wr else base.where(), "the callback thread must not update the running counter (lost updates)")
            ws2 = [e for e in r.events if e.kind == "setattr" and e.name == cnt.args[1]]
            for e in ws2:
                later = [a for a in asy if a.seq < e.seq]
                ctx.ok("count-order@%s" % name, e.where(), "")


def unclear(t):
    """values of loops that are not resolved"""
    return contains(t, lambda x: x.op in ("amb", "fold", "last", "mu", "while", "upto"))


def fuse(t):
    """sums over the values of a dictionary filled in a loop are sums over that loop"""
    for _ in range(4):
        m = {}
        for x in walk(t):
            if x.op != "bsum":
                continue
            idx, dom, e = x.args
            for F_ in walk(dom):
                if F_.op == "fstore" and F_.args[0] is mk("dict") and dom is mk("dim", F_):
                    base, j, jd, k, v, g = F_.args
                    if not (k is j or k.op == "key" and k.args[1] is j):
                        continue
                    kk = mk("key", F_, idx)
                    e2 = subst(subst(e, {mk("sub", F_, kk): v, sub(F_, kk): v}), {kk: k})
                    if contains(e2, F_) or contains(e2, idx) and idx is not j:
                        continue
                    m[x] = mk("bsum", j, jd, e2 if g is TRUE else ite(g, e2, const(0)))
        if not m:
            return t
        t = subst(t, m)
    return t


def is_load_for(x, e):
    """the read is the load that forms the receiver of the clear call itself"""
    return x.node is not None and e.node is not None and any(x.node is y for y in _nodes(e.node))


def _nodes(n):
    import ast
    return ast.walk(n)


def nonempty_guard(c):
    t = c[0]
    return contains(t, lambda x: x.op == "attr" and x.args[1] == "queue") and (t.op in ("cat", "attr", "list", "dim") or t.op == "cmp" and any(is_const(a, 0) for a in t.args[1:]))


def nonempty_of(g, q):
    if g.op in ("cat", "spread"):
        return contains(g, q)
    if g.op == "dim":
        return contains(g, q)
    if g.op == "cmp":
        return any(x.op == "dim" and contains(x, q) for x in g.args[1:]) and any(is_const(a, 0) for a in g.args[1:])
    if g.op == "not":
        return g.args[0].op == "cmp" and nonempty_of(g.args[0], q)
    return g is q


def bsum_linear(t):
    """pull constants/signs out of bsum"""
    m = {}
    for x in walk(t):
        if x.op == "bsum":
            idx, dom, e = x.args
            if e.op == "un" and e.args[0] == "-":
                m[x] = binop("*", const(-1), mk("bsum", idx, dom, e.args[1]))
    return subst(t, m) if m else t


# ------------------------------------------------------------------------------------------------ workspace
DEL = ("rmtree", "remove", "unlink", "rmdir", "removedirs", "move", "rename", "replace")


def comps(t):
    if t.op == "path":
        return list(t.args)
    return [t]


@prop("S08", "Path-term containment analysis: every deletion reachable from the hand-over of a sample has a path term ending in that sample's id below the "
      "output directory, the archive copy precedes it on the same condition, and deletions are infeasible when the debug flag is substituted true.",
      ["sample ids contain no path separators (formatted by the sampler)", "os.path.join terms are compared structurally"])
def s08(ctx):
    slf, lv = sym("self"), sym("level_sim")
    for cls in LOCAL:
        name = short(cls)
        r, direct, asy, outs = outcome_events(ctx, cls)
        for kind, R, evs, base in outs:
            if R is None or kind == "error_callback":
                continue
            sid = sym("sample_id")
            R0, R2 = sub(R, const(0)), sub(R, const(2))
            check_cleanup(ctx, name + "-" + kind, evs, sid, R0, R2, attr(slf, "_debug"), attr(lv, "need_sample_workspace"))
        # construction
        r = ctx.run_method(cls, "__init__")
        check_init(ctx, name, r)
    # PBS worker
    eng = ctx.engine(opaque={CALC})
    r = ctx.run_method(JOB, "calculate_samples", eng=eng)
    R = [e.result for e in r.events if e.kind == "call" and last(e.name) == "calculate_sample"]
    w = "mlmc/tool/pbs_job.py:PbsJob.calculate_samples"
    if not ctx.req(bool(R), "calc@worker", w, "the worker calculates samples"):
        return
    R = R[0]
    e = [e for e in r.events if e.kind == "call" and last(e.name) == "calculate_sample"][0]
    sid = e.kw.get("sample_id") or e.arg(0)
    lvt = e.kw.get("level_sim") or e.arg(1)
    check_cleanup(ctx, "PbsJob-worker", r.events, sid, sub(R, const(0)), sub(R, const(2)), attr(slf, "_debug"), attr(lvt, "need_sample_workspace"))
    rp = ctx.run_method(PBS, "__init__")
    check_init(ctx, "SamplingPoolPBS", rp)


def feasible(e, mapping):
    for c, p in conds(e):
        v = subst(c, mapping)
        if v.op == "const" and bool(v.args[0]) != p:
            return False
    return True


def check_cleanup(ctx, name, evs, sid, R0, R2, debug, needws):
    rm = [e for e in evs if e.kind == "call" and (e.name.startswith(("shutil.", "os.")) or e.name in (".rmdir", ".unlink")) and last(e.name) in DEL]
    cp = [e for e in evs if e.kind == "call" and last(e.name) in ("copytree", "move") and e.name.startswith("shutil.")]
    m0 = {R0: sid}
    allowed = {}
    for e in rm:
        src = subst(e.args[0] if e.args else NONE, m0)
        c = comps(src)
        key = "contained@%s" % name
        ctx.req(len(c) >= 2 and c[-1] is sid and not is_const(c[0]) and not any(is_const(x, "..") for x in c), key, e.where(),
                "only the directory of the finished sample may be removed; %s removes %s" % (e.name, show(src)))
    for case in ("ok", "fail"):
        m = {R0: sid, R2: const("") if case == "ok" else const("E"), needws: TRUE}
        own = []
        for e in rm:
            if last(e.name) == "move":
                continue
            p = subst(e.args[0], m)
            if feasible(e, m) and len(comps(p)) == 2:
                own.append((e, p))
        if case == "fail":
            arch = [e for e in cp if feasible(e, m)]
            key = "archive@%s" % name
            for e, p in own:
                good = [a for a in arch if subst(a.args[0], m) is p and subst(a.args[1], m) is not p and comps(subst(a.args[1], m))[-1] is sid
                        and a.seq < e.seq and not bad_extra(a, e, m)]
                ctx.req(bool(good), key, e.where(), "directory of a failed sample must be copied to the failed archive before it is removed")
            for a in arch:
                d = comps(subst(a.args[1], m))
                ctx.req(d[-1] is sid and any(is_const(x, "failed") or contains(x, lambda y: is_const(y, "failed")) for x in d[:-1]), "archive-dest@%s" % name, a.where(),
                        "failed sample is archived to %s" % show(a.args[1]))
            ctx.req(bool(arch), "archive@%s" % name, arch[0].where() if arch else "%s" % name, "a failed sample's directory must be kept in the failed archive")
        else:
            for e, p in own:
                md = dict(m)
                md[debug] = TRUE
                ctx.req(not feasible(e, md), "debug@%s" % name, e.where(), "directory of a successful sample is removed although debug keeps sample directories")
                arch = [a for a in cp if feasible(a, m) and subst(a.args[0], m) is p]
                late = [a for a in arch if a.seq > e.seq]
                ctx.req(not late, "order@%s" % name, e.where(), "sample directory is archived after it was removed")
            for a in cp:
                if feasible(a, m):
                    d = comps(subst(a.args[1], m))
                    ctx.req(d[-1] is sid and not any(is_const(x, "failed") for x in d), "archive-dest-ok@%s" % name, a.where(), "successful sample is archived to %s" % show(a.args[1]))
    # removal of a stale archive copy comes before the copy
    for a in cp:
        dst = subst(a.args[1], m0)
        late = [e for e in rm if subst(e.args[0], m0) is dst and e.seq > a.seq]
        ctx.req(not late, "stale@%s" % name, a.where(), "the fresh archive copy is removed again")


def bad_extra(a, e, m):
    """conditions of the copy that the removal does not have (beyond trivially true ones)"""
    base = {(subst(c, m), p) for c, p in conds(e)}
    out = []
    for c, p in conds(a):
        v = subst(c, m)
        if v.op == "const" or (v, p) in base:
            continue
        # destination given
        if v.op == "cmp" and v.args[0] in ("is", "isnot") and any(is_const(x) for x in v.args[1:]):
            continue
        out.append((c, p))
    return out


def check_init(ctx, name, r):
    rm = [e for e in r.events if e.kind == "call" and e.name.startswith(("shutil.", "os.")) and last(e.name) in DEL]
    dbg = [sym("debug")]
    for e in rm:
        m = {sym("debug"): TRUE, attr(sym("self"), "_debug"): TRUE}
        ctx.req(not feasible(e, m), "debug-init@%s" % name, e.where(), "existing output is removed although debug mode keeps it")
        p = comps(e.args[0])
        m2 = {mk("cmp", "is", sym("work_dir"), NONE): FALSE}
        q = subst(e.args[0], m2)
        flat = []
        for x in comps(q):
            flat += comps(x)
        good = len(flat) >= 2 and contains(flat[0], sym("work_dir")) and any(is_const(x, "output") for x in flat[1:])
        ctx.req(good, "contained-init@%s" % name, e.where(), "construction may only clear the output directory below the working directory; clears %s" % show(q))


# ------------------------------------------------------------------------------------------------ cost accounting
@prop("S15", "Value-flow of running times: local pools hand every measured time over exactly once (the accumulator is swapped for an empty one in the same "
      "critical section the callback uses), and both storages keep (total time, count) sums whose quotient is the cost per sample.",
      ["save_n_ops / get_n_ops are the storage interface", "times are keyed by level"])
def s15(ctx):
    slf = sym("self")
    n = Norm()
    for cls in LOCAL:
        name = short(cls)
        g = ctx.run_method(cls, "get_finished")
        wg = F + name + ".get_finished"
        val = g.eng.deref(g.value, g.state)
        if val.op != "tuple" or len(val.args) != 4:
            ctx.bad("times@%s" % name, wg, "get_finished must return (successful, failed, running, times)")
            continue
        t = val.args[3]
        fl = [x for x in walk(t) if x.op == "attr" and x.args[0] is slf]
        if not ctx.req(len(fl) >= 1, "times@%s" % name, wg, "times are not returned: %s" % show(t)):
            continue
        fld = fl[0]
        fin = g.field(slf, fld.args[1])
        cl = g.state.heap.get(("c", fld))
        emptied = fin is not None and fin.op == "dict" and not fin.args or fin is None and cl is not None and cl.op == "dict" and not cl.args
        ctx.req(emptied, "once@%s" % name, wg, "times handed over must be dropped from the pool, otherwise they are counted again at the next collection; %s afterwards: %s" % (
            fld.args[1], show(fin) if fin is not None else "unchanged"))
        sets = [e for e in g.events if e.kind == "setattr" and e.name == fld.args[1] or e.kind == "call" and last(e.name) == "clear" and e.recv is fld]
        # the accumulator
        r, direct, asy, outs = outcome_events(ctx, cls)
        for kind, R, evs, base in outs:
            if R is None or kind == "error_callback":
                continue
            R3 = sub(R, const(3))
            lv = attr(sym("level_sim"), "_level_id")
            st = [e for e in evs if e.kind in ("setitem", "augassign") and e.kind == "setitem"]
            tw = [e for e in st if len(e.args) == 2 and is_const(e.args[0], 0) and contains(e.recv, fld)]
            cw = [e for e in st if len(e.args) == 2 and is_const(e.args[0], 1) and contains(e.recv, fld)]
            k2 = "%s-%s" % (name, kind)
            old = lambda i: [sub(sub(fld, lv), const(i))]
            if not tw or not cw:
                ctx.und("accumulate@%s" % k2, base.where(), "accumulation of running times not resolved")
                continue
            inc_t = increments(tw[-1], fld, lv, 0)
            inc_c = increments(cw[-1], fld, lv, 1)
            ctx.req(inc_t is not None and n.equal(inc_t, R3), "accumulate@%s" % k2, tw[-1].where(), "total time must grow by the sample's running time; adds %s" % (inc_t and show(inc_t)))
            ctx.req(inc_c is not None and n.equal(inc_c, const(1)), "count@%s" % k2, cw[-1].where(), "number of measured samples must grow by one; adds %s" % (inc_c and show(inc_c)))
            ctx.req(set(conds(tw[-1])) == set(conds(cw[-1])), "together@%s" % k2, cw[-1].where(), "time and count must be updated together")
            for t in (1e-9, 0.5, 7.0, 1e6):
                if not ctx.req(feasible(tw[-1], {R3: const(t)}), "every-time@%s" % k2, tw[-1].where(), "every positive running time must be counted; %g s is dropped" % t):
                    break
            if kind == "callback" and sets:
                common = [l for l in tw[-1].locks if all(l in e.locks for e in sets)]
                ctx.req(bool(common), "lock@%s" % k2, tw[-1].where(), "the callback thread and the collecting thread must use one lock for the times")
    from .r_pbs import worker_times
    worker_times(ctx)
    # storages
    mem = "mlmc.sample_storage.Memory"
    r = ctx.run_method(mem, "save_n_ops", args={"n_ops": sym("n_ops")})
    storage_sum(ctx, r, "Memory", "mlmc/sample_storage.py:Memory.save_n_ops")
    rg = ctx.run_method(mem, "get_n_ops")
    quotient(ctx, rg, "Memory", "mlmc/sample_storage.py:Memory.get_n_ops")
    hdf = "mlmc.sample_storage_hdf.SampleStorageHDF"
    r = ctx.run_method(hdf, "save_n_ops", args={"n_ops": sym("n_ops")})
    storage_sum(ctx, r, "HDF", "mlmc/sample_storage_hdf.py:SampleStorageHDF.save_n_ops")
    rg = ctx.run_method(hdf, "get_n_ops")
    quotient(ctx, rg, "HDF", "mlmc/sample_storage_hdf.py:SampleStorageHDF.get_n_ops")


def increments(e, fld, lv, i):
    """value written minus the previous content of slot i (both when the level is new and when it exists)"""
    n = Norm()
    v = e.args[1]
    out = []
    cnd = mk("cmp", "in", lv, fld)
    for val, old in ((subst(v, {cnd: TRUE}), sub(sub(fld, lv), const(i))), (subst(v, {cnd: FALSE}), const(0))):
        out.append(n(binop("-", val, old)))
    if out[0] is not out[1]:
        return None
    return out[0]


def storage_sum(ctx, r, name, w):
    n = Norm()
    N = sym("n_ops")
    writes = [e for e in r.events if e.kind == "setitem" and e.loops and len(e.args) == 2 and (is_const(e.args[0], 0) or is_const(e.args[0], 1))]
    tw = [e for e in writes if is_const(e.args[0], 0)]
    cw = [e for e in writes if is_const(e.args[0], 1)]
    if not tw or not cw:
        alls = [e for e in r.events if e.kind in ("setitem", "setattr") and e.loops]
        ratio = [e for e in alls if contains(e.args[-1], lambda x: x.op == "bin" and x.args[0] == "/")]
        if ratio:
            ctx.bad("sum@%s" % name, ratio[0].where(), "batches must be added as (time, count); a mean is accumulated: %s" % show(ratio[0].args[-1]))
        elif not alls:
            ctx.bad("sum@%s" % name, w, "times are not stored")
        else:
            one = [e for e in alls if e.args and e.args[-1].op in ("list", "tuple") and len(e.args[-1].args) == 2 and not all(is_const(a) for a in e.args[-1].args)]
            if one:
                for i, nm in ((0, "time"), (1, "count")):
                    t = one[-1].args[-1].args[i]
                    check_inc(ctx, name, one[-1], t, i, N)
                batch_kept(ctx, name, one[-1], N)
            else:
                ctx.und("sum@%s" % name, w, "accumulation not resolved: %s" % [repr(e)[:120] for e in alls])
        return
    for i, evs in ((0, tw), (1, cw)):
        check_inc(ctx, name, evs[-1], evs[-1].args[1], i, N)
    xt, xc = set(conds(tw[-1])), set(conds(cw[-1]))
    ctx.req(xt == xc, "together@%s" % name, cw[-1].where(), "time and count must be updated together")
    batch_kept(ctx, name, tw[-1], N)
    # persisted
    if name == "HDF":
        sets = [e for e in r.events if e.kind == "setattr" and e.name == "n_ops_estimate"]
        last_ = [e for e in sets if e.seq > cw[-1].seq]
        ctx.req(bool(last_) and set(conds(last_[-1])) <= xt, "persist@HDF", w, "the updated sums must be written back to the file")


def batch_kept(ctx, name, e, N):
    """no condition on the batch itself drops a batch with at least one measured sample"""
    idx = e.loops[-1][0]
    b = sub(sub(N, idx), const(1))
    for k in (1, 2, 3, 1000):
        for t in (1e-9, 0.5, 7.0, 1e6):
            m = {sub(b, const(0)): const(t), sub(b, const(1)): const(k)}
            if not ctx.req(feasible(e, m), "every-batch@%s" % name, e.where(),
                           "every batch with measured samples must be added; a batch of %d samples and %g s is dropped under %s" % (k, t, [show(c) for c, _ in conds(e)])):
                return


def check_inc(ctx, name, e, t, i, N):
    n = Norm()
    idx = e.loops[-1][0]
    b = sub(sub(N, idx), const(1))
    batch = sub(b, const(i))
    key = "sum@%s-%s" % (name, ("time", "count")[i])
    # a level with and without stored times; conditions on the batch itself are taken for a batch with samples
    known = [x for x in walk(t) if x.op == "cmp" and x.args[0] in ("in", "notin")]
    empty = [x for x in walk(t) if x.op == "cmp" and contains(x, sub(b, const(1)))]
    tries = []
    for cnd in (True, False) if known else (True,):
        m = {x: const((x.args[0] == "in") == cnd) for x in known}
        for x in empty:
            vals = [subst(x, {sub(b, const(1)): const(k), sub(b, const(0)): const(0.5)}) for k in (1, 2, 1000)]
            if all(v is vals[0] for v in vals) and is_const(vals[0]):
                m[x] = vals[0]
        tries.append((cnd, subst(t, m)))
    for cnd, v in tries:
        rest = n(binop("-", v, batch))
        if not cnd and is_const(rest) and rest.args[0] == 0:
            ctx.ok(key, e.where(), "new level: the batch itself")
            continue
        # the remainder must be the old content: no batch term left, coefficient one
        good = not contains(rest, b) and not is_const(rest) and rest.op != "poly"
        ctx.req(good, key, e.where(), "%s of a batch must be added to the stored sum; stored value becomes %s" % (("time", "count")[i], show(v)))


def quotient(ctx, r, name, w):
    v = r.eng.deref(r.value, r.state) if r.value is not None else None
    if v is None:
        ctx.bad("mean@%s" % name, w, "no value")
        return
    divs = [x for x in walk(v) if x.op == "bin" and x.args[0] == "/"]
    for e in r.events:
        if e.kind == "setitem":
            divs += [x for x in walk(e.args[-1]) if x.op == "bin" and x.args[0] == "/"]
    if not divs:
        ctx.bad("mean@%s" % name, w, "cost per sample must be total time / number of samples; found %s" % show(v))
        return
    for d in set(divs):
        a, b = d.args[1], d.args[2]
        good = a.op == "sub" and b.op == "sub" and is_const(a.args[1], 0) and is_const(b.args[1], 1) and a.args[0] is b.args[0]
        ctx.req(good, "mean@%s" % name, w, "cost per sample must be total time / number of samples of the level; found %s" % show(d))
    # a level with any positive number of samples has a cost
    def drops(c, p, cnt, k):
        x = subst(c, {cnt: const(k)})
        return is_const(x) and bool(x.args[0]) != p
    for d in sorted(set(divs), key=show):
        cnt = d.args[2]
        if cnt.op in ("const", "poly", "bin"):
            continue
        paths = [[x for x in g] for t in [v] + [e.args[-1] for e in r.events if e.kind == "setitem"] for y in walk(t) if y.op == "ite" for g, leaf in leaves_ite(y) if leaf is d]
        paths += [list(conds(e)) for e in r.events if e.kind == "setitem" and e.args[-1] is d]
        for k in (1, 2, 1000):
            gone = [c for g in paths for c, p in g if drops(c, p, cnt, k)]
            if not ctx.req(not gone, "every-count@%s" % name, w, "a level with %d measured samples has no cost: %s" % (k, [show(c, 6) for c in gone])):
                break


THREADS = ("multiprocessing.pool.ThreadPool", "multiprocessing.dummy.Pool", "concurrent.futures.ThreadPoolExecutor", "threading.Thread")


def thread_pools(ctx):
    """sampling pools that run samples in threads of the sampling process"""
    out = []
    for cls in LOCAL:
        r = ctx.run_method(cls, "__init__")
        p = r.state.heap.get(("f", sym("self"), "_pool"))
        if p is not None and contains(p, lambda x: x.op in ("call", "occ", "new") and any(isinstance(a, str) and a in THREADS for a in x.args)):
            out.append(cls)
    return out


def resid(e, mapping):
    """conditions of e left undecided under mapping, None if e cannot happen"""
    out = []
    for c, p in conds(e):
        c = subst(c, mapping)
        if c is TRUE or c is FALSE:
            if (c is TRUE) != p:
                return None
            continue
        if c.op == "exc" and not p:
            continue
        out.append((c, p))
    return out


def missing_dir(res, d):
    """residual conditions only say that directory d does not exist yet"""
    return all(not p and c.op == "call" and c.args[0] in ("os.path.isdir", "os.path.exists", "os.path.lexists") and c.args[1] is d or
               p and c.op == "un" and c.args[0] == "not" and c.args[1].op == "call" and c.args[1].args[0] in ("os.path.isdir", "os.path.exists") and c.args[1].args[1] is d
               for c, p in res)


@prop("S18", "Path-term and must-precede analysis of the sample calculation for a simulation with and without a workspace: directory made, all common files copied, "
      "working directory changed to it before the calculation; value flow of the directory given by every pool; the serial pool restores the working directory; "
      "process-wide effects reachable from samples run in threads.",
      ["files listed as common_files exist"])
def s18(ctx):
    lv, sid, wd, slf = sym("level_sim"), sym("sample_id"), sym("work_dir"), sym("self")
    r = ctx.run_method(POOL, "calculate_sample")
    w = F + "SamplingPool.calculate_sample"
    cf = attr(lv, "common_files")
    need = {attr(lv, "need_sample_workspace"): TRUE, mk("cmp", "is", cf, NONE): FALSE, mk("bool", cf): TRUE}
    calc = calls(r, "_calculate")
    if not calc:
        ctx.und("calc@call", w, "no calculation found")
        return
    c = calc[0]
    own = mk("path", wd, sid)
    dirs = [e for e in r.events if e.kind == "call" and last(e.name) == "chdir" and e.seq < c.seq and resid(e, need) is not None]
    if not ctx.req(bool(dirs), "own@chdir", w, "a sample with a workspace is calculated in its own directory"):
        return
    e = dirs[-1]
    d = e.args[0] if e.args else None
    ctx.req(d is own, "own@directory", e.where(), "directory of the sample is <output directory>/<sample id>: " + show(d))
    ctx.req(not e.loops and not [x for x in resid(e, need) if x[0] is not cf], "own@always", e.where(), "the working directory is changed for every sample with a workspace: %s" % [show(x[0], 3) for x in resid(e, need)])
    mks = [x for x in r.events if x.kind == "call" and x.name in ("os.makedirs", "os.mkdir") and x.seq < e.seq and x.args and x.args[0] is d and resid(x, need) is not None]
    ctx.req(any(missing_dir(resid(x, need), d) for x in mks), "own@made", e.where(), "the directory is created unless it exists")
    # common files
    cps = [x for x in r.events if x.kind == "call" and x.name in ("shutil.copy", "shutil.copy2", "shutil.copyfile", "os.symlink", "os.link") and x.seq < c.seq and resid(x, need) is not None]
    if not cps:
        if any(x.kind == "call" and contains_arg(x, cf) for x in r.events):
            ctx.und("files@copied", w, "common files are passed on in a way the analysis does not follow")
        else:
            ctx.bad("files@copied", w, "common files of the level are not copied to the workspace of the sample")
    for x in cps[:1]:
        src, dst = (list(x.args) + [x.kw.get("src"), x.kw.get("dst")])[:2] if len(x.args) >= 2 else (x.kw.get("src"), x.kw.get("dst"))
        lp = x.loops[-1] if x.loops else None
        src = with_files(src, cf, need)
        full = lp is not None and contains(src, lambda t: t.op == "sub" and t.args[0] is cf and t.args[1] is lp[0]) and with_files(lp[1], cf, need) is dim(cf)
        rs = [y for y in resid(x, need) if y[0] is not cf and not (y[0].op == "cmp" and contains(y[0], cf))]
        if lp is None or not contains(src, cf):
            ctx.und("files@copied", x.where(), show(src, 4))
        else:
            ctx.req(full and not rs, "files@copied", x.where(), "every common file of the level is copied: %s, %s" % (show(src, 4), [show(y[0], 3) for y in rs]))
        in_own = dst is not None and (dst is own or dst.op == "path" and dst.args[:2] == own.args)
        ctx.req(in_own, "files@to", x.where(), "to the directory of the sample: " + (show(dst, 4) if dst is not None else "?"))
        rel = x.seq > e.seq
        ctx.req(not rel, "files@from", x.where(), "paths of common files are resolved before the working directory is changed")
    # nothing is touched without a workspace
    no = {attr(lv, "need_sample_workspace"): FALSE}
    for x in r.events:
        if x.kind == "call" and (x.name in ("os.makedirs", "os.mkdir") or last(x.name) == "chdir") and resid(x, no) is not None:
            ctx.bad("none@" + last(x.name), x.where(), "a sample without a workspace changes the file system or the working directory")
    else:
        ctx.ok("none@workspace", w, "nothing is created without a workspace")
    # directory given by the pools
    thr = thread_pools(ctx)
    for cls in LOCAL:
        name = short(cls)
        R, direct, asy, _ = outcome_events(ctx, cls)
        ws = F + name + ".schedule_sample"
        for x in direct + asy:
            if x in direct:
                given = x.kw.get("work_dir") or x.arg(2)
            else:
                a = x.kw.get("args")
                if a is None:
                    ps = list(x.args[1:])
                    a = ps[0] if ps and ps[0].op in ("tuple", "list") else (tup(*ps) if ps else None)
                given = a.args[2] if a is not None and len(a.args) > 2 else None
                kd = x.kw.get("kwds")
                if given is None and kd is not None and kd.op == "dict":
                    given = dict(zip([k.args[0] if k.op == "const" else k for k in kd.args[::2]], kd.args[1::2])).get("work_dir")
                if given is None and kd is not None:
                    ctx.und("given@" + name, ws, "keyword arguments of the task")
                    continue
            if given is None or given is NONE:
                ctx.bad("given@" + name, x.where(), "no output directory is given to the sample calculation")
                continue
            out = attr(slf, "_output_dir")
            isn = mk("cmp", "is", out, NONE)
            g1 = subst(given, {isn: FALSE, out: sym("#dir"), attr(lv, "need_sample_workspace"): TRUE, mk("bool", out): TRUE})
            ctx.req(g1 is sym("#dir"), "given@" + name, x.where(), "samples use the output directory of the pool: " + show(g1, 4))
            g2 = subst(given, {isn: TRUE, attr(lv, "need_sample_workspace"): TRUE, mk("bool", out): FALSE})
            ctx.req(contains(g2, lambda t: t.op == "call" and t.args[0] in ("os.getcwd", "os.path.abspath")), "default@" + name, x.where(), "without it the (absolute) current directory: " + show(g2, 4))
        # working directory of the sampling process
        for x in direct:
            bk = [y for y in R.events if y.kind == "call" and last(y.name) == "chdir" and y.seq > x.seq]
            cwd = lambda t: t.op == "call" and t.args[0] == "os.getcwd"
            ran = lambda t: t.op == "call" and last(t.args[0]) == "calculate_sample"
            bk = [y for y in bk if resid(y, need) is not None and all(contains(z[0], cwd) and not contains(z[0], ran) for z in resid(y, need))]
            ok, got = False, "never"
            for y in bk:
                t = subst(y.args[0], need)
                got = show(t, 4)
                if t.op == "occ" and t.args[0].op == "call" and t.args[0].args[0] == "os.getcwd":
                    src = [z for z in R.events if z.kind == "call" and z.name == "os.getcwd" and z.result is t]
                    ok = ok or not src or src[0].seq < x.seq
                elif t is attr(slf, "_cwd") or t.op == "attr":
                    ctx.und("restored@" + name, y.where(), got)
                    ok = True
            ctx.req(ok, "restored@" + name, x.where(), "the working directory of the sampling process is restored after a sample with a workspace: " + got)
        # samples run in threads share the working directory
        wide = [y for y in r.events if y.kind == "call" and last(y.name) == "chdir" and resid(y, need) is not None]
        if asy:
            ctx.req(cls not in thr or not wide, "threads@" + name, ws, "samples run in threads of one process must not change its working directory (os.chdir is process-wide)")
    # PBS worker
    eng = ctx.engine(opaque={CALC})
    rj = ctx.run_method(JOB, "calculate_samples", eng=eng)
    cj = [e for e in rj.events if e.kind == "call" and last(e.name) == "calculate_sample"]
    for x in cj:
        given = x.kw.get("work_dir") or x.arg(2)
        ctx.req(given is attr(slf, "_output_dir"), "given@PbsJob", x.where(), "samples use the output directory of the job: " + (show(given, 4) if given is not None else "none"))
    # the output directory is absolute, the working directory changes
    for cls in LOCAL[:1]:
        ri = ctx.run_method(cls, "__init__")
        o = ri.state.heap.get(("f", slf, "_output_dir"))
        o1 = subst(o, {mk("cmp", "is", sym("work_dir"), NONE): FALSE, mk("bool", sym("work_dir")): TRUE}) if o is not None else None
        if o1 is None or o1.op == "ite":
            ctx.und("absolute@" + short(cls), F, show(o1, 4) if o1 is not None else "?")
        else:
            ctx.req(contains(o1, lambda t: t.op == "call" and t.args[0] in ("os.path.abspath", "os.path.realpath", "os.getcwd")), "absolute@" + short(cls), F + short(cls) + ".__init__", "the output directory is absolute: " + show(o1, 4))


def with_files(t, cf, need):
    """term for a level that has common files"""
    for _ in range(6):
        t = subst(t, need)
        m = {x: x.args[1] for x in walk(t) if x.op == "ite" and x.args[0] is cf}
        m.update({x: x.args[2] for x in walk(t) if x.op == "ite" and x.args[0].op == "not" and x.args[0].args[0] is cf})
        m.update({dim(x): dim(x.args[1]) for x in walk(t) if x.op == "ite" and x.args[0] is cf})
        m.update({x: cf for x in walk(t) if x.op == "bool" and x.args[0] == "or" and x.args[1] is cf})
        if not m:
            return t
        t = subst(t, m)
        t = subst(t, {x: sub(x.args[0], x.args[1]) for x in walk(t) if x.op == "sub"})
    return t


def contains_arg(e, t):
    return any(contains(a, t) for a in list(e.args) + list(e.kw.values()))
