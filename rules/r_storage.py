"""Sample storages: append discipline, reopening, result format guard, unfinished ids, counts, reading back."""
from .registry import prop
from .common import *

LG = "mlmc.tool.hdf5.LevelGroup"
H5 = "mlmc.tool.hdf5.HDF5"
HDF = "mlmc.sample_storage_hdf.SampleStorageHDF"
MEM = "mlmc.sample_storage.Memory"
W5 = "mlmc/tool/hdf5.py:"
SLF = sym("self")


def ds_name(t):
    """name of the HDF dataset a term denotes (last subscript string)"""
    if t.op == "sub" and t.args[1].op == "const" and isinstance(t.args[1].args[0], str):
        return t.args[1].args[0].rsplit("/", 1)[-1]
    if t.op == "sub":
        k = t.args[1]
        if k.op == "fmt" and k.args[-1].op == "const":
            return k.args[-1].args[0].rsplit("/", 1)[-1]
        if k.op == "call" and last(k.args[0]) == "join":
            ls = k.args[-1]
            if ls.op in ("list", "tuple") and ls.args and ls.args[-1].op == "const":
                return ls.args[-1].args[0]
        if k.op == "path" and k.args[-1].op == "const":
            return k.args[-1].args[0]
    return None


def is_part(i):
    return i.op == "slice" and any(a is not NONE and not is_const(a, 0) and not is_const(a, 1) for a in i.args) or \
        i.op == "slice" and (is_const(i.args[0], 1) or is_const(i.args[1], 1) or is_const(i.args[1], 0))


def column(t, src):
    """t is column c of all rows of src, in order -> c ; None unknown; -1 = part only or reordered"""
    x = t
    if contains(t, src) and (has_call(t, "sorted", "set", "frozenset", "unique", "sort", "reversed", "flip", "argsort", "shuffle", "permutation") or
                             contains(t, lambda y: y.op == "sub" and (is_part(y.args[1]) or y.args[1].op == "tuple" and y.args[1].args and is_part(y.args[1].args[0])))):
        return -1
    while True:
        if x.op == "cat" and len(x.args) == 1 and x.args[0].op == "spread":
            x = x.args[0].args[0]
        elif x.op == "spread":
            x = x.args[0]
        elif x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray", "builtins.list", "numpy.copy") and len(x.args) >= 2:
            x = x.args[1]
        else:
            break
    if x.op == "store" and x.args[1].op == "slice" and all(a is NONE for a in x.args[1].args):
        return column(x.args[2], src)
    if x is src:
        return "all"
    if x.op == "fstore" and x.args[3] is x.args[1] and x.args[5] is TRUE:
        idx, dom, v = x.args[1], x.args[2], x.args[4]
        return column(mk("cat", mk("each", idx, dom, mk("list", v), TRUE)), src)
    if x.op == "sub" and x.args[1].op == "tuple" and len(x.args[1].args) == 2 and x.args[1].args[0].op == "slice":
        if x.args[0] is not src and column(x.args[0], src) != "all":
            return None
        s, c = x.args[1].args
        if not all(a is NONE for a in s.args):
            return -1
        return c.args[0] if c.op == "const" else None
    if x.op == "cat" and len(x.args) == 1 and x.args[0].op == "each":
        idx, dom, part, g = x.args[0].args
        if part.op == "list" and len(part.args) == 1:
            e = part.args[0]
            if e.op == "call" and e.args[0] in ("numpy.array", "numpy.asarray") and len(e.args) == 2:
                e = e.args[1]
            if g is not TRUE:
                return -1
            if e.op == "sub" and e.args[1] is idx and e.args[0] is not src and column(e.args[0], src) not in (None, -1, "all") and (arr_len(e.args[0]) is dom or dom is dim(src)):
                return column(e.args[0], src)
            if e.op == "sub" and e.args[1].op == "const" and e.args[0].op == "sub" and e.args[0].args[1] is idx and \
                    (e.args[0].args[0] is src or column(e.args[0].args[0], src) == "all") and dim(src) is dom:
                return e.args[1].args[0]
            if e.op == "sub" and e.args[1].op == "slice":
                return -1
    if x.op == "sub" and x.args[1].op == "slice":
        return -1
    return None


def tail_appends(res):
    """[(dataset name, values, set event, problem or None)] of all dataset writes"""
    out = []
    n = Norm()
    rs = [e for e in res.events if e.kind == "call" and last(e.name) == "resize"]
    for e in res.events:
        if e.kind != "setitem" or e.recv is None or ds_name(e.recv) is None or contains(e.recv, lambda x: x.op == "attr" and x.args[1] == "attrs"):
            continue
        D, ix, X = e.recv, e.args[0], e.args[1]
        name = ds_name(D)
        prob = None
        rr = [r for r in rs if r.recv is D and r.seq < e.seq]
        if not rr:
            prob = "the dataset is not extended before the write"
        else:
            r = rr[-1]
            size = r.args[0] if r.args else r.kw.get("size")
            if size is not None and size.op == "tuple" and size.args:
                size = size.args[0]
            ax = r.kw.get("axis") or (r.args[1] if len(r.args) > 1 else None)
            lx = dim(X)
            if size is None or not n.equal(size, binop("+", dim(D), lx)):
                prob = "the dataset must grow by the number of appended values; new size %s" % (size and show(size))
            elif ax is not None and not is_const(ax, 0):
                prob = "the dataset grows along axis %s" % show(ax)
            else:
                reread = [x for x in res.events if x.kind == "read" and x.name in ("shape", "size") and x.recv is D and r.seq < x.seq < e.seq]
                if ix.op != "slice":
                    prob = "values are not written to a slice: %s" % show(ix)
                else:
                    lo, hi, st = ix.args
                    okhi = hi is NONE or n.equal(hi, binop("+", dim(D), lx)) or (reread and hi is dim(D))
                    if lo is NONE:
                        good = False
                    elif reread and contains(lo, dim(D)):
                        good = n.equal(lo, binop("-", dim(D), lx))
                    else:
                        good = n.equal(lo, mk("un", "-", lx)) or n.equal(lo, dim(D))
                    if not good or not okhi or not (st is NONE or is_const(st, 1)):
                        prob = "values must be written behind the existing ones; written to [%s:%s]" % (show(lo), show(hi))
            xc = [c for c in extra_conds(r, e)]
            if xc:
                prob = prob or "the dataset is extended only if %s" % [show(c[0]) for c in xc]
        out.append((name, X, e, prob))
    return out


def only_nonempty(cs, X):
    out = []
    for c, p in cs:
        d = dim(X)
        if c is X and p or c is d and p:
            continue
        if c.op == "cmp" and (contains(c, d) or contains(c, X)) and any(is_const(a, 0) for a in c.args[1:]):
            continue
        out.append((c, p))
    return out


def run_track(ctx, cls, meth, **kw):
    eng = ctx.engine(**kw)
    eng.track = {"shape", "size"}
    return ctx.run_method(cls, meth, eng=eng)


@prop("S09", "Effect summaries of the append operations: every dataset write is a tail append (extended by exactly the number of values, written behind the old end), "
      "ids and result pairs are columns of the same complete batch in the same order, and batches are routed to the group of their level.",
      ["h5py resize/slice assignment semantics", "no crash between the two appends of one batch (HDF5 offers no transactions)"])
def s09(ctx):
    S = sym("samples")
    r = run_track(ctx, LG, "append_successful", types={})
    w = W5 + "LevelGroup.append_successful"
    ap = tail_appends(r)
    by = {}
    for name, X, e, prob in ap:
        by.setdefault(name, []).append((X, e))
        ctx.req(prob is None, "tail@%s" % name, e.where(), prob or "")
    names = {}
    src = sym(ctx.method(LG, "append_successful").params()[1])
    for name, lst in by.items():
        ctx.req(len(lst) == 1, "once@%s" % name, lst[0][1].where(), "a batch is written %d times" % len(lst))
        X, e = lst[0]
        c = column(X, src)
        names[name] = c
        bad = only_nonempty([x for x in conds(e)], src)
        bad = [b for b in bad if not contains(b[0], lambda x: x.op == "const" and isinstance(x.args[0], str) and x.args[0] in by)]
        ctx.req(not bad, "always@%s" % name, e.where(), "written only if %s" % [show(b[0]) for b in bad])
        if c is None:
            ctx.und("column@%s" % name, e.where(), "values not resolved: %s" % show(X))
        elif c == -1:
            ctx.bad("column@%s" % name, e.where(), "not the complete batch in its order is written: %s" % show(X))
        else:
            ctx.req(c == (0 if name == "collected_ids" else 1 if name == "collected_values" else c), "column@%s" % name, e.where(), "column %s of the batch is written to %s" % (c, name))
    ctx.req("collected_ids" in by and "collected_values" in by, "both@append", w, "a successful batch must extend both the ids and the result pairs; writes %s" % sorted(by))
    for meth, ds in (("append_scheduled", "scheduled"), ("append_failed", "failed")):
        r2 = run_track(ctx, LG, meth)
        p = sym(ctx.method(LG, meth).params()[1])
        w2 = W5 + "LevelGroup." + meth
        ap = tail_appends(r2)
        if not ctx.req(len(ap) == 1, "write@%s" % ds, w2, "exactly one dataset is extended: %s" % [a[0] for a in ap]):
            continue
        name, X, e, prob = ap[0]
        ctx.req(name == ds, "dataset@%s" % ds, e.where(), "written to dataset %s" % name)
        ctx.req(prob is None, "tail@%s" % ds, e.where(), prob or "")
        c = column(X, p)
        if c is None:
            ctx.und("column@%s" % ds, e.where(), "values not resolved: %s" % show(X))
        elif c == -1:
            ctx.bad("column@%s" % ds, e.where(), "not the complete batch in its order is written: %s" % show(X))
        else:
            ctx.req(c == "all", "column@%s" % ds, e.where(), "all %s samples are recorded; found %s" % (ds, show(X)))
        bad = only_nonempty(conds(e), p)
        ctx.req(not bad, "always@%s" % ds, e.where(), "recorded only if %s" % [show(b[0]) for b in bad])
    # routing
    r3 = ctx.run_method(HDF, "save_samples")
    ps = ctx.method(HDF, "save_samples").params()[1:]
    for meth, p in (("append_successful", ps[0]), ("append_failed", ps[1])):
        ev = calls(r3, meth)
        P = sym(p)
        key = "route@%s" % meth
        if not ctx.req(len(ev) == 1, key, "mlmc/sample_storage_hdf.py:SampleStorageHDF.save_samples", "%d calls of %s" % (len(ev), meth)):
            continue
        e = ev[0]
        idx = e.loops[-1][0] if e.loops else None
        k = mk("key", P, idx) if idx is not None else None
        batch = sub(P, k) if k is not None else None
        good = e.recv is not None and e.recv.op == "sub" and strip_int(e.recv.args[1]) is k and contains(e.recv.args[0], lambda x: x.op == "attr" and x.args[0] is SLF)
        ctx.req(good, key, e.where(), "samples of level L must go to the group of level L; group %s" % (e.recv and show(e.recv)))
        X = e.args[0]
        ctx.req(column(X, batch) == "all", key + "-all", e.where(), "all samples of the level are stored; found %s" % show(X))
        bad = only_nonempty(conds(e), batch)
        ctx.req(not bad, key + "-always", e.where(), "stored only if %s" % [show(b[0]) for b in bad])
        ctx.req(len(e.loops) == 1 and e.loops[0][1] is dim(P), key + "-levels", e.where(), "all levels of the collected batch are stored")
    r4 = ctx.run_method(HDF, "save_scheduled_samples")
    ev = calls(r4, "append_scheduled")
    ps = ctx.method(HDF, "save_scheduled_samples").params()[1:]
    w4 = "mlmc/sample_storage_hdf.py:SampleStorageHDF.save_scheduled_samples"
    if ctx.req(len(ev) == 1, "route@scheduled", w4, "scheduled ids are recorded"):
        e = ev[0]
        ctx.req(e.recv.op == "sub" and strip_int(e.recv.args[1]) is sym(ps[0]) and column(e.args[0], sym(ps[1])) == "all" and not only_nonempty(conds(e), sym(ps[1])),
                "route@scheduled", e.where(), "scheduled ids of level L go to the group of level L; %s <- %s" % (show(e.recv), show(e.args[0])))
    # group i is level i
    for meth in ("__init__", "save_global_data"):
        r5 = ctx.run_method(HDF, meth)
        for e in calls(r5, "add_level_group"):
            a = e.kw.get("level_id") or e.arg(0)
            idx = e.loops[-1][0] if e.loops else None
            good = idx is not None and a is not None and a.op == "fmt" and len(a.args) == 1 and a.args[0].op == "fpart" and a.args[0].args[0] is idx
            ctx.req(good, "group-index@%s" % meth, e.where(), "group i must be the group of level i; found %s" % (a and show(a)))
            app = [x for x in r5.events if x.kind == "call" and last(x.name) == "append" and x.seq > e.seq and same_iteration(x, e)]
    r6 = ctx.run_method(H5, "add_level_group")
    lgn = [e for e in r6.events if e.kind == "new" and last(e.name) == "LevelGroup"]
    if ctx.req(bool(lgn), "group-path@add", W5 + "HDF5.add_level_group", "a LevelGroup is returned"):
        e = lgn[0]
        pth, lid = e.kw.get("hdf_group_path") or e.arg(1), e.kw.get("level_id") or e.arg(2)
        L = sym("level_id")
        ctx.req(lid is L and pth is not None and contains(pth, L), "group-path@add", e.where(), "path %s level %s" % (pth and show(pth), lid and show(lid)))
    # memory storage
    r7 = ctx.run_method(MEM, "save_samples")
    ps = ctx.method(MEM, "save_samples").params()[1:]
    P, Q = sym(ps[0]), sym(ps[1])
    wm = "mlmc/sample_storage.py:Memory.save_samples"
    memory_append(ctx, r7, P, 1, "_results", wm)
    memory_append(ctx, r7, P, 0, "_successful_sample_ids", wm)
    memory_append(ctx, r7, Q, "all", "_failed", wm)
    # widths
    prog = ctx.prog
    eng = ctx.engine()
    c = prog.cls(LG)
    for nm in ("SCHEDULED_DTYPE", "FAILED_DTYPE"):
        a = prog.class_attr(c, nm)
        if a is None:
            continue
        v = eng.class_const(a, nm)
        fm = [x for x in walk(v) if x.op == "const" and isinstance(x.args[0], str) and x.args[0][:1] in "SaU" and x.args[0][1:].isdigit()]
        first = None
        it = dict_items(v)
        if it:
            for k, val in it:
                if is_const(k, "formats") and val.op in ("list", "tuple"):
                    first = val.args[0]
        if first is not None and first.op == "const":
            wd = int(first.args[0][1:]) if first.args[0][1:].isdigit() else 0
            ctx.req(wd >= 32, "id-width@%s" % nm, W5 + "LevelGroup", "sample ids are stored with at most %d characters" % wd)
    # result pairs keep double precision
    for e in calls(r, "_make_dataset", "create_dataset"):
        nm = e.arg(0) or e.kw.get("name")
        if nm is not None and is_const(nm, "collected_values"):
            dt = e.kw.get("dtype")
            low = [x for x in walk(dt) if x.op == "ext" and x.args[0] in ("numpy.float32", "numpy.float16", "numpy.single", "numpy.half", "numpy.int32", "builtins.int", "numpy.int64")
                   or x.op == "const" and x.args[0] in ("float32", "f4", "f2", "float16", "i4", "int32", "int64", "<f4")] if dt is not None else []
            ctx.req(dt is not None and not low, "precision@collected_values", e.where(), "results are stored with type %s" % (dt and show(dt)))


def memory_append(ctx, r, P, col, fld, w):
    """the dict field `fld` at each level is extended at its end by the level's batch"""
    key = "memory@%s" % fld
    f = attr(SLF, fld)
    ext, writes, strange = [], [], []
    for e in r.events:
        if not e.loops:
            continue
        idx = e.loops[-1][0]
        k = mk("key", P, idx)
        batch = sub(P, k)
        if e.kind == "call" and last(e.name) == "extend" and column(e.args[0], batch) == col:
            ext.append(e)
        if e.kind == "setitem" and strip_int(e.args[0]) is k and contains(e.recv, lambda x: x.op in ("mu", "attr") and fld in str(x.args)):
            writes.append((e, k, batch))
        if contains(batch, P) and e.recv is not None and contains(e.recv, lambda x: x.op in ("mu", "attr") and fld in str(x.args)) and e.kind in ("call", "setitem", "augassign"):
            strange.append(e)
    if ext:
        ctx.ok(key, w, "extended at the end by the whole batch")
        return
    if not writes:
        if strange:
            ctx.und(key, w, "append not resolved: %r" % strange[0])
        else:
            ctx.bad(key, w, "the level's batch (column %s) is not appended to %s" % (col, fld))
        return
    for known in (True, False):
        val, res = None, None
        for e, k, batch in writes:
            m = {}
            for mu in [x for x in walk(e.recv) if x.op in ("mu", "attr") and fld in str(x.args)] + [f]:
                old = sub(mu, k)
                m.update({mk("cmp", "in", k, mu): const(known), mk("cmp", "notin", k, mu): const(not known),
                          mk("cmp", "is", old, NONE): FALSE, mk("cmp", "isnot", old, NONE): TRUE})
            feas = True
            for c, pol in conds(e):
                vv = subst(c, m)
                if is_const(vv):
                    feas = feas and bool(vv.args[0]) == pol
                else:
                    feas = None
                    break
            if feas is None:
                res = "unknown condition " + show(c, 4)
                continue
            if feas:
                val = (e, subst(e.args[1], m), k, batch, val)
        nm = "known" if known else "new"
        if val is None:
            if res:
                ctx.und(key, w, res)
            else:
                ctx.bad(key, w, "%s level: the batch is not stored in %s" % (nm, fld))
            continue
        e, X, k, batch, prev = val
        X = r.eng.deref(X, e.st) if e.st is not None else X
        X = subst(X, m)
        if not known and column(X, batch) == col:
            ctx.ok(key, e.where(), "new level: the whole batch")
            continue
        parts = None
        if X.op == "call" and last(X.args[0]) in ("concatenate", "append", "vstack") and len(X.args) > 1:
            parts = list(X.args[1].args) if X.args[1].op in ("tuple", "list") else list(X.args[1:3])
        elif X.op == "cat":
            parts = [p.args[0] if p.op == "spread" else p for p in X.args]
        elif X.op == "bin" and X.args[0] == "+":
            parts = list(X.args[1:])
        if parts is not None:
            parts = [p for p in parts if not (p.op in ("list", "tuple") and not p.args)]
        if parts is None or not parts:
            if not known and prev is not None and not contains(X, batch):
                ctx.bad(key, e.where(), "new level: stored %s" % show(X, 4))
            else:
                (ctx.und if contains(X, batch) else ctx.bad)(key, e.where(), "%s level: the level's batch (column %s) is not appended to %s: %s" % (nm, col, fld, show(X, 4)))
            continue
        isold = lambda p: contains(p, lambda x: x.op in ("mu", "attr") and fld in str(x.args)) and not contains(p, batch)
        whole = lambda p: isold(p) and not contains(p, lambda x: x.op == "slice")
        if len(parts) == 2 and column(parts[1], batch) == col and whole(parts[0]):
            ctx.ok(key, e.where(), "%s level: extended at the end by the whole batch" % nm)
        elif not known and len(parts) == 1 and column(parts[0], batch) == col:
            ctx.ok(key, e.where(), "new level: the whole batch")
        elif len(parts) == 2 and column(parts[0], batch) == col and isold(parts[1]):
            ctx.bad(key, e.where(), "new samples are put before the stored ones: ids and results lose their common order")
        elif known and not any(isold(p) for p in parts):
            ctx.bad(key, e.where(), "known level: stored samples are lost: %s" % show(X, 4))
        elif any(column(p, batch) == -1 for p in parts) or not any(contains(p, batch) for p in parts):
            ctx.bad(key, e.where(), "%s level: not the whole batch is appended: %s" % (nm, show(X, 4)))
        elif len(parts) == 2 and isold(parts[0]) and not whole(parts[0]):
            ctx.bad(key, e.where(), "%s level: stored samples are cut: %s" % (nm, show(X, 4)))
        else:
            ctx.und(key, e.where(), "append not resolved: %s" % show(X, 5))


# ------------------------------------------------------------------------------------------------ reopening
def h5_methods(ctx):
    for cn in (H5, LG):
        c = ctx.prog.cls(cn)
        for name in sorted(c.methods):
            yield c, name


@prop("S10", "Typestate / effect analysis of every HDF5 file open and every deletion in the storage: opens use non-truncating modes, and under the assumption that the "
      "file exists no deletion, header rewrite or dataset creation over existing data is feasible; datasets are only ever grown.",
      ["h5py modes 'r', 'r+', 'a' never truncate"])
def s10(ctx):
    n = 0
    for c, name in h5_methods(ctx):
        try:
            r = ctx.run_method(c, name)
        except Exception as ex:
            ctx.und("open@%s.%s" % (c.name, name), c.name, "not analysed: %s" % ex)
            continue
        for e in r.events:
            if e.kind in ("call", "new") and e.name == "h5py.File":
                n += 1
                mode = e.kw.get("mode") or e.arg(1)
                modes = [x for _, x in leaves_ite(mode)] if mode is not None else []
                good = bool(modes) and all(m.op == "const" and m.args[0] in ("r", "a", "r+") for m in modes)
                ctx.req(good, "open@%s.%s" % (c.name, name), e.where(), "HDF5 file opened in mode %s: existing samples would be lost" % (mode and show(mode)))
            if e.kind == "call" and (e.name in ("os.remove", "os.unlink", "shutil.rmtree", "os.truncate", "os.rename", "os.replace", "shutil.move")):
                ctx.bad("delete@%s.%s" % (c.name, name), e.where(), "%s on the storage file" % e.name)
    ctx.req(n >= 5, "open@count", W5, "file opens analysed: %d" % n)
    # construction of the storage
    r = ctx.run_method(HDF, "__init__")
    w = "mlmc/sample_storage_hdf.py:SampleStorageHDF.__init__"
    fp = sym("file_path")
    ex = mk("call", "os.path.exists", fp)
    exm = {ex: TRUE, mk("call", "os.path.isfile", fp): TRUE}
    nh = [e for e in r.events if e.kind == "new" and last(e.name) == "HDF5"]
    if ctx.req(bool(nh), "load@init", w, "the HDF5 interface is created"):
        e = nh[0]
        lf = e.kw.get("load_from_file") or e.arg(1)
        v = subst(lf, exm) if lf is not None else None
        ctx.req(v is not None and is_const(v, True), "load@init", e.where(), "an existing file must be loaded, not created anew; load_from_file=%s" % (lf and show(lf)))
        ctx.req((e.kw.get("file_path") or e.arg(0)) is fp, "load@path", e.where(), "file path")
    for e in r.events:
        if e.kind == "call" and e.name.startswith(("os.remove", "os.unlink", "shutil.", "os.rename", "os.truncate")):
            ctx.bad("delete@init", e.where(), "%s on construction" % e.name)
    # groups of all recorded levels are reopened
    ag = calls(r, "add_level_group")
    if ctx.req(bool(ag), "groups@init", w, "level groups of an existing file are reopened"):
        e = ag[0]
        bad = [c for c in conds(e) if not is_const(subst(c[0], exm)) and not contains(c[0], lambda x: x.op == "attr" and x.args[1] == "level_parameters")]
        ctx.req(not bad and e.loops and contains(e.loops[-1][1], lambda x: x.op == "attr" and x.args[1] == "level_parameters"), "groups@init", e.where(),
                "one group per recorded level; loop over %s" % (show(e.loops[-1][1]) if e.loops else "-"))
    # HDF5 object: with a loaded file nothing is cleared
    r = ctx.run_method(H5, "create_file_structure")
    lm = {attr(SLF, "_load_from_file"): TRUE}
    w2 = W5 + "HDF5.create_file_structure"
    for e in r.events:
        bad = None
        if e.kind == "delitem":
            bad = "deletes %s" % show(e.args[0] if e.args else e.recv)
        elif e.kind == "setitem" and contains(e.recv, lambda x: x.op == "attr" and x.args[1] == "attrs") and contains(e.recv, lambda x: x.op == "call" and x.args[0] == "h5py.File"):
            bad = "rewrites header entry %s" % show(e.args[0])
        elif e.kind == "call" and last(e.name) in ("clear", "create_group", "create_dataset", "__delitem__", "pop"):
            bad = "calls %s" % e.name
        if bad is None:
            continue
        feas = True
        for c, p in conds(e):
            v = subst(c, lm)
            if v.op == "const" and bool(v.args[0]) != p:
                feas = False
        ctx.req(not feas, "keep@create_file_structure", e.where(), "opening an existing file %s" % bad)
    r = ctx.run_method(H5, "__init__")
    f = r.field(SLF, "_load_from_file")
    ctx.req(f is sym("load_from_file"), "flag@HDF5", W5 + "HDF5.__init__", "load flag kept: %s" % (f and show(f)))
    # group creation and data sets only if missing
    for cn, name in ((H5, "add_level_group"), (LG, "__init__"), (LG, "append_successful"), (H5, "save_result_format"), (LG, "clear_failed_dataset")):
        r = ctx.run_method(cn, name)
        for e in r.events:
            if e.kind == "call" and last(e.name) in ("create_group", "create_dataset", "require_dataset", "require_group"):
                if last(e.name).startswith("require"):
                    ctx.ok("missing@%s" % name, e.where(), "require_* keeps existing data")
                    continue
                nm = e.arg(0) or e.kw.get("name")
                good = any(c.op == "cmp" and c.args[0] == "in" and not p for c, p in conds(e)) or any(c.op == "cmp" and c.args[0] == "notin" and p for c, p in conds(e))
                ctx.req(good, "missing@%s" % name, e.where(), "%s(%s) must only run when it does not exist yet" % (e.name, nm and show(nm)))
            if e.kind == "delitem":
                k = e.args[0] if e.args else None
                ok = name == "clear_failed_dataset" and k is not None and is_const(k, "failed")
                ctx.req(ok, "keep@%s" % name, e.where(), "deletes %s" % (k and show(k)))
    # LevelGroup.__init__ with loaded data
    r = ctx.run_method(LG, "__init__")
    for e in r.events:
        if e.kind == "setitem" and contains(e.recv, lambda x: x.op == "attr" and x.args[1] == "attrs"):
            good = any(c.op == "cmp" and c.args[0] == "in" and not p for c, p in conds(e))
            ctx.req(good, "attrs@LevelGroup", e.where(), "group attribute is rewritten on opening")


# ------------------------------------------------------------------------------------------------ result format guard
def field_of(v, sp):
    """which field of the specification sp v is -> (key term or None, what was done to it)"""
    done = []
    while v.op == "call" and len(v.args) == 2 and v.args[0] in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "builtins.sorted", "builtins.reversed", "builtins.set", "numpy.sort", "numpy.unique", "numpy.flip") \
            or v.op in ("asset", "spread") or v.op == "cat" and len(v.args) == 1 or v.op == "sub" and v.args[1].op == "slice":
        if v.op == "call" and last(v.args[0]) in ("sorted", "reversed", "set", "sort", "unique", "flip") or v.op == "asset" or v.op == "sub" and not full_slice(v.args[1]):
            done.append(v)
        v = v.args[1] if v.op == "call" else v.args[0]
    if v.op == "call" and v.args[0] == "builtins.getattr" and len(v.args) >= 3 and v.args[1] is sp:
        return v.args[2], done
    if v.op == "sub" and v.args[0].op in ("call", "vars") and v.args[0].args[-1] is sp and ("vars" in str(v.args[0].op) + str(v.args[0].args[0])):
        return v.args[1], done
    if v.op == "attr" and v.args[0] is sp:
        return const(v.args[1]), done
    return None, done


def format_written(ctx):
    """every field of every specification is written, as it is, to the column of its own name in its own row"""
    key, w = "writer@format", W5 + "HDF5.save_result_format"
    r = ctx.run_method(H5, "save_result_format")
    rf = sym("result_format")
    cols, generic = set(), False
    evs = [e for e in r.events if e.kind == "setitem" and len(e.args) == 2 and e.loops]
    for e in evs:
        v = e.args[1]
        sps = {x for x in walk(v) if x.op == "sub" and x.args[0] is rf}
        if len(sps) != 1:
            continue
        sp = sps.pop()
        ks = [(field_of(x, sp)) for _, x in leaves_ite(v)]
        for k, done in ks:
            if k is None:
                ctx.und(key, e.where(), "value %s" % show(v, 6))
                continue
            ctx.req(not done, key, e.where(), "the field is written as it was given; found %s" % [show(d, 5) for d in done])
            col = e.args[0] if e.args[0].op != "slice" else (e.recv.args[1] if e.recv.op == "sub" else None)
            if e.args[0].op == "slice":
                ctx.req(full_slice(e.args[0]), key, e.where(), "all entries of the field; found %s" % show(e.args[0]))
            if col is None:
                ctx.und(key, e.where(), "column of %s" % show(e.recv, 5))
                continue
            ctx.req(col is k, key, e.where(), "field %s is written to its own column; found %s" % (show(k, 4), show(col, 4)))
            rows_ = {x.args[1] for x in walk(e.recv) if x.op == "sub" and contains(x.args[0], lambda y: y.op == "call" and y.args[0] in ("numpy.empty", "numpy.zeros")) and x.args[1].op in ("idx", "const")}
            if rows_:
                ctx.req(sp.args[1] in rows_, key, e.where(), "row of its own specification; found %s for %s" % ([show(x) for x in rows_], show(sp)))
            odd = [c for c, p in conds(e) if not contains(c, lambda y: y.op == "call" and y.args[0] in ("builtins.isinstance", "builtins.type", "builtins.hasattr") or y.op == "isinst")]
            ctx.req(not odd, key, e.where(), "written for every specification; only if %s" % [show(c, 5) for c in odd])
            if is_const(k):
                cols.add(k.args[0])
            elif k.op in ("key", "idx", "sub"):
                generic = True
    if not evs or not cols and not generic:
        ctx.und(key, w, "writing of the fields not resolved")
    elif not generic:
        ctx.req(set(SPECF) <= cols, key, w, "fields written: %s" % sorted(cols))


SPECF = ("name", "unit", "shape", "times", "locations")


@prop("S11", "Must-precede analysis: the format write is only reachable past the comparison of the complete loaded format with the given one, the mismatch exception is not "
      "caught on the way out; the comparison is symmetric and covers every field; the loader reconstructs every field from its own column for both kinds of locations.",
      ["AttributeError is only the storage's 'nothing saved yet' signal"])
def s11(ctx):
    w = "mlmc/sample_storage_hdf.py:SampleStorageHDF.save_result_format"
    r = ctx.run_method(HDF, "save_global_data")
    eng = r.eng
    writes = [e for e in r.events if e.kind == "call" and last(e.name) == "save_result_format"]
    rf = sym("result_format")
    if not ctx.req(bool(writes), "write@format", w, "the result format is recorded"):
        return
    raises = [e for e in r.events if e.kind == "raise"]
    guard_ev = []
    for e in raises:
        for c, p in conds(e):
            if contains(c, rf) and has_call(c, "load_result_format") and c.op == "cmp" and c.args[0] in ("==", "!="):
                eq = (c.args[0] == "==")
                if eq != p:
                    guard_ev.append((e, c))
    if not ctx.req(bool(guard_ev), "refuse@mismatch", w, "a stored result format that differs from the given one must be refused with an error"):
        pass
    for e, c in guard_ev:
        ctx.req(all(e.seq < x.seq for x in writes), "before@write", e.where(), "the check must come before the format is overwritten")
        caught = [nm for t in e.tries for nm in t[1] if any(k in nm for k in ("ValueError", "Exception", "BaseException"))]
        et = e.args[0] if e.args else None
        if et is not None and et.op == "call":
            tn = last(et.args[0])
            caught += [nm for t in e.tries for nm in t[1] if tn in nm and nm not in caught]
        ctx.req(not caught, "escape@mismatch", e.where(), "the refusal is swallowed by a handler for %s" % caught)
        extra = [x for x in conds(e) if x[0] is not c and x[0].op not in ("exc",) and not (x[0].op in ("cat",) or nonempty_fmt(x))]
        ctx.req(not extra, "always@mismatch", e.where(), "the formats are compared only if %s" % [show(x[0]) for x in extra])
        c = subst(c, {x: FALSE for x in walk(c) if x.op == "exc"})
        L = [a for a in c.args[1:] if not a is rf]
        G = [a for a in c.args[1:] if a is rf]
        full = len(G) == 1 and L[0].op == "cat" and len(L[0].args) == 1 and L[0].args[0].op == "each" and L[0].args[0].args[3] is TRUE
        ctx.req(full, "complete@compare", e.where(), "the complete formats must be compared; compares %s" % show(c))
    # handlers around load: only AttributeError
    loads = [e for e in r.events if e.kind == "call" and last(e.name) == "load_result_format"]
    for e in loads:
        bad = [nm for t in e.tries for nm in t[1] if nm.split(".")[-1] not in ("AttributeError", "KeyError")]
        ctx.req(not bad, "handler@load", e.where(), "errors %s while loading the stored format are taken for 'no format stored'" % bad)
    # loader
    rl = ctx.run_method(HDF, "load_result_format")
    wl = "mlmc/sample_storage_hdf.py:SampleStorageHDF.load_result_format"
    news = [e for e in rl.events if e.kind == "new" and last(e.name) == "QuantitySpec"]
    rd = ctx.run_method(HDF, "_hdf_result_format")
    if ctx.req(bool(news), "loader@spec", wl, "specifications are rebuilt"):
        e = news[0]
        idx = e.loops[-1][0] if e.loops else None
        for i, f in enumerate(SPECF):
            v = e.kw.get(f)
            subs = {x.args[1].args[0] for x in walk(v) if x.op == "sub" and x.args[1].op == "const" and x.args[0].op == "sub" and x.args[0].args[1] is idx} if v is not None else set()
            ctx.req(v is not None and subs in ({i}, {f}), "loader@%s" % f, e.where(), "%s is rebuilt from column %s" % (f, subs))
        loc = e.kw.get("locations")
        if loc is not None:
            dec = [x for x in walk(loc) if x.op == "call" and last(x.args[0]) == "decode"]
            okl = True
            for x in walk(loc):
                if x.op == "each":
                    el = x.args[2].args[0] if x.args[2].op == "list" else None
                    if el is not None and el.op == "call" and last(el.args[0]) == "decode":
                        okl = False
            ctx.req(okl, "loader@point-locations", e.where(), "point locations can not be decoded as text: the AttributeError is taken for 'no format stored' and a mismatch is not refused")
    format_written(ctx)
    rr = ctx.run_method(H5, "load_result_format")
    rs = [e for e in rr.events if e.kind == "raise"]
    ctx.req(any(contains(e.args[0], lambda x: (x.op == "ext" or x.op == "call") and "AttributeError" in str(x.args[0])) for e in rs if e.args), "signal@load", W5 + "HDF5.load_result_format", "missing format is signalled by AttributeError")
    # comparison
    c = ctx.prog.cls("mlmc.quantity.quantity_spec.QuantitySpec")
    f = ctx.prog.method(c, "__eq__")
    we = "mlmc/quantity/quantity_spec.py:QuantitySpec.__eq__"
    if f is None:
        ctx.ok("eq@generated", we, "field-wise generated comparison") if False else ctx.und("eq@generated", we, "no explicit comparison")
        return
    q = ctx.run(f, c)
    v = q.eng.deref(q.value, q.state)
    o = sym(f.params()[1])
    atoms = []

    def cross(t):
        return contains(t, SLF) and contains(t, o)

    def collect(t):
        if t.op in ("ite", "bool", "not") or t.op == "call" and t.args[0] in ("builtins.bool", "builtins.all"):
            for x in children(t):
                collect(x)
            return
        if cross(t):
            atoms.append(t)
    collect(v)
    covered = set()
    for a in set(atoms):
        args = [x for x in a.args if isinstance(x, T)]
        if a.op == "cmp" and a.args[0] in ("==", "!=") or a.op == "call" and last(a.args[0]) in ("array_equal", "allclose"):
            args = [x for x in args if x.op != "kw"][:2]
            swap = subst(args[0], {SLF: o, o: SLF})
            if swap is args[1]:
                fl = {x.args[1] for x in walk(args[0]) if x.op == "attr" and x.args[0] in (SLF, o)}
                # lossy views of a field do not compare it
                lossy = contains(args[0], lambda x: x.op == "call" and last(x.args[0]) in ("len", "sum", "max", "min", "prod", "size") or x.op == "dim" or x.op == "sub" or x.op == "asset" or x.op == "attr" and x.args[1] in ("size", "shape") and x.args[0] not in (SLF, o))
                if not lossy:
                    tv = subst(v, {x: TRUE for x in atoms})
                    m = {x: (TRUE if x.op == "call" or x.args[0] == "==" else FALSE) for x in atoms}
                    m2 = dict(m)
                    m2[a] = neg(m[a])
                    if is_const(subst(v, m), True) and not is_const(subst(v, m2), True):
                        covered |= fl
    for fl in SPECF:
        key = "eq@%s" % fl
        if fl == "locations" and fl not in covered and any(subset_only(a, o) for a in atoms):
            key = "eq@locations-subset"
        ctx.req(fl in covered, key, we, "two specifications that differ in %s must not be equal (in both directions)" % fl)


def nonempty_fmt(x):
    c, p = x
    return has_call(c, "load_result_format") and (c.op in ("call", "cat", "dim")) and p


# ------------------------------------------------------------------------------------------------ unfinished ids
def member(t, atoms):
    """membership of an element in the collection t as a boolean function of atoms; None unknown.
    atoms: callable term -> name or None"""
    a = atoms(t)
    if a is not None:
        return lambda env: env[a]
    if t.op in ("spread", "asset") or t.op == "cat" and len(t.args) == 1 and t.args[0].op == "spread":
        return member(t.args[0] if t.op != "cat" else t.args[0].args[0], atoms)
    if t.op == "call" and t.args[0] in ("builtins.list", "builtins.set", "builtins.sorted", "builtins.tuple", "numpy.array", "numpy.asarray", "numpy.unique", "builtins.frozenset") and len(t.args) >= 2:
        return member(t.args[1], atoms)
    if t.op == "bin" and t.args[0] in ("-", "|", "&", "+", "^") or t.op == "call" and last(t.args[0]) in ("difference", "union", "intersection", "setdiff1d", "union1d", "intersect1d"):
        if t.op == "bin":
            o, x, y = t.args
        else:
            o = {"difference": "-", "union": "|", "intersection": "&", "setdiff1d": "-", "union1d": "|", "intersect1d": "&"}[last(t.args[0])]
            ys = [a for a in t.args[1:] if a.op != "kw"]
            if len(ys) > 2 and o == "-":
                f = member(ys[0], atoms)
                gs = [member(y, atoms) for y in ys[1:]]
                if f is None or None in gs:
                    return None
                return lambda env: f(env) and not any(g(env) for g in gs)
            if len(ys) > 2 and o == "|":
                gs = [member(y, atoms) for y in ys]
                return None if None in gs else (lambda env: any(g(env) for g in gs))
            if len(ys) < 2:
                return None
            x, y = ys[0], ys[1]
        f, g = member(x, atoms), member(y, atoms)
        if f is None or g is None:
            return None
        return {"-": lambda env: f(env) and not g(env), "|": lambda env: f(env) or g(env), "+": lambda env: f(env) or g(env), "&": lambda env: f(env) and g(env), "^": lambda env: f(env) != g(env)}[o]
    if t.op == "call" and last(t.args[0]) in ("concatenate", "hstack", "append", "chain") and len(t.args) >= 2:
        ps = t.args[1].args if t.args[1].op in ("tuple", "list") else [a for a in t.args[1:] if a.op != "kw"]
        fs = [member(p, atoms) for p in ps]
        return None if None in fs else (lambda env: any(f(env) for f in fs))
    if t.op in ("cat",):
        fs = []
        for p in t.args:
            if p.op == "each":
                idx, dom, part, g = p.args
                if part.op == "list" and len(part.args) == 1 and part.args[0].op == "sub" and part.args[0].args[1] is idx:
                    e = part.args[0]
                    f = member(e.args[0], atoms)
                    h = member_guard(g, e, atoms)
                    if f is None or h is None:
                        return None
                    fs.append(lambda env, f=f, h=h: f(env) and h(env))
                elif part.op == "list" and len(part.args) == 1 and atoms(mk("cat", mk("each", idx, dom, part, TRUE))) is not None:
                    a2 = atoms(mk("cat", mk("each", idx, dom, part, TRUE)))
                    h = member_guard(g, part.args[0], atoms)
                    if h is None:
                        return None
                    fs.append(lambda env, a2=a2, h=h: env[a2] and h(env))
                else:
                    return None
            elif p.op == "spread":
                f = member(p.args[0], atoms)
                if f is None:
                    return None
                fs.append(f)
            elif p.op == "list" and not p.args:
                pass
            else:
                return None
        return lambda env: any(f(env) for f in fs)
    if t.op == "list" and not t.args:
        return lambda env: False
    return None


def member_guard(g, e, atoms):
    if g is TRUE:
        return lambda env: True
    if g.op == "cmp" and g.args[0] in ("in", "notin") and g.args[1] is e:
        f = member(g.args[2], atoms)
        return None if f is None else ((lambda env: f(env)) if g.args[0] == "in" else (lambda env: not f(env)))
    if g.op == "not":
        f = member_guard(g.args[0], e, atoms)
        return None if f is None else (lambda env: not f(env))
    if g.op == "bool":
        fs = [member_guard(x, e, atoms) for x in g.args[1:]]
        if None in fs:
            return None
        return (lambda env: all(f(env) for f in fs)) if g.args[0] == "and" else (lambda env: any(f(env) for f in fs))
    return None


def id_atom(t):
    """decoded id column of a whole dataset -> dataset name"""
    if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "each":
        idx, dom, part, g = t.args[0].args
        if g is not TRUE or part.op != "list" or len(part.args) != 1:
            return None
        e = part.args[0]
        if e.op == "call" and last(e.args[0]) == "decode":
            e = e.args[1]
        if e.op == "sub" and (is_const(e.args[1], 0) or is_const(e.args[1], "sample_id")) and e.args[0].op == "sub" and e.args[0].args[1] is idx:
            base = e.args[0].args[0]
            if dim(base) is not dom:
                return None
            while base.op == "sub" and (base.args[1].op == "tuple" and not base.args[1].args or base.args[1].op == "slice" and all(a is NONE for a in base.args[1].args)):
                base = base.args[0]
            return ds_name(base)
    return None


def check_member(ctx, key, w, t, want, names, atoms=id_atom):
    f = member(t, atoms)
    if f is None:
        lost = partial_ids(t, atoms)
        if lost is not None:
            ctx.bad(key, w, "ids are selected by something else than what happened to them: %s" % show(lost, 7))
        else:
            ctx.und(key, w, "set expression not resolved: %s" % show(t))
        return
    import itertools
    bad = []
    for bits in itertools.product((False, True), repeat=len(names)):
        env = dict(zip(names, bits))
        try:
            v = bool(f(env))
        except KeyError as ex:
            ctx.bad(key, w, "reads dataset %s" % ex)
            return
        if v != want(env):
            bad.append({k: b for k, b in env.items()})
    ctx.req(not bad, key, w, "wrong for an id with %s" % bad[:2])


def partial_ids(t, atoms):
    """a part of t which selects the ids of one dataset by position or by another column"""
    for x in walk(t):
        if x.op == "sub" and x.args[1].op == "slice" and not full_slice(x.args[1]) and not all(is_const(a) or a is NONE for a in x.args[1].args) and member(x.args[0], atoms) is not None:
            return x
        if x.op == "each" and x.args[3] is not TRUE:
            idx, dom, part, g = x.args
            whole = mk("cat", mk("each", idx, dom, part, TRUE))
            if atoms(whole) is None or part.op != "list" or contains(g, lambda y: y.op == "cmp" and y.args[0] in ("in", "notin")):
                continue
            row = [y.args[0] for y in walk(part) if y.op == "sub" and y.args[0].op == "sub" and y.args[0].args[1] is idx]
            other = [y for y in walk(g) if y.op == "sub" and row and y.args[0] is row[0] and not contains(part, y)]
            if other:
                return g
    return None


@prop("S12", "Set-algebra evaluation of the returned id collections: membership is evaluated for all 8 combinations of (scheduled, collected, failed) and compared with "
      "'scheduled and neither collected nor failed'; the union over all levels is what the sampler hands to the pool on start.",
      ["an id is in a dataset iff it was appended to it"])
def s12(ctx):
    names = ("scheduled", "collected_ids", "failed")
    for meth, want, nm in (("get_unfinished_ids", lambda e: e["scheduled"] and not e["collected_ids"] and not e["failed"], "unfinished"),
                           ("get_finished_ids", lambda e: e["collected_ids"] or e["failed"], "finished"),
                           ("get_failed_ids", lambda e: e["failed"], "failed")):
        r = ctx.run_method(LG, meth)
        v = r.eng.deref(r.value, r.state) if r.value is not None else None
        w = W5 + "LevelGroup." + meth
        if v is None:
            ctx.bad(nm + "@level", w, "nothing is returned")
            continue
        check_member(ctx, nm + "@level", w, v, want, names)
    r = ctx.run_method(HDF, "unfinished_ids")
    v = r.eng.deref(r.value, r.state)
    w = "mlmc/sample_storage_hdf.py:SampleStorageHDF.unfinished_ids"
    ev = calls(r, "get_unfinished_ids")
    if ctx.req(bool(ev), "all-levels@unfinished", w, "unfinished ids of the levels are collected"):
        e = ev[0]
        G = [x for x in walk(e.recv) if x.op == "attr" and x.args[0] is SLF]
        ctx.req(bool(G) and e.loops and e.loops[-1][1] is dim(G[0]) and e.recv is sub(G[0], e.loops[-1][0]) and not conds(e), "all-levels@unfinished", e.where(), "every level contributes; %s" % show(e.recv))
        ctx.req(contains(v, e.result) if e.result is not None else True, "returned@unfinished", w, "returned value %s" % show(v))
        each_ = [x for x in walk(v) if x.op == "each"]
        ctx.req(bool(each_) and all(x.args[3] is TRUE for x in each_) and not contains(v, lambda x: x.op == "slice"), "returned@complete", w, "no id is filtered out: %s" % show(v))
    r = ctx.run_method(HDF, "failed_samples")
    v = r.eng.deref(r.value, r.state)
    w = "mlmc/sample_storage_hdf.py:SampleStorageHDF.failed_samples"
    ev = calls(r, "get_failed_ids")
    if ctx.req(bool(ev), "failed@levels", w, "failed ids of all levels are returned"):
        e = ev[0]
        st = [x for x in r.events if x.kind == "setitem" and contains(x.args[1], e.result)]
        okk = bool(st) and e.recv.op == "sub" and contains(st[0].args[0], attr(e.recv, "level_id"))
        okk = okk or (v.op in ("fstore",) and contains(v.args[3], attr(e.recv, "level_id"))) or contains(v, attr(e.recv, "level_id"))
        ctx.req(okk and not conds(e), "failed@levels", e.where(), "failed ids are keyed by the id of their level")
        parts = [x.args[1] for x in st] or [v]
        drop = [x for p_ in parts for x in walk(p_) if contains(x, e.result) and (
            x.op == "bin" and x.args[0] in ("-", "&", "^") or x.op == "each" and x.args[3] is not TRUE and contains(x.args[3], e.result)
            or x.op == "sub" and x.args[1].op == "slice" and contains(x.args[0], e.result)
            or x.op == "call" and last(x.args[0]) in ("difference", "intersection", "setdiff1d", "intersect1d", "filter"))]
        ctx.req(not drop, "failed@complete", e.where(), "no failed id is left out of the answer: %s" % [show(x) for x in drop][:1])
    # sampler hands them over on start
    r = ctx.run_method("mlmc.sampler.Sampler", "__init__")
    ev = calls(r, "have_permanent_samples")
    w = "mlmc/sampler.py:Sampler.__init__"
    if ctx.req(bool(ev), "handover@sampler", w, "unfinished ids of a previous run are handed to the pool"):
        e = ev[0]
        a = e.arg(0) or e.kw.get("sample_ids")
        ctx.req(a is not None and a.op == "call" and last(a.args[0]) == "unfinished_ids" and not conds(e), "handover@sampler", e.where(), "pool gets %s" % (a and show(a)))


# ------------------------------------------------------------------------------------------------ counts
@prop("S16", "Value-flow of the finished-sample counts: in both storages the count of a level is the number of collected plus the number of failed samples of that level, for every "
      "history of batches (new level / known level cases are split), and gaps count zero.", ["levels are numbered from zero"])
def s16(ctx):
    n = Norm()
    # HDF
    r = ctx.run_method(HDF, "n_finished", inline_types={"LevelGroup"})
    r0 = ctx.run_method(HDF, "n_finished")
    v = r0.eng.deref(r0.value, r0.state)
    w = "mlmc/sample_storage_hdf.py:SampleStorageHDF.n_finished"
    ev = calls(r0, "get_finished_ids")
    good = False
    if ev:
        e = ev[0]
        G = e.recv
        idx = e.loops[-1][0] if e.loops else None
        cnt = dim(e.result)
        alts = [attr(G, "level_id")]
        for x in walk(v):
            if x.op == "fstore":
                base, i, dom, it, val, g = x.args
                val2 = val.args[0] if val.op == "accum" else val
                zero = base.op == "call" and base.args[0] == "numpy.zeros" or val.op != "accum"
                if (contains(it, attr(sub(G.args[0], i), "level_id")) or it is i) and val2 is dim(subst_idx(e.result, idx, i)) and g is TRUE and zero:
                    good = True
            if x.op == "each" and x.args[2].op == "list" and x.args[3] is TRUE:
                el = x.args[2].args[0]
                if el is dim(subst_idx(e.result, idx, x.args[0])):
                    good = True
        ctx.req(good and not conds(e), "count@HDF", e.where(), "count of a level must be the number of its finished ids; found %s" % show(v))
    else:
        ctx.und("count@HDF", w, "count not resolved: %s" % show(v))
    rf = ctx.run_method(LG, "get_finished_ids")
    t = rf.eng.deref(rf.value, rf.state)
    check_member(ctx, "finished@HDF", W5 + "LevelGroup.get_finished_ids", t, lambda e: e["collected_ids"] or e["failed"], ("scheduled", "collected_ids", "failed"))
    if contains(t, lambda x: x.op == "asset" or x.op == "call" and last(x.args[0]) in ("unique", "set", "union1d")):
        ctx.ok("multi@HDF", W5, "")
    # Memory
    r = ctx.run_method(MEM, "save_samples")
    ps = ctx.method(MEM, "save_samples").params()[1:]
    rn = ctx.run_method(MEM, "n_finished")
    vn = rn.eng.deref(rn.value, rn.state)
    wn = "mlmc/sample_storage.py:Memory.n_finished"
    flds = [x for x in walk(vn) if x.op == "attr" and x.args[0] is SLF]
    cf = None
    for x in walk(vn):
        if x.op == "fstore":
            base, i, dom, it, val, g = x.args
            for f in flds:
                if it is mk("key", f, i) and val is sub(f, mk("key", f, i)):
                    cf = f
                    ctx.req(g is TRUE and dom is dim(f), "read@Memory", wn, "all levels are reported")
                    ctx.req(base.op == "call" and base.args[0] == "numpy.zeros" or contains(base, lambda y: y.op == "call" and y.args[0] == "numpy.zeros"), "gaps@Memory", wn, "levels without finished samples must count zero; array initialised by %s" % show(base))
    if cf is None:
        cf = attr(SLF, "_n_finished")
        for ks in ((0, 1, 2), (2, 0), (1,), ()):
            q = ctx.run_method(MEM, "n_finished", fields={"_n_finished": levels_dict(ks)})
            vq = q.eng.deref(q.value, q.state)
            for l in range(max(ks, default=-1) + 1):
                judge(ctx, "read@Memory" if l in ks else "gaps@Memory", wn, vq, l, lambda x: strip_num(x) is ROWS[l] if l in ks else is_const(x, 0), "number of finished samples")
    for p, nm in ((ps[0], "successful"), (ps[1], "failed")):
        P = sym(p)
        w = "mlmc/sample_storage.py:Memory.save_samples"
        writes = []
        for e in r.events:
            if e.kind == "setitem" and e.loops and contains(e.recv, lambda x: x.op == "mu" and cf.args[1] in str(x.args[0]) or x is cf):
                idx = e.loops[-1][0]
                if strip_int(e.args[0]) is mk("key", P, idx):
                    writes.append(e)
        if not writes:
            ctx.bad("count@Memory-%s" % nm, w, "%s samples are not counted as finished" % nm)
            continue
        e = writes[-1]
        idx = e.loops[-1][0]
        k = mk("key", P, idx)
        batch = sub(P, k)
        for known in (True, False):
            # value of counter after all writes, in the case the level is / is not known
            tot = None
            mus = [x for x in walk(e.recv) if x.op == "mu"]
            mu = mus[0] if mus else cf
            m = {mk("cmp", "in", k, mu): const(known), mk("cmp", "in", k, cf): const(known)}
            last_val = None
            for x in writes:
                feas = True
                for c, pol in conds(x):
                    vv = subst(c, m)
                    if vv.op == "const" and bool(vv.args[0]) != pol:
                        feas = False
                    elif vv.op != "const":
                        feas = None
                        break
                if feas is None:
                    continue
                if feas:
                    last_val = subst(x.args[1], m)
            key = "count@Memory-%s" % nm
            if last_val is None:
                ctx.bad(key, e.where(), "%s samples are not counted when the level is %s" % (nm, "known" if known else "new"))
                continue
            old = sub(mu, k) if known else const(0)
            inc = n(binop("-", last_val, old))
            inc = resolve_len(inc, r, e)
            ctx.req(inc is n(dim(batch)) or inc is dim(batch), key, e.where(), "%s level: count grows by %s instead of the number of %s samples" % ("known" if known else "new", show(inc), nm))


def subst_idx(t, a, b):
    return subst(t, {a: b}) if a is not None else t


def resolve_len(t, r, e):
    """length of an intermediate array -> length of the batch it was built from"""
    for _ in range(4):
        m = {}
        for x in walk(t):
            if x.op == "dim" and x.args[0].op == "obj":
                c = r.eng.deref(x.args[0], e.st if e.st is not None else r.state)
                m[x] = arr_len(c)
        m = {k: v for k, v in m.items() if v is not None and v is not k}
        if not m:
            break
        t = subst(t, m)
    m = {}
    for x in walk(t):
        if x.op == "dim":
            l = arr_len(x.args[0])
            if l is not None and l is not x:
                m[x] = l
    return Norm()(subst(t, m)) if m else t


def arr_len(c):
    if c.op == "store":
        return arr_len(c.args[0])
    if c.op == "call" and c.args[0] in ("numpy.empty", "numpy.zeros", "numpy.ones") and len(c.args) >= 2:
        s = c.args[1]
        return s.args[0] if s.op == "tuple" else s
    if c.op == "call" and c.args[0] in ("numpy.array", "numpy.asarray"):
        return dim(c.args[1])
    if c.op == "sub" and c.args[1].op == "tuple" and c.args[1].args[0].op == "slice" and all(a is NONE for a in c.args[1].args[0].args):
        return dim(c.args[0])
    return dim(c) if c.op != "obj" else None


# ------------------------------------------------------------------------------------------------ reading back
def full_slice(t):
    return t.op == "slice" and all(a is NONE for a in t.args)


def push_out(t, depth=4):
    """alternatives of a value whose array operand is a conditional"""
    if t.op == "call" and last(t.args[0]) in ("transpose", "moveaxis", "swapaxes", "rollaxis", "reshape", "ascontiguousarray") and len(t.args) > 1 and depth:
        return [mk("call", t.args[0], a, *t.args[2:]) for _, l in leaves_ite(t.args[1]) for a in push_out(l, depth - 1)]
    if t.op in ("sub", "attr") and depth:
        return [mk(t.op, a, *t.args[1:]) for _, l in leaves_ite(t.args[0]) for a in push_out(l, depth - 1)]
    return [t]


def permuted(x):
    """(axes of the base array in the order of the result, base) of an axis permutation of a 3-d array; axes None if there is none"""
    if x.op == "attr" and x.args[1] == "T":
        ax, b = permuted(x.args[0])
        return ([2, 1, 0] if ax is None else ax if ax == "?" else ax[::-1]), b
    if x.op == "call" and last(x.args[0]) in ("ascontiguousarray", "asarray", "array", "copy") and len(x.args) == 2:
        return permuted(x.args[1])
    if not (x.op == "call" and last(x.args[0]) in ("transpose", "moveaxis", "swapaxes", "rollaxis") and len(x.args) > 1):
        return None, x
    ax, b = permuted(x.args[1])
    if ax == "?":
        return ax, b
    inner = [0, 1, 2] if ax is None else ax
    args = [a.args[1] if a.op == "kw" else a for a in x.args[2:]]
    if len(args) == 1 and args[0].op in ("tuple", "list"):
        args = list(args[0].args)
    if not all(a.op == "const" and isinstance(a.args[0], int) and -3 <= a.args[0] <= 3 for a in args):
        return "?", b
    args = [a.args[0] % 3 if a.args[0] != 3 else 3 for a in args]
    nm = last(x.args[0])
    if nm == "transpose":
        perm = args if len(args) == 3 else [2, 1, 0] if not args else None
        if perm is None or sorted(perm) != [0, 1, 2]:
            return "?", b
    elif nm == "swapaxes" and len(args) == 2:
        perm = [0, 1, 2]
        perm[args[0]], perm[args[1]] = perm[args[1]], perm[args[0]]
    elif nm in ("moveaxis", "rollaxis") and (len(args) == 2 or nm == "rollaxis" and len(args) == 1):
        perm = [i for i in range(3) if i != args[0]]
        to = args[1] if len(args) == 2 else 0
        if nm == "rollaxis" and to > args[0]:
            to -= 1
        perm.insert(to, args[0])
    else:
        return "?", b
    return [inner[i] for i in perm], b


def strip_reshape(t):
    while t.op == "call" and last(t.args[0]) in ("reshape",):
        t = t.args[1]
    return t


@prop("S17", "Value-flow of reading samples back: each chunk is the stored rows of the chunk's level and slice, transposed to [component, sample, fine/coarse]; "
      "exactly the level-0 coarse placeholder is dropped; chunk iteration covers a level's rows once.",
      ["h5py Dataset.iter_chunks partitions the dataset", "stored rows are [sample, fine/coarse, component]"])
def s17(ctx):
    cs = sym("chunk_spec")
    for cls, short, store in ((HDF, "HDF", None), (MEM, "Memory", "_results")):
        r = ctx.run_method(cls, "sample_pairs_level")
        v = r.eng.deref(r.value, r.state)
        w = "%s:%s.sample_pairs_level" % ("mlmc/sample_storage_hdf.py" if short == "HDF" else "mlmc/sample_storage.py", cls.rsplit(".", 1)[1])
        lv = attr(cs, "level_id")
        for lvl in (0, 2):
            for has in (True, False):
                if short == "HDF" and not has:
                    continue
                m = {lv: const(lvl), mk("cmp", "is", attr(cs, "chunk_slice"), NONE): const(not has)}
                t = subst(v, m)
                key = "read@%s-level%d" % (short, min(lvl, 1))
                for x in [y for _, z in leaves_ite(t) for y in push_out(z)]:
                    axes, b = permuted(x)
                    if axes is None:
                        ctx.bad(key, w, "chunk must be returned as [component, sample, fine/coarse]; found %s" % show(x))
                        continue
                    if axes == "?":
                        ctx.und(key, w, "order of axes not resolved: %s" % show(x))
                        continue
                    ctx.req(axes == [2, 0, 1], "axes@%s" % short, w, "axes %s" % axes)
                    cut = None
                    b2 = strip_reshape(b)
                    while b2.op == "sub" and b2.args[1].op == "tuple" and len(b2.args[1].args) >= 2:
                        if cut is None or all(full_slice(c) for c in cut):
                            cut = b2.args[1].args
                        elif not all(full_slice(c) for c in b2.args[1].args):
                            break
                        b2 = strip_reshape(b2.args[0])
                    if lvl == 0:
                        good = cut is not None and full_slice(cut[0]) and cut[1].op == "slice" and (cut[1].args[0] is NONE or is_const(cut[1].args[0], 0)) and is_const(cut[1].args[1], 1) and (len(cut) < 3 or full_slice(cut[2]))
                        ctx.req(good, key, w, "level 0: only the fine result of every sample is returned; selection %s" % ([show(c) for c in cut] if cut else "everything"))
                    else:
                        ctx.req(cut is None or all(full_slice(c) or whole_axis(c, k, b2) for k, c in enumerate(cut)), key, w, "levels above 0 return fine and coarse results; selection %s" % ([show(c) for c in cut] if cut else ""))
                    # source rows
                    if short == "HDF":
                        ok = b2.op == "call" and last(b2.args[0]) == "collected" and b2.args[1].op == "sub" and is_const(strip_int(b2.args[1].args[1]), lvl) and b2.args[2] is attr(cs, "chunk_slice")
                    else:
                        src = b2
                        sl = None
                        if src.op == "sub" and src.args[1] is attr(cs, "chunk_slice"):
                            sl = src.args[1]
                            src = src.args[0]
                        ok = src.op == "sub" and is_const(strip_int(src.args[1]), lvl) and src.args[0] is attr(SLF, "_results") and (sl is not None) == has
                    ctx.req(ok, "rows@%s" % short, w, "rows of the chunk's level and slice; found %s" % show(b2))
    # LevelGroup.collected
    r = ctx.run_method(LG, "collected")
    v = r.eng.deref(r.value, r.state)
    w = W5 + "LevelGroup.collected"
    lv = [x for g, x in leaves_ite(v) if x is not NONE]
    ctx.req(len(lv) == 1 and lv[0].op == "sub" and lv[0].args[1] is sym("chunk_slice") and ds_name(lv[0].args[0]) == "collected_values", "collected@HDF", w, "returns %s" % [show(x) for x in lv])
    # chunks
    r = ctx.run_method(LG, "chunks")
    ys = [e for e in r.events if e.kind == "new" and last(e.name) == "ChunkSpec"]
    w = W5 + "LevelGroup.chunks"
    ns = sym("n_samples")
    sawall = False
    for e in ys:
        sl, li = e.kw.get("chunk_slice"), e.kw.get("level_id")
        ctx.req(li is not None and contains(li, attr(SLF, "level_id")), "chunk-level@HDF", e.where(), "chunk is labelled with level %s" % (li and show(li)))
        if sl is None:
            ctx.bad("chunk-slice@HDF", e.where(), "no slice")
            continue
        if contains(sl, ns):
            good = sl.op == "slice" and (is_const(sl.args[0], 0) or sl.args[0] is NONE) and sl.args[1] is ns and (is_const(sl.args[2], 1) or sl.args[2] is NONE) \
                or sl.op == "call" and last(sl.args[0]) == "slice" and ns in sl.args
            ctx.req(good, "chunk-first@HDF", e.where(), "first n samples: %s" % show(sl))
        else:
            sawall = True
            good = contains(sl, lambda x: x.op == "call" and last(x.args[0]) == "iter_chunks") or contains(sl, lambda x: x.op == "idx")
            sel = [c for c in conds(e) if not contains(c[0], ns) and not contains(c[0], lambda x: is_const(x, "collected_values"))]
            src = [sl] + [d for lp in e.loops for d in lp[1:] if hasattr(d, "op")]
            cut = [x for t in src for x in walk(t) if x.op == "sub" and x.args[1].op == "slice" and not full_slice(x.args[1])
                   and contains(x.args[0], lambda y: y.op == "call" and last(y.args[0]) == "iter_chunks")]
            good = good and not cut
            ctx.req(good and not sel, "chunk-all@HDF", e.where(), "all chunks are visited; slice %s conditions %s" % (show(sl), [show(c[0]) for c in sel]))
    ctx.req(sawall, "chunk-all@HDF", w, "without a limit all stored samples are visited")
    # storage.chunks: every level
    base = "mlmc.sample_storage.SampleStorage"
    r = ctx.run_method(base, "chunks")
    ev = calls(r, "_level_chunks")
    w = "mlmc/sample_storage.py:SampleStorage.chunks"
    if not ev and ctx.prog.method(ctx.prog.cls(base), "_level_chunks") is None:
        ctx.und("levels@chunks", w, "chunks of one level not found")
    elif ctx.req(bool(ev), "levels@chunks", w, "chunks of the levels are produced"):
        e = ev[0]
        lid = e.kw.get("level_id") or e.arg(0)
        nn = e.kw.get("n_samples") or e.arg(1)
        lp = sym("level_id")
        lnone = mk("cmp", "is", lp, NONE)
        ctx.req(nn is ns, "limit@chunks", e.where(), "sample limit is passed on: %s" % (nn and show(nn)))
        t1 = subst(lid, {lnone: FALSE})
        idx = e.loops[-1][0] if e.loops else None
        c1 = t1 is lp or t1.op == "sub" and t1.args[0].op == "list" and t1.args[0].args == (lp,)
        t2 = subst(lid, {lnone: TRUE, lp: NONE})
        c2 = t2.op == "sub" and has_call(t2.args[0], "get_level_ids") and t2.args[1] is idx
        if idx is None:
            ctx.und("levels@chunks", e.where(), "loop not resolved")
        else:
            ctx.req(c1 and c2, "levels@chunks", e.where(), "the requested level, or all of them, is visited: %s" % show(lid))


def whole_axis(c, k, base):
    """slice of axis k that ends at the length of that axis of base"""
    if c.op != "slice" or c.args[0] is not NONE and not is_const(c.args[0], 0) or c.args[2] is not NONE and not is_const(c.args[2], 1):
        return False
    ends = [x for _, x in leaves_ite(c.args[1])]
    return all(x.op == "sub" and is_const(x.args[1], k) and x.args[0].op == "attr" and x.args[0].args[1] == "shape" and strip_reshape(x.args[0].args[0]) is base
               or x.op == "dim" and k == 0 and strip_reshape(x.args[0]) is base for x in ends)


def subset_only(a, o):
    """set(self.locations) - set(other.locations): compares the locations in one direction"""
    def setof(t):
        while t.op in ("asset", "spread") or t.op == "cat" and len(t.args) == 1:
            t = t.args[0]
        return t
    return a.op == "bin" and a.args[0] == "-" and setof(a.args[1]) is attr(SLF, "locations") and setof(a.args[2]) is attr(o, "locations")


# ------------------------------------------------------------------------------------------------ summaries of the stored data
WM = "mlmc/sample_storage.py:Memory."
WH = "mlmc/sample_storage_hdf.py:SampleStorageHDF."
GRP = [sym("$g%d" % i) for i in range(3)]
ROWS = [sym("$R%d" % i) for i in range(4)]


def lit(t):
    """number of a literal level key: 2, int("2"), np.int64(2)"""
    while t.op == "call" and last(t.args[0]) in ("int", "int32", "int64", "intp") and len(t.args) == 2:
        t = t.args[1]
    if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        return int(t.args[0])
    if t.op == "const" and isinstance(t.args[0], str) and t.args[0].isdigit():
        return int(t.args[0])
    return None


def size_of(t):
    """number of elements of a new array or list; None if not known"""
    while t.op == "cat" and len(t.args) == 1 or t.op == "spread" or t.op == "call" and t.args[0] in ("builtins.list", "numpy.array", "numpy.asarray") and len(t.args) == 2:
        t = t.args[-1]
    if t.op == "list":
        return len(t.args)
    if t.op == "call" and t.args[0] in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.ones"):
        n = t.args[1]
        if n.op in ("tuple", "list") and len(n.args) == 1:
            n = n.args[0]
        return number(n)
    if t.op == "bin" and t.args[0] == "*":
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if a.op == "list" and len(a.args) == 1:
                return number(b)
    if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "each" and t.args[0].args[3] is TRUE:
        return number(t.args[0].args[1])
    return None


def number(t):
    """value of a closed integer expression over literal dictionaries and lists"""
    v = lit(t)
    if v is not None:
        return v
    if t.op == "dim":
        x = t.args[0]
        if x.op == "dict":
            return len(x.args) // 2
        if x.op in ("list", "tuple"):
            return len(x.args)
        if x.op == "call" and x.args[0] == "numpy.zeros":
            return size_of(x)
    if t.op == "range" or t.op == "upto":
        return None
    if t.op == "bin" or t.op == "poly":
        try:
            n = Norm()
            q = subst(t, {y: const(number(y)) for y in walk(t) if y.op in ("dim", "call") and number(y) is not None})
            return lit(n(q))
        except (TypeError, ValueError):
            return None
    if t.op == "call" and last(t.args[0]) == "max" and t.args[0] in ("builtins.max", "numpy.max", "numpy.amax"):
        d = [a.args[1] for a in t.args[1:] if a.op == "kw" and a.args[0] == "default"]
        xs = keys_of(t.args[1])
        if xs is not None and (xs or d):
            return max(xs) if xs else number(d[0])
    return None


def keys_of(t):
    while t.op == "cat" and len(t.args) == 1 and t.args[0].op == "spread":
        t = t.args[0].args[0]
    if t.op == "call" and t.args[0] == ".keys" and len(t.args) == 2 or t.op == "call" and t.args[0] in ("builtins.list", "builtins.sorted", "builtins.tuple", "builtins.set") and len(t.args) >= 2:
        return keys_of(t.args[1])
    if t.op == "dict":
        ks = [lit(k) for k in t.args[::2]]
        return None if None in ks else ks
    if t.op in ("list", "tuple", "set"):
        ks = [lit(k) for k in t.args]
        return None if None in ks else ks
    return None


def element(t, l):
    """element / item of level l -> term, 'missing' (no such element), None (not resolved)"""
    if t.op == "ite":
        a, b = element(t.args[1], l), element(t.args[2], l)
        if a is None or b is None or (a == "missing") != (b == "missing"):
            return None
        return a if a == "missing" or a is b else mk("ite", t.args[0], a, b)
    if t.op == "store":
        k = lit(t.args[1])
        if k is None:
            return None
        return t.args[2] if k == l else element(t.args[0], l)
    if t.op == "fstore":
        base, idx, dom, it, v, g = t.args
        n = number(dom)
        if n is None or v.op == "accum":
            return None
        out = element(base, l)
        for j in range(n):
            k, c = lit(known_keys(subst(it, {idx: const(j)}))), known_keys(subst(g, {idx: const(j)}))
            if k is None:
                return None
            if k != l or c is FALSE:
                continue
            x = known_keys(subst(v, {idx: const(j)}))
            if c is not TRUE and (out is None or out == "missing"):
                return None
            out = x if c is TRUE else ite(c, x, out)
        return out
    if t.op == "dict":
        ks = keys_of(t)
        return None if ks is None else (t.args[2 * ks.index(l) + 1] if l in ks else "missing")
    if t.op in ("list", "tuple"):
        return t.args[l] if l < len(t.args) else "missing"
    if t.op == "call" and t.args[0] in ("builtins.list", "numpy.array", "numpy.asarray", "builtins.dict") and len(t.args) == 2:
        return element(t.args[1], l)
    if t.op == "spread":
        return element(t.args[0], l)
    if t.op == "cat":
        if len(t.args) == 1:
            return element(t.args[0], l)
        if all(p.op == "list" for p in t.args):
            return element(mk("list", *[y for p in t.args for y in p.args]), l)
        return None
    if t.op == "call" and t.args[0] == "numpy.zeros":
        n = size_of(t)
        return None if n is None else (const(0) if l < n else "missing")
    if t.op == "bin" and t.args[0] == "*":
        n = size_of(t)
        for a in t.args[1:]:
            if a.op == "list" and len(a.args) == 1 and n is not None:
                return a.args[0] if l < n else "missing"
    if t.op == "each" and t.args[3] is TRUE and t.args[2].op == "list" and len(t.args[2].args) == 1:
        n = number(t.args[1])
        return None if n is None else (known_keys(subst(t.args[2].args[0], {t.args[0]: const(l)})) if l < n else "missing")
    if t.op == "call" and t.args[0] in ("numpy.array", "numpy.asarray") and len(t.args) > 2 and all(a.op == "kw" for a in t.args[2:]):
        return element(t.args[1], l)
    if t.op == "call" and t.args[0] == "numpy.empty" and size_of(t) is not None:
        return "missing"
    return None


def strip_num(t):
    while t.op == "call" and t.args[0] in ("builtins.float", "builtins.int", "numpy.float64") and len(t.args) == 2:
        t = t.args[1]
    return t


def known_keys(t):
    """membership tests in literal dictionaries and lists decided"""
    m = {}
    for x in walk(t):
        if x.op == "key" and lit(x.args[1]) is not None:
            ks = keys_of(x.args[0])
            if ks is not None and lit(x.args[1]) < len(ks):
                m[x] = const(ks[lit(x.args[1])])
    t = subst(t, m) if m else t
    m = {}
    for x in walk(t):
        if x.op == "cmp" and x.args[0] in ("in", "notin") and lit(x.args[1]) is not None:
            ks = keys_of(x.args[2])
            if ks is not None:
                m[x] = const((lit(x.args[1]) in ks) == (x.args[0] == "in"))
    t = subst(t, m) if m else t
    m = {x: x.args[0].args[2 * keys_of(x.args[0]).index(lit(x.args[1])) + 1] for x in walk(t)
         if x.op == "sub" and x.args[0].op == "dict" and lit(x.args[1]) is not None and lit(x.args[1]) in (keys_of(x.args[0]) or ())}
    return subst(t, m) if m else t


def fits(t):
    """every stored element lies within the array: False when an index is definitely outside"""
    ks = []
    while t.op == "store":
        ks.append(lit(t.args[1]))
        t = t.args[0]
    n = size_of(t)
    if n is None or None in ks or t.op == "dict":
        return True
    return all(-n <= k < n for k in ks)


def levels_dict(ks, vals=ROWS):
    return mk("dict", *[x for k in ks for x in (const(k), vals[k])])


def hdf_run(ctx, name, n=3, opaque=(), args=None, given=None):
    """method of the HDF storage with n level groups"""
    from sa.interp import St
    st = St({}, {("f", g, "level_id"): const(str(i)) for i, g in enumerate(GRP[:n])}, ())
    c = ctx.prog.cls(HDF)
    eng = ctx.engine(opaque=set(opaque), given=given or {})
    return eng.run(ctx.method(HDF, name), c, fields={"_level_groups": mk("list", *GRP[:n])}, state=st, args=args or {})


def rows(t, R):
    """t is the number of rows of R"""
    t = t.args[1] if t.op == "call" and last(t.args[0]) == "int" and len(t.args) == 2 else t
    return t is dim(R) or t.op == "sub" and t.args[0].op == "attr" and t.args[0].args == (R, "shape") and is_const(t.args[1], 0)


def judge(ctx, key, w, t, l, want, what, K=""):
    x = element(t, l)
    if x is None:
        ctx.und(key, w, "level %d%s: %s" % (l, K, show(t, 6)))
    elif x == "missing":
        ctx.bad(key, w, "level %d%s has no %s in %s" % (l, K, what, show(t, 6)))
    else:
        ctx.req(want(x), key, w, "level %d%s: %s; found %s" % (l, K, what, show(x, 5)))


def n_collected(ctx):
    nm = "get_n_collected"
    for ks in ((0, 1, 2), (2, 0, 1), (1, 2), (0,), ()):
        r = ctx.run_method(MEM, nm, fields={"_results": levels_dict(ks)})
        v = r.eng.deref(r.value, r.state)
        key = "collected-counts@Memory"
        K = " of levels %s with samples" % (list(ks),)
        if not fits(v):
            ctx.bad(key, WM + nm, "index of a level outside the list%s: %s" % (K, show(v, 6)))
            continue
        for l in range(max(ks, default=-1) + 1):
            judge(ctx, key, WM + nm, v, l, (lambda x: rows(x, ROWS[l])) if l in ks else lambda x: is_const(x, 0), "number of stored pairs", K)
    r = hdf_run(ctx, nm, given={(g, "collected_n_items"): sym("$n%d" % i) for i, g in enumerate(GRP)})
    v = r.eng.deref(r.value, r.state)
    for l in range(3):
        judge(ctx, "collected-counts@HDF", WH + nm, v, l, lambda x: x is sym("$n%d" % l), "number of collected samples of its group")
    nm = "collected_n_items"
    if ctx.prog.method(ctx.prog.cls(LG), nm) is None:
        return
    r = ctx.run_method(LG, nm)
    v = r.eng.deref(r.value, r.state)
    for g, x in leaves_ite(v):
        miss = [(c, p) for c, p in g if contains(c, lambda y: is_const(y, "collected_values"))]
        there = all(p == (c.op != "cmp" or c.args[0] != "notin") if c.op != "not" else not p for c, p in miss) if miss else True
        key, w = "collected-counts@group", W5 + "LevelGroup." + nm
        if is_const(x, 0) or x.op == "const":
            ctx.req(is_const(x, 0) and bool(miss), key, w, "zero only without collected values; found %s" % show(x))
        elif x.op == "dim" or x.op == "sub" and is_const(x.args[1], 0):
            b = x.args[0]
            while b.op == "attr" and b.args[1] == "shape" or b.op == "sub" and (b.args[1].op == "tuple" and not b.args[1].args or b.args[1].op == "slice" and full_slice(b.args[1])):
                b = b.args[0]
            d = ds_name(b)
            ctx.req(d in ("collected_values", "collected_ids"), key, w, "number of rows of the collected samples; found %s" % show(x))
        elif x.op == "attr" and x.args[1] == "size" and ds_name(x.args[0]) == "collected_ids":
            ctx.ok(key, w, "number of collected ids")
        elif x.op in ("new", "call") and last(str(x.args[0])).endswith(("Error", "Exception")):
            ctx.bad(key, w, "an exception object is returned as the number of samples: %s" % show(x, 4))
        else:
            ctx.und(key, w, show(x, 5))


def level_lists(ctx):
    for ks in ((0, 1, 2), (2, 0, 1), (0,), ()):
        r = ctx.run_method(MEM, "get_level_ids", fields={"_results": levels_dict(ks)})
        v = keys_of(r.eng.deref(r.value, r.state))
        if v is None:
            ctx.und("level-ids@Memory", WM + "get_level_ids", show(r.eng.deref(r.value, r.state), 5))
        else:
            ctx.req(sorted(v) == sorted(ks), "level-ids@Memory", WM + "get_level_ids", "each level with samples once: %s; found %s" % (sorted(ks), v))
        if ks == (0, 1, 2):
            r = ctx.run_method(MEM, "get_n_levels", fields={"_results": levels_dict(ks), "_level_parameters": mk("list", *[sym("$p%d" % i) for i in range(3)])})
            v = number(r.eng.deref(r.value, r.state))
            if v is None:
                ctx.und("n-levels@Memory", WM + "get_n_levels", show(r.value, 5))
            else:
                ctx.req(v == 3, "n-levels@Memory", WM + "get_n_levels", "three levels; found %s" % v)
    for n in (1, 3):
        r = hdf_run(ctx, "get_level_ids", n, given={(g, "collected_n_items"): const(1) for g in GRP})
        t = r.eng.deref(r.value, r.state)
        v = keys_of(t)
        if v is None:
            ctx.und("level-ids@HDF", WH + "get_level_ids", show(t, 5))
        else:
            ctx.req(sorted(v) == list(range(n)), "level-ids@HDF", WH + "get_level_ids", "every level once; found %s" % v)
        r = hdf_run(ctx, "get_n_levels", n)
        v = number(r.eng.deref(r.value, r.state))
        if v is None:
            ctx.und("n-levels@HDF", WH + "get_n_levels", show(r.value, 5))
        else:
            ctx.req(v == n, "n-levels@HDF", WH + "get_n_levels", "%d levels; found %s" % (n, v))


def parameters(ctx):
    P = sym("level_parameters")
    r = ctx.run_method(MEM, "save_global_data")
    q = r.eng.call_method(SLF, "get_level_parameters", [], {}, r.state, None)
    q = r.eng.deref(q, r.state) if q is not None else NONE
    w = WM + "get_level_parameters"
    strip = lambda t: strip(t.args[1]) if t.op == "call" and t.args[0] in ("builtins.list", "numpy.array", "numpy.asarray", "copy.copy", "copy.deepcopy") and len(t.args) == 2 \
        else strip(t.args[0].args[0]) if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "spread" else t
    ctx.req(strip(q) is P, "parameters@Memory", w, "level parameters as they were saved; found %s" % show(q, 4))
    q = r.eng.deref(r.eng.call_method(SLF, "load_result_format", [], {}, r.state, None), r.state)
    ctx.req(strip(q) is sym("result_format"), "format@Memory", WM + "load_result_format", "result format as it was saved; found %s" % show(q, 4))
    r = ctx.run_method(H5, "load_level_parameters")
    t = r.eng.deref(r.value, r.state)
    for g, x in leaves_ite(t):
        x = strip(x)
        if x.op == "list" and not x.args or x is NONE:
            ctx.req(any(contains(c, lambda y: is_const(y, "level_parameters")) for c, p in g), "parameters@HDF", W5 + "HDF5.load_level_parameters", "nothing only when nothing is stored")
        else:
            ctx.req(x.op == "sub" and is_const(x.args[1], "level_parameters") or x.op == "call" and (is_const(x.args[-1], "level_parameters") or last(x.args[0]) == "get" and len(x.args) == 4 and is_const(x.args[2], "level_parameters") and dim(x.args[3]) is const(0)), "parameters@HDF", W5 + "HDF5.load_level_parameters", "stored level parameters; found %s" % show(x, 4))
    r = ctx.run_method(HDF, "get_level_parameters")
    ev = calls(r, "load_level_parameters")
    t = r.eng.deref(r.value, r.state)
    if ev:
        ctx.req(strip(t) is ev[-1].result, "parameters@storage", WH + "get_level_parameters", "the loaded parameters are returned; found %s" % show(t, 4))
    else:
        ctx.und("parameters@storage", WH + "get_level_parameters", show(t, 4))


def scheduled_ids(ctx):
    # memory: two rounds on one level and one on another
    A, B, C = [mk("list", sym("$a%d" % i), sym("$b%d" % i)) for i in range(3)]
    nm = "save_scheduled_samples"
    L, S = ctx.method(MEM, nm).params()[1:3]
    r = ctx.run_method(MEM, nm, fields={"_scheduled": mk("dict")}, args={L: const(1), S: A})
    for l, s in ((0, B), (1, C)):
        r.eng.call_method(SLF, nm, [const(l), s], {}, r.state, None)
    v = r.eng.deref(r.eng.call_method(SLF, "load_scheduled_samples", [], {}, r.state, None), r.state)
    w = WM + nm
    for l, want in ((0, B.args), (1, A.args + C.args)):
        x = element(v, l) if v.op != "ite" else None
        x = r.eng.deref(x, r.state) if x not in (None, "missing") else x
        xs = list_items(x) if x not in (None, "missing") else None
        if x == "missing":
            ctx.bad("scheduled@Memory", w, "nothing recorded for level %d" % l)
        elif xs is None:
            ctx.und("scheduled@Memory", w, show(v, 6))
        else:
            ctx.req(xs == list(want), "scheduled@Memory", w, "level %d: all ids in the order they were scheduled; found %s" % (l, [show(y) for y in xs]))
    # HDF
    r = hdf_run(ctx, nm, args={L: const(1), S: sym("$ids")} if ctx.method(HDF, nm).params()[1:3] == [L, S] else {})
    ev = [e for e in calls(r, "append_scheduled")]
    w = WH + nm
    if len(ev) != 1:
        ctx.und("scheduled@HDF", w, "append_scheduled: %d calls" % len(ev))
    else:
        a = ev[0].args[0] if ev[0].args else NONE
        ctx.req(ev[0].recv is GRP[1] and a is sym("$ids") and not [c for c in conds(ev[0]) if not contains(c[0], sym("$ids"))], "scheduled@HDF", ev[0].where(), "ids are appended to the group of their level; found %s to %s" % (show(a, 3), show(ev[0].recv)))
    nm = "load_scheduled_samples"
    r = hdf_run(ctx, nm, given={(g, "scheduled"): sym("$s%d" % i) for i, g in enumerate(GRP)})
    v = r.eng.deref(r.value, r.state)
    w = WH + nm
    for l in range(3):
        s = sym("$s%d" % l)

        def ids(x, s=s):
            x = r.eng.deref(x, r.state)
            if x.op == "sub" and x.args[1].op == "slice" and not full_slice(x.args[1]) or x.op == "call" and x.args[0] in ("builtins.sorted", "builtins.set", "builtins.reversed", "numpy.unique", "numpy.sort"):
                return False
            if x.op == "call" and x.args[0] in ("builtins.list", "builtins.tuple"):
                x = x.args[1]
            if x.op != "cat" or len(x.args) != 1 or x.args[0].op != "each":
                return None
            i, d, p, g = x.args[0].args
            it = p.args[0] if p.op == "list" and len(p.args) == 1 else None
            if it is None or not contains(d, s):
                return None
            if it.op == "call" and last(it.args[0]) in ("decode", "str"):
                it = it.args[1]
            row = it.args[0] if it.op == "sub" and (is_const(it.args[1], 0) or is_const(it.args[1], "sample_id")) else it
            return g is TRUE and d is dim(s) and row is sub(s, i)
        x = element(v, l)
        if x == "missing":
            ctx.bad("scheduled@HDF-load", w, "ids of level %d are not loaded: %s" % (l, show(v, 5)))
            continue
        ok = ids(x) if x is not None else None
        if ok is None and x is not None and not contains(x, s) and any(contains(x, sym("$s%d" % k)) for k in range(3)):
            ok = False
        if ok is None:
            ctx.und("scheduled@HDF-load", w, show(v, 6))
        else:
            ctx.req(ok, "scheduled@HDF-load", w, "level %d: every id of its own dataset, in order; found %s" % (l, show(x, 6)))
    r = ctx.run_method(LG, "scheduled")
    t = r.eng.deref(r.value, r.state)
    b = t
    while b.op == "sub" and (b.args[1].op == "tuple" and not b.args[1].args or b.args[1].op == "slice" and full_slice(b.args[1])):
        b = b.args[0]
    d = ds_name(b)
    if d is None:
        ctx.und("scheduled@group", W5 + "LevelGroup.scheduled", show(t, 5))
    else:
        ctx.req(d == "scheduled", "scheduled@group", W5 + "LevelGroup.scheduled", "complete dataset of scheduled ids; found %s" % show(t, 5))


def list_items(x):
    if x.op in ("list", "tuple"):
        return list(x.args)
    if x.op == "spread":
        return list_items(x.args[0])
    if x.op == "call" and x.args[0] in ("builtins.list", "numpy.array") and len(x.args) == 2:
        return list_items(x.args[1])
    if x.op == "cat":
        out = []
        for p in x.args:
            q = list_items(p)
            if q is None:
                return None
            out += q
        return out
    return None


@prop("S20", "The summaries of both storages are evaluated abstractly for storages with zero to three levels (Memory: every order of the level keys, levels without samples; HDF: one group object per level): "
      "the element of every level is resolved from the returned list or dictionary and compared with the number of rows, the ids or the parameters of exactly that level.",
      ["level groups are created in the order of the levels (S10)", "storages with other numbers of levels behave like those enumerated", "h5py datasets and attributes return what was written"])
def s20(ctx):
    for f in (n_collected, level_lists, parameters, scheduled_ids):
        try:
            f(ctx)
        except Exception as e:
            ctx.und("summaries@" + f.__name__, "rules", "%s: %s" % (type(e).__name__, e))


def level_chunks(ctx):
    """chunks of one level: all stored rows of that level, or its first n"""
    nm = "_level_chunks"
    n, lid = sym("$n"), const(1)
    for limit in (n, NONE):
        f = ctx.method(MEM, nm)
        ps = f.params()[1:3]
        r = ctx.run_method(MEM, nm, fields={"_results": levels_dict((0, 1, 2))}, args={ps[0]: lid, ps[1]: limit})
        v = r.eng.deref(r.value, r.state)
        key, w = "chunk-rows@Memory", WM + nm
        if v.op == "list" and not v.args:
            ctx.bad(key, w, "no chunk is produced")
            continue
        if v.op != "list" or len(v.args) != 1 or v.args[0].op != "new":
            ctx.und(key, w, show(v, 5))
            continue
        kw = {a.args[0]: a.args[1] for a in v.args[0].args if isinstance(a, T) and a.op == "kw"}
        new = [e for e in r.events if e.kind == "new" and e.result is v.args[0]] or [e for e in r.events if e.kind == "new" and last(e.name) == "ChunkSpec"]
        kw = dict(kw or (new[-1].kw if new else {}))
        li = kw.get("level_id")
        ctx.req(li is not None and lit(li) == 1, "chunk-level@Memory", w, "labelled with its level; found %s" % (li is not None and show(li)))
        sl = kw.get("chunk_slice")
        R = ROWS[1]
        if sl is None or sl is NONE:
            ctx.req(limit is NONE, key, w, "at most n rows when a number is asked")
            continue
        if sl.op != "slice":
            ctx.und(key, w, show(sl, 5))
            continue
        a, b, c = sl.args
        if limit is n:        # a number was given
            b = subst(b, {cmpop("is", n, NONE): FALSE, cmpop("isnot", n, NONE): TRUE})
        whole = b is NONE or rows(b, R) or b.op == "dim" and b.args[0].op == "sub" and b.args[0].args[0] is R and full_slice(b.args[0].args[1])
        cutd = b is n or b.op == "dim" and b.args[0].op == "sub" and b.args[0].args[0] is R and b.args[0].args[1].op == "slice" and b.args[0].args[1].args[1] is n and b.args[0].args[1].args[0] in (NONE, const(0)) \
            or b.op in ("min", "call") and contains(b, n) and contains(b, dim(R)) and "min" in str(b.op) + str(b.args[0])
        start = (a is NONE or is_const(a, 0)) and (c is NONE or is_const(c, 1))
        good = start and (whole if limit is NONE else cutd)
        known = all(x.op in ("const", "dim", "sym", "min") or rows(x, R) or contains(x, R) for x in (a, b, c))
        if good or known:
            ctx.req(good, key, w, "%s of level 1; found %s" % ("first n rows" if limit is n else "all rows", show(sl, 6)))
        else:
            ctx.und(key, w, show(sl, 6))
    f = ctx.method(HDF, nm)
    ps = f.params()[1:3]
    r = hdf_run(ctx, nm, args={ps[0]: lid, ps[1]: n})
    ev = calls(r, "chunks")
    key, w = "chunk-rows@storage", WH + nm
    if len(ev) != 1:
        ctx.und(key, w, "chunks of the group: %d calls" % len(ev))
        return
    a = (list(ev[0].args) + list((ev[0].kw or {}).values()) or [NONE])[0]
    ctx.req(ev[0].recv is GRP[1] and a is n, key, ev[0].where(), "chunks of the group of the level with the asked number; found %s of %s" % (show(a, 3), show(ev[0].recv, 3)))


def all_pairs(ctx):
    """sample_pairs: for every level what sample_pairs_level returns for all its rows"""
    nm = "sample_pairs"
    for short, w in (("Memory", WM + nm), ("HDF", WH + nm)):
        key = "all-pairs@" + short
        if short == "Memory":
            r = ctx.run_method(MEM, nm, fields={"_results": levels_dict((0, 1, 2))}, opaque={"sample_pairs_level", "chunks", "_level_chunks", "get_n_collected"})
        else:
            r = hdf_run(ctx, nm, opaque={"sample_pairs_level", "chunks", "_level_chunks", "get_n_collected"})
        v = r.eng.deref(r.value, r.state)
        for l in range(3):
            x = element(v, l)
            if x is None:
                ctx.und(key, w, "level %d: %s" % (l, show(v, 5)))
                continue
            if x == "missing":
                ctx.bad(key, w, "level %d is missing: %s" % (l, show(v, 5)))
                continue
            es, m = [], {}
            for e in calls(r, "sample_pairs_level"):
                for m1 in ({}, {lp[0]: const(l) for lp in e.loops}):
                    if contains(x, subst(e.result, m1)):
                        es.append(e)
                        m = m1
                        break
            if len(es) != 1:
                ctx.und(key, w, "level %d: %s" % (l, show(x, 5)))
                continue
            cs = (list(es[0].args) + list((es[0].kw or {}).values()) or [NONE])[0]
            res = subst(es[0].result, m)
            ctx.req(all(y is res or y.op in ("list", "const", "obj") for g, z in leaves_ite(x) for h, y in leaves_ite(r.eng.deref(z, r.state))), key, w, "level %d: pairs as read; found %s" % (l, show(x, 5)))
            new = [e for e in r.events if e.kind == "new" and e.result is cs]
            ch = [e for e in calls(r, "chunks") + calls(r, "_level_chunks") if contains(cs, e.result)]
            if new:
                kw = {k: subst(y, m) for k, y in (new[0].kw or {}).items()}
                ctx.req(kw.get("level_id") is not None and lit(kw["level_id"]) == l, key, new[0].where(), "chunk of level %d; found %s" % (l, kw.get("level_id") is not None and show(kw["level_id"])))
                sl = kw.get("chunk_slice", NONE)
                if sl is NONE or full_slice(sl):
                    ctx.ok(key, new[0].where(), "all rows")
                else:
                    own = contains(sl, ROWS[l]) and not any(contains(sl, q) for q in ROWS if q is not ROWS[l])
                    nc = [y for y in walk(sl) if y.op == "sub" and y.args[0].op == "call" and last(str(y.args[0].args[0])) == "get_n_collected"]
                    ctx.req(own or bool(nc) and all(lit(y.args[1]) == l for y in nc), key, new[0].where(), "all rows of level %d; found %s" % (l, show(sl, 5)))
            elif len(ch) == 1:
                b = dict(zip(("level_id", "n_samples"), ch[0].args))
                b.update(ch[0].kw or {})
                ctx.req(b.get("level_id") is not None and lit(b["level_id"]) == l, key, ch[0].where(), "chunks of level %d; found %s" % (l, b.get("level_id") is not None and show(b["level_id"])))
                n = b.get("n_samples")
                if n is None or n is NONE:
                    if short == "HDF":
                        ctx.bad(key, ch[0].where(), "only the first chunk of the level is read")
                    continue
                n = n.args[1] if n.op == "call" and last(n.args[0]) == "int" and len(n.args) == 2 else n
                if n.op == "sub" and contains(n.args[0], lambda y: y.op == "call" and last(str(y.args[0])) == "get_n_collected"):
                    ctx.req(lit(n.args[1]) == l, key, ch[0].where(), "as many samples as level %d has collected; found %s" % (l, show(n, 5)))
                elif is_const(n):
                    ctx.bad(key, ch[0].where(), "only the first %s samples of the level are read" % show(n))
                else:
                    ctx.und(key, ch[0].where(), "number of samples %s" % show(n, 5))
            else:
                ctx.und(key, es[0].where(), "chunk %s" % show(cs, 5))


def empty_level(ctx):
    """a level without collected samples has no pairs and does not prevent reading the others"""
    nm, key = "sample_pairs", "all-pairs@empty-level"
    w = WM + nm
    r = ctx.run_method(MEM, nm, fields={"_results": levels_dict((1, 2))}, opaque={"sample_pairs_level"})
    v = r.eng.deref(r.value, r.state)
    x = element(v, 0)
    x = r.eng.deref(x, r.state) if x not in (None, "missing") else x
    if not fits(v) or x == "missing":
        ctx.bad(key, w, "levels 1 and 2 have samples, level 0 none: index outside the list or no element: %s" % show(v, 5))
    elif x is None or dim(x) is not const(0):
        lv = [] if x is None or x.op != "call" or last(str(x.args[0])) != "sample_pairs_level" else [
            y.args[1] for y in walk(x) if y.op == "kw" and y.args[0] == "level_id" and is_const(y.args[1])]
        if lv and lit(lv[0]) in (1, 2):
            ctx.bad(key, w, "levels 1 and 2 have samples, level 0 none: the pairs of level %s are given as those of level 0" % lit(lv[0]))
        else:
            ctx.und(key, w, show(v, 5))
    else:
        ctx.ok(key, w, "no pairs for level 0")
    w = WH + nm
    r = hdf_run(ctx, nm, opaque={"sample_pairs_level", "chunks", "_level_chunks"}, given={(g, "collected_n_items"): const(i) for i, g in enumerate(GRP)})
    v = r.eng.deref(r.value, r.state)
    x = element(v, 0)
    x = r.eng.deref(x, r.state) if x not in (None, "missing") else x
    ch = [e for e in calls(r, "chunks") + calls(r, "_level_chunks") if lit(dict(zip(("level_id", "n_samples"), e.args), **(e.kw or {})).get("level_id", NONE)) == 0]
    if ch:
        ctx.bad(key, ch[0].where(), "chunks of a level without collected samples are asked (there are none: an error)")
    elif x is None or x == "missing" or dim(x) is not const(0):
        ctx.und(key, w, show(v, 5))
    else:
        ctx.ok(key, w, "no pairs for level 0")


@prop("S17", "")
def s17_storage(ctx):
    empty_level(ctx)
    level_chunks(ctx)
    all_pairs(ctx)


@prop("S13", "")
def s13_clear(ctx):
    r = hdf_run(ctx, "clear_failed")
    ev = calls(r, "clear_failed_dataset")
    w = WH + "clear_failed"
    got = [e.recv for e in ev if not conds(e)]
    if not ev:
        ctx.und("clear@levels", w, "clearing of the groups not found")
    else:
        ctx.req(set(got) == set(GRP), "clear@levels", w, "failures of every level are cleared; found %s" % [show(g) for g in got])
