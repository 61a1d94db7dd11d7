"""Sampler: level pairing, sample identity, scheduling bookkeeping, collection, renewal."""
from .registry import prop
from .common import *
from fractions import Fraction
from sa.cases import Cases, Unknown

SAMPLER = "mlmc.sampler.Sampler"


def level_field(ctx, r):
    """(field name, content) of the Sampler field holding the per-level simulation objects."""
    slf = sym("self")
    for (k, v) in r.state.heap.items():
        if k[0] == "f" and k[1] is slf:
            c = r.eng.deref(v, r.state)
            if has_call(c, "level_instance"):
                return k[2], c
    return None, None


@prop("S01", "Value-flow summary of Sampler.__init__ with helpers expanded; the per-level object list is instantiated at level "
      "indices 0..3 and compared with the required (fine, coarse) coupling; attribute writes on every level object are matched to the level index.",
      ["level_instance parameters are (fine_level_params, coarse_level_params)",
       "index terms are affine in the level index, so four instances decide all levels"])
def s01(ctx):
    r = ctx.run_method(SAMPLER, "__init__")
    P, F = sym("level_parameters"), sym("sim_factory")
    name, content = level_field(ctx, r)
    where = "mlmc/sampler.py:Sampler.__init__"
    if content is None:
        ctx.bad("pairing@levels", where, "no field of the sampler holds level_instance(...) results for the levels")
        return
    n = Norm()
    ctx.req(n(dim(content)) is n(dim(P)), "level-count@levels", where,
            "number of level objects must be the number of level parameters, found %s" % show(dim(content)))
    objs = {}
    for k in range(4):
        t = sub(content, const(k))
        key = "pairing@level%d" % min(k, 2)
        if not (t.op == "call" and last(t.args[0]) == "level_instance"):
            if t.op == "ite" or t.op == "sub":
                ctx.und(key, where, "level object not resolved: %s" % show(t))
            else:
                ctx.bad(key, where, "level object %d is %s, not a level_instance(...)" % (k, show(t)))
            continue
        objs[k] = t
        args = [a for a in t.args[1:] if isinstance(a, T)]
        fine = kwget(t, "fine_level_params")
        coarse = kwget(t, "coarse_level_params")
        if fine is None or coarse is None:
            pos = [a for a in args if a.op != "kw"]
            if len(pos) >= 3:
                fine, coarse = pos[1], pos[2]
        recv = args[0]
        if fine is None or coarse is None:
            ctx.bad(key, where, "level_instance called without both parameters: %s" % show(t))
            continue
        ok_f = fine is sub(P, const(k))
        if k == 0:
            ok_c = not contains(coarse, P) and coarse.op in ("list", "tuple", "const")
        else:
            ok_c = coarse is sub(P, const(k - 1))
        ctx.req(recv is F and ok_f and ok_c, key, where,
                "level %d must be built by the factory from step %d (fine) and %s (coarse); found fine=%s coarse=%s" % (
                    k, k, "no coarse step" if k == 0 else "step %d" % (k - 1), show(fine), show(coarse)))
    # attribute writes
    for attrname, want in (("_level_id", None), ("_calculate", "calculate"), ("_result_format", "result_format")):
        seen = {}
        for e in r.sets(attrname):
            for j in range(4):
                recv, val = e.recv, e.args[0]
                if e.loops:
                    idx = e.loops[-1][0]
                    if guard_at(e, idx, j) is False:
                        continue
                    recv, val = inst(recv, idx, j), inst(val, idx, j)
                for k, t in objs.items():
                    if recv is t:
                        seen[k] = (val, e)
        for k in objs:
            key = "attr%s@level%d" % (attrname, min(k, 2))
            if k not in seen:
                ctx.bad(key, where, "level object %d never gets %s" % (k, attrname))
                continue
            v, e = seen[k]
            if want is None:
                good = is_const(v, k)
            else:
                good = (v.op == "bound" and v.args[0] is F and v.args[2] == want) or v is attr(F, want)
            ctx.req(good, key, e.where(), "level object %d: %s = %s" % (k, attrname, show(v)))
    # the same parameters and result format are recorded in the storage
    sg = calls(r, "save_global_data")
    if not sg:
        ctx.bad("global-data@storage", where, "level parameters are not recorded in the storage")
    for e in sg:
        lp, rf = e.kw.get("level_parameters"), e.kw.get("result_format")
        ctx.req(lp is P and rf is not None and has_call(rf, "result_format") and not e.loops and not conds(e),
                "global-data@storage", e.where(), "storage receives level_parameters=%s result_format=%s" % (lp and show(lp), rf and show(rf)))


def counter_info(ctx, r):
    """Identity of scheduled samples in schedule_samples: (event, level term, id term, counter term closed form)."""
    out = []
    for e in calls(r, "schedule_sample"):
        sid = e.kw.get("sample_id") or e.arg(0)
        out.append((e, sid))
    return out


def id_parts(sid):
    """variable parts of a formatted id, or None if not recognisably injective"""
    if sid.op != "fmt":
        return None, "id is not a formatted string: %s" % show(sid)
    var = []
    prev = None
    for p in sid.args:
        if p.op == "const":
            prev = p.args[0]
            continue
        if p.op == "fpart":
            t, spec, conv = p.args
            import re
            if not re.fullmatch(r"0?\d*d?", spec or "") or conv not in ("", "s", "r"):
                return None, "format spec %r may merge different numbers" % spec
            if var and not (isinstance(prev, str) and prev and any(not c.isdigit() for c in prev)):
                return None, "two numbers without a separating literal"
            var.append(t)
            prev = None
        else:
            if var and not (isinstance(prev, str) and prev and any(not c.isdigit() for c in prev)):
                return None, "two numbers without a separating literal"
            var.append(p)
            prev = None
    return var, ""


@prop("S02", "Value-flow of Sampler.schedule_samples / __init__: the id handed to the pool is an injective format of (level, running number); "
      "the running number is the closed form base+iteration, the stored counter after the batch is base+batch size, and base is the recorded schedule length.",
      ["ids are compared as formatted strings; d-conversions are injective", "the storage returns one entry per level in level order"])
def s02(ctx):
    r = ctx.run_method(SAMPLER, "schedule_samples")
    eng = r.eng
    slf = sym("self")
    where = "mlmc/sampler.py:Sampler.schedule_samples"
    infos = counter_info(ctx, r)
    if not infos:
        ctx.bad("id@schedule", where, "no sample is handed to the pool")
        return
    counter_field = None
    for e, sid in infos:
        if len(e.loops) < 2:
            ctx.bad("id@schedule", e.where(), "samples are not scheduled per level and per sample")
            continue
        lvl_idx, lvl_dom, _ = e.loops[-2]
        smp_idx, smp_dom, _ = e.loops[-1]
        var, why = id_parts(sid)
        if var is None:
            ctx.bad("id-format@schedule", e.where(), why)
            continue
        vs = [closed_form(strip_int(v), eng) for v in var]
        lv = [v for v in vs if strip_int(v) is lvl_idx]
        cn = [v for v in vs if strip_int(v) is not lvl_idx]
        ctx.req(len(lv) >= 1, "id-level@schedule", e.where(), "id must contain the level number; parts: %s" % [show(v) for v in vs])
        if len(cn) != 1:
            ctx.bad("id-number@schedule", e.where(), "id must contain exactly one running number; parts: %s" % [show(v) for v in vs])
            continue
        c = strip_casts(cn[0])
        n = Norm()
        # affine in the sample index with non-zero integer slope
        d = n(mk("bin", "-", subst(c, {smp_idx: binop("+", smp_idx, const(1))}), c))
        base = subst(c, {smp_idx: const(0)})
        base = strip_casts(base)
        slope_ok = d.op == "const" and isinstance(d.args[0], int) and d.args[0] != 0 or is_const(d, 1.0)
        ctx.req(slope_ok, "id-number@distinct", e.where(),
                "running number must change from sample to sample; number=%s step=%s" % (show(c), show(d)))
        # base = counter field at this level
        nb = n(base)
        flds = [x for x in walk(nb) if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[0] is slf and x.args[1] is lvl_idx]
        if not flds or nb is not n(flds[0]):
            ctx.bad("id-number@base", e.where(), "running number of a batch must start at the per-level schedule counter, starts at %s" % show(base))
            continue
        fld = flds[0].args[0]
        counter_field = fld.args[1]
        ctx.ok("id-number@base", e.where(), "starts at %s" % show(flds[0]))
        # counter after the batch
        v = after_level(r, fld, lvl_idx, e)
        good = v is not None and slope_ok and n.equal(strip_all(v), strip_all(binop("+", flds[0], binop("*", smp_dom, d))))
        ctx.req(good, "counter@advance", e.where(), "after scheduling n samples the level counter must have advanced past every used number; "
                "counter after batch: %s" % (show(v) if v is not None else "unknown"))
        ctx.req(not [g for g in conds(e) if not contains(g[0], lambda x: x.op == "exc")], "id@every-sample", e.where(), "samples are scheduled unconditionally")
    # restart: counter initialised from what the storage recorded
    r0 = ctx.run_method(SAMPLER, "__init__")
    w0 = "mlmc/sampler.py:Sampler.__init__"
    if counter_field is None:
        return
    f = r0.field(slf, counter_field)
    if f is None:
        ctx.bad("restart@counter", w0, "schedule counter %s is not initialised" % counter_field)
        return
    loaded = [x for x in walk(f) if x.op == "call" and last(x.args[0]) == "load_scheduled_samples"]
    if not loaded:
        ctx.bad("restart@counter", w0, "schedule counter is not initialised from the recorded schedule: %s" % show(f))
        return
    L = loaded[0]
    n = Norm()
    okall, detail = True, []
    for g, alt in leaves_ite(f):
        for k in range(3):
            v = strip_casts(n(sub(alt, const(k))))
            if alt.op == "call" and alt.args[0] == "numpy.zeros" or alt.op == "bin" and not contains(alt, L) or not contains(alt, L):
                # zero start is only legitimate when nothing is recorded
                only_empty = any(contains(c, L) for c, p in g)
                zero = alt.op == "call" and alt.args[0] == "numpy.zeros" or alt.op in ("cat", "list", "bin", "call") and not contains(alt, lambda x: x.op == "const" and x.args[0] not in (0, 0.0, None))
                if not (only_empty and zero):
                    okall = False
                    detail.append("starts at %s under %s" % (show(alt), [(show(c, 3), p) for c, p in g]))
                elif not all(empty_cond(c, p, L) for c, p in g if contains(c, L)):
                    okall = False
                    detail.append("zero start under a condition that is not 'nothing recorded': %s" % [(show(c, 4), p) for c, p in g])
                continue
            want = [dim(sub(L, mk("key", L, const(k)))), dim(sub(L, const(k))), dim(sub(L, sub(L, const(k))))]
            if v not in [n(w) for w in want]:
                okall = False
                detail.append("level %d counter starts at %s" % (k, show(v)))
    ctx.req(okall, "restart@counter", w0, "schedule counter must continue from the number of recorded ids per level: %s" % "; ".join(detail[:3]),
            "counter = length of the recorded per-level schedule (zeros when nothing is recorded)")


def empty_cond(c, p, L):
    """condition saying that the list of recorded levels is empty"""
    c, p = guard(c, p)
    if c.op == "cmp":
        return c.args[0] == "==" and p and any(is_const(a, 0) for a in c.args[1:])
    return not p and contains(c, L)


def strip_casts(t):
    """drop int()/float casts everywhere (counters are integral)"""
    m = {}
    for x in walk(t):
        if x.op == "call" and x.args[0] in ("builtins.int", "builtins.float") and len(x.args) == 2:
            m[x] = x.args[1]
    while m:
        t = subst(t, m)
        m = {x: x.args[1] for x in walk(t) if x.op == "call" and x.args[0] in ("builtins.int", "builtins.float") and len(x.args) == 2}
    return t


def strip_all(t):
    return elementwise(strip_casts(t))


def after_level(r, fld, lvl, e):
    """value of fld[level] at the end of the level's iteration"""
    eng = r.eng
    inst_id = e.loops[-2][2]
    for mu, (init, upd, idx, dom) in eng.loopinfo.items():
        if idx is lvl and (init is fld or contains(init, fld) or init is eng.initial(("c", fld))):
            # outer loop's update of the counter content
            if contains(upd, lambda x: x is mu):
                v = value_at(upd, lvl, eng)
                if v is not None:
                    v = subst(v, {sub(mu, lvl): sub(fld, lvl)})
                    return v
    return None


@prop("S03", "Value-flow of Sampler.schedule_samples: batch size per level = target - already scheduled; the ids handed to the pool and "
      "the ids recorded in the storage are the same loop-built list, under the same level, with that level's simulation object.",
      ["schedule_sample / save_scheduled_samples are the pool and storage interfaces"])
def s03(ctx):
    r = ctx.run_method(SAMPLER, "schedule_samples")
    eng = r.eng
    slf = sym("self")
    where = "mlmc/sampler.py:Sampler.schedule_samples"
    r0 = ctx.run_method(SAMPLER, "__init__")
    fname, _ = level_field(ctx, r0)
    sched = calls(r, "schedule_sample")
    saved = calls(r, "save_scheduled_samples")
    if not ctx.req(len(sched) >= 1, "schedule@pool", where, "samples are handed to the pool"):
        return
    if not ctx.req(len(saved) >= 1, "record@storage", where, "scheduled ids are recorded in the storage"):
        return
    n = Norm()
    for e in sched:
        if len(e.loops) < 2:
            ctx.bad("schedule@loops", e.where(), "no per-level / per-sample loop")
            continue
        li, ld, linst = e.loops[-2]
        si, sd, _ = e.loops[-1]
        sid = e.kw.get("sample_id") or e.arg(0)
        lsim = e.kw.get("level_sim") or e.arg(1)
        ctx.req(lsim is not None and lsim is sub(attr(slf, fname), li), "schedule@level-sim", e.where(),
                "a sample of level L must run level L's simulation object; found %s" % (lsim and show(lsim)))
        # batch size
        d = strip_all(sd)
        if d.op == "call" and d.args[0] == "builtins.max" and any(is_const(a, 0) for a in d.args[1:]):
            d = [a for a in d.args[1:] if not is_const(a, 0)][0]
        d = n(d)
        cnt = [x for x in walk(closed_form(sid, eng)) if x.op == "sub" and x.args[0].op == "attr" and x.args[0].args[0] is slf and x.args[1] is li]
        cf = {x.args[0] for x in cnt}
        flds = [x for x in walk(d) if x.op == "sub" and x.args[1] is li and x.args[0].op == "attr"]
        tgt = [x for x in flds if x.args[0] not in cf]
        good = len(tgt) == 1 and len(cf) == 1 and n.equal(d, binop("-", tgt[0], sub(list(cf)[0], li)))
        ctx.req(good, "plan@batch-size", e.where(), "number of new samples on a level must be target - already scheduled; found %s" % show(sd))
        ctx.req(n(ld) is n(ld) and not [c for c in conds(e) if c[0].op != "exc"], "schedule@unconditional", e.where(), "no level or sample is skipped")
        # all levels visited: domain of the level loop is the plan / the level objects
        okd = contains(ld, lambda x: x.op == "attr" and x.args[0] is slf) and ld.op == "dim"
        ctx.req(okd, "schedule@all-levels", e.where(), "the level loop must run over all levels; domain %s" % show(ld))
        # recorded list
        match = None
        for s in saved:
            if loop_ids(s) == loop_ids(e)[:-1]:
                match = s
        if match is None:
            # recorded per sample or after all levels
            per = [s for s in saved if loop_ids(s) == loop_ids(e)]
            if per:
                s = per[0]
                smp = s.kw.get("samples") or s.arg(1)
                ctx.req(smp.op == "list" and smp.args == (sid,) and (s.kw.get("level_id") or s.arg(0)) is li and not extra_conds(s, e),
                        "record@same-ids", s.where(), "recorded ids %s" % show(smp))
            else:
                ctx.bad("record@same-ids", where, "recording is not done for the level just scheduled")
            continue
        lev = match.kw.get("level_id") or match.arg(0)
        smp = match.kw.get("samples") or match.arg(1)
        ctx.req(strip_int(lev) is li, "record@level", match.where(), "ids of level L must be recorded under level L; found %s" % show(lev))
        xc = [c for c in extra_conds(match, e) if not nonempty_cond(c, smp, sd)]
        ctx.req(not xc, "record@unconditional", match.where(), "recording must not be skipped; conditions %s" % [show(c[0]) for c in xc])
        want = cat(each(si, sd, mk("list", sid)))
        ctx.req(smp is want or same_list(smp, want, eng), "record@same-ids", match.where(),
                "recorded ids must be exactly the scheduled ids; recorded %s" % show(smp))


def nonempty_cond(c, lst, dom):
    t, p = c
    return p and (t is lst or t is dom or contains(t, lambda x: x is dom or x is lst))


def same_list(a, b, eng):
    if a.op != "cat" or b.op != "cat" or len(a.args) != len(b.args):
        return False
    for x, y in zip(a.args, b.args):
        if x.op != "each" or y.op != "each":
            return False
        if x.args[1] is not y.args[1] or x.args[3] is not y.args[3] or x.args[2].op != "list" or y.args[2].op != "list":
            return False
        n = Norm()
        u = closed_form(x.args[2].args[0], eng)
        v = closed_form(y.args[2].args[0], eng)
        if subst(n(u), {x.args[0]: y.args[0]}) is not n(v):
            return False
    return True


@prop("S04", "Event-order analysis of every Sampler method that polls the pool: each polled batch (successes, failures, timings) flows "
      "unconditionally into the storage in the same loop iteration, and the poll loop ends only when the reported number of running samples is zero or the time limit is hit.",
      ["get_finished returns (successful, failed, n_running, n_ops)"])
def s04(ctx):
    c = ctx.prog.cls(SAMPLER)
    total = 0
    import ast
    uses = lambda m, n: any(isinstance(x, ast.Attribute) and x.attr == n for x in ast.walk(c.methods[m].node))
    polling = [m for m in sorted(c.methods) if uses(m, "get_finished")]
    # a helper is judged inside the methods calling it
    for m in list(polling):
        up = [x for x in sorted(c.methods) if x != m and m.startswith("_") and uses(x, m)]
        if up:
            polling.remove(m)
            polling += [x for x in up if x not in polling]
    for mname in polling:
        f = c.methods[mname]
        r = ctx.run(f, c)
        polls = calls(r, "get_finished")
        for e in polls:
            total += 1
            g = e.result
            after = [x for x in r.events if x.seq > e.seq]
            sv = [x for x in calls(after, "save_samples") if contains(mk("tuple", *x.args), g)]
            ops = [x for x in calls(after, "save_n_ops") if contains(mk("tuple", *x.args), g)]
            key = "@" + mname
            if not sv:
                ctx.bad("store-batch" + key, e.where(), "a polled batch is not stored")
            else:
                x = sv[0]
                succ = x.kw.get("successful_samples") or x.kw.get("successful") or x.arg(0)
                fail = x.kw.get("failed_samples") or x.kw.get("failed") or x.arg(1)
                ctx.req(succ is sub(g, const(0)) and fail is sub(g, const(1)), "store-batch" + key, x.where(),
                        "storage must receive the polled successes and failures unchanged; found %s / %s" % (show(succ), fail and show(fail)))
                ctx.req(loop_ids(x) == loop_ids(e) and not when_empty(real(extra_conds(x, e)), sub(g, const(0)), sub(g, const(1))), "store-always" + key, x.where(),
                        "every polled batch is stored in its own iteration; extra conditions: %s" % [show(q[0]) for q in extra_conds(x, e)])
            if not ops:
                ctx.bad("store-times" + key, e.where(), "timings of a polled batch are not stored")
            else:
                x = ops[0]
                a = x.kw.get("n_ops") or x.arg(0)
                ctx.req(a is sub(g, const(3)) and loop_ids(x) == loop_ids(e) and not when_empty(real(extra_conds(x, e)), sub(g, const(3))), "store-times" + key, x.where(),
                        "storage must receive the polled timings on every poll; found %s, extra conditions %s" % (show(a), [show(q[0]) for q in extra_conds(x, e)]))
            # loop end
            whiles = [l for l in e.loops if l[1].op in ("while", "upto") or True]
            if not e.loops:
                if any(x.loops for x in polls):
                    continue        # first poll before the loop
                ctx.und("poll-until-done" + key, e.where(), "poll is not in a loop")
                continue
            # condition of the loop = guards that mention a loop-carried value updated to n_running
            run_mu = [m for m, (i, u, idx, dom) in r.eng.loopinfo.items() if u is sub(g, const(2)) or contains(u, sub(g, const(2)))]
            ways = leavings(r, e)
            # the loop condition is asked again with the values after the iteration
            nw, ni = ({m: (u if k else i0) for m, (i0, u, ix_, d_) in r.eng.loopinfo.items() if isinstance(u, T) and isinstance(i0, T)} for k in (1, 0))
            upto = [q for q in conds(e) if any(contains(q[0], m) for m in nw)]
            for q, p in upto:
                ways.append(([(subst(q, nw), not p)], e.where()))
                ctx.req(truths(subst(q, ni), None, {}) != {not p}, "poll-once" + key, e.where(), "the pool is polled at least once; loop condition %s" % show(q))
            if not ways:
                ctx.und("poll-until-done" + key, e.where(), "way out of the poll loop not found")
            for g_, w_ in ways:
                timed, always, unclear = leave_ok(g_, set(run_mu) | {sub(g, const(2))}, sym("timeout"))
                ctx.req(timed and always, "poll-until-done" + key, w_, "polling goes on while samples run and the time limit%s is not over; it also ends when %s"
                        % ("" if not timed else " (none given)", [(show(c, 6), p) for c, p in g_ if c.op not in ("exc", "loopexit")]),
                        "the loop is left only when nothing runs or a given time limit is over")
            v = r.eng.deref(r.value, r.state)
            ctx.req(contains(v, lambda x: x is sub(g, const(2)) or x in run_mu), "report-running" + key, e.where(),
                    "the number of running samples of the last poll is reported: %s" % show(v))
    ctx.req(total >= 1, "poll@sampler", "mlmc/sampler.py:Sampler", "the sampler polls the pool somewhere")


def real(cs):
    return [c for c in cs if c[0].op not in ("exc", "loopexit")]


CLOCK = ("perf_counter", "time", "monotonic", "process_time", "perf_counter_ns", "time_ns", "monotonic_ns")


def clock_calls(t):
    return [x for x in walk(t) if x.op == "call" and last(str(x.args[0])) in CLOCK and "time" in str(x.args[0]) or x.op == "occ" and has_call(x.args[0], *CLOCK)]


def leavings(r, e):
    """conditions of the ways out of the innermost loop of event e (breaks, returns)"""
    inst = e.loops[-1][2]
    out = [(list(b.guards), b.where()) for b in r.events if b.kind == "break" and b.loops and b.loops[-1][2] == inst]
    for st, v in r.exits:
        g = list(st.guards)
        k = [n for n, (c, p) in enumerate(g) if c.op == "loopexit" and p]
        if k:
            out.append((g[k[-1] + 1:], e.where()))
    return out


def truths(c, expired, free):
    """set of truth values of a condition; other atoms are looked up in `free`"""
    if c.op == "const":
        return {bool(c.args[0])}
    if c.op == "bool" or c.op in ("and", "or"):
        xs = [truths(x, expired, free) for x in c.args if isinstance(x, T)]
        o = c.args[0] if c.op == "bool" else c.op
        if o == "and":
            return {a for a in (True, False) if (all(True in x for x in xs) if a else any(False in x for x in xs))}
        return {a for a in (True, False) if (any(True in x for x in xs) if a else all(False in x for x in xs))}
    if c.op == "not":
        return {not x for x in truths(c.args[0], expired, free)}
    if c.op == "ite":
        out = set()
        for v in truths(c.args[0], expired, free):
            out |= truths(c.args[1] if v else c.args[2], expired, free)
        return out
    cl = clock_calls(c)
    if cl and c.op == "cmp" and c.args[0] in ("<", "<="):
        if expired is None:
            return {True, False}
        now = max(cl, key=lambda x: (x.op == "occ" and x.args[1] or 0) if not isinstance(x.args[-1], T) else x.args[-1]._h)
        p, q = Norm().ratio(mk("bin", "-", c.args[2], c.args[1]))
        k = [v for m, v in p.items() if m == ((now, 1),)]
        if len(k) == 1:
            return {expired == (k[0] > 0)}
    if c in free:
        return {free[c]}
    free.setdefault("?", []).append(c)
    return {True, False}


def leave_ok(guards, runs, timeout):
    """(never left while samples run and time is left, never left while samples run without a time limit, unclear conditions)"""
    m = {t: const(1) for t in runs}
    res = []
    free = {}
    for expired, tm in ((False, None), (None, NONE)):
        mm = dict(m)
        if tm is not None:
            mm[timeout] = tm
        ok = False
        for c, p in guards:
            if c.op in ("exc", "loopexit"):
                continue
            v = truths(subst(c, mm), expired, free)
            if v == {not p}:
                ok = True
        res.append(ok)
    return res[0], res[1], free.get("?", [])


def when_empty(cs, *xs):
    """the conditions that may be false although one of the values xs is not empty"""
    out = []
    for c, p in cs:
        for x in xs:
            if truths(subst(subst(c, {dim(x): const(1), mk("cmp", "==", x, mk("dict")): FALSE, mk("cmp", "==", x, mk("list")): FALSE}), {x: TRUE}), None, {}) != {p}:
                out.append((c, p))
                break
    return out


@prop("S13", "Value-flow of Sampler.renew_failed_samples: for every level and every failed id of the storage the same id is scheduled with "
      "the simulation of its own level, unconditionally, and clearing the failures is the last step, outside the loops.",
      ["failed_samples() returns ids per level"])
def s13(ctx):
    r0 = ctx.run_method(SAMPLER, "__init__")
    fname, _ = level_field(ctx, r0)
    r = ctx.run_method(SAMPLER, "renew_failed_samples")
    slf = sym("self")
    where = "mlmc/sampler.py:Sampler.renew_failed_samples"
    sched = calls(r, "schedule_sample")
    clr = calls(r, "clear_failed")
    if not ctx.req(len(sched) >= 1, "renew@schedule", where, "failed samples are scheduled again"):
        return
    for e in sched:
        sid = e.kw.get("sample_id") or e.arg(0)
        ls = e.kw.get("level_sim") or e.arg(1)
        src = [x for x in walk(sid) if x.op == "call" and last(x.args[0]) == "failed_samples"]
        if not src:
            ctx.bad("renew@same-id", e.where(), "renewed id is not a failed id of the storage: %s" % show(sid))
            continue
        F = src[0]
        if len(e.loops) < 2:
            ctx.bad("renew@all", e.where(), "renewal does not loop over levels and ids")
            continue
        li, ld, _ = e.loops[-2]
        si, sd, _ = e.loops[-1]
        lev = mk("key", F, li)
        alts = [(lev, sub(sub(F, lev), si))]
        # loop over the levels by number
        for x in walk(sid):
            if x.op == "sub" and x.args[0] is F:
                alts.append((x.args[1], sub(x, si)))
        okid = [l for l, w in alts if sid is w]
        ctx.req(bool(okid), "renew@same-id", e.where(), "renewed id must be the failed id itself; found %s" % show(sid))
        if okid:
            lterm = okid[0]
            ctx.req(ls is not None and ls.op == "sub" and ls.args[0] is attr(slf, fname) and strip_key(ls.args[1]) is strip_key(lterm), "renew@level", e.where(),
                    "a failed sample must be rerun with the simulation of its own level; found %s" % (ls and show(ls)))
            okdom = ld is dim(F) or ld.op == "dim" and contains(ld, attr(slf, fname)) or contains(ld, F)
            ctx.req(okdom and sd is dim(sub(F, lterm)), "renew@all", e.where(),
                    "every failed id of every level is renewed; domains %s / %s" % (show(ld), show(sd)))
        bad = real(conds(e))
        bad = [b for b in bad if not (b[0].op == "fold" or contains(b[0], F) and b[1])]
        ctx.req(not bad, "renew@unconditional", e.where(), "no failed sample is skipped: %s" % [(show(b[0]), b[1]) for b in bad])
    if ctx.req(len(clr) >= 1, "renew@clear", where, "the failed records of renewed samples are cleared"):
        for c in clr:
            ctx.req(all(e.seq < c.seq for e in sched) and not c.loops and not [q for q in real(conds(c)) if not q[1] and False] and not real(conds(c)),
                    "renew@clear-last", c.where(), "failures are cleared once, after all of them were scheduled again")


def strip_key(t):
    t = strip_int(t)
    while t.op == "fmt" and len(t.args) == 1 and t.args[0].op == "fpart":
        t = strip_int(t.args[0].args[0])
    return t


@prop("S14", "Value-flow of Sampler target handling: set_level_target_n_samples stores max(old, requested) per level; process_adding_samples "
      "requests max(scheduled, ...) and never above the estimate; batch size is clipped by range at zero.",
      ["numpy elementwise semantics"])
def s14(ctx):
    r = ctx.run_method(SAMPLER, "set_level_target_n_samples")
    slf = sym("self")
    where = "mlmc/sampler.py:Sampler.set_level_target_n_samples"
    f = None
    # final content of the target field
    tf = attr(slf, "_n_target_samples")
    r3 = ctx.run_method(SAMPLER, "schedule_samples")
    # target field name discovered from schedule_samples' plan
    name = target_field(r3) or "_n_target_samples"
    tf = attr(slf, name)
    n_samples = sym("n_samples")
    st = r.state
    v = st.heap.get(("f", slf, name))
    content = r.eng.deref(v if v is not None else tf, st)
    i = sym("$lev")
    lf = (level_field(ctx, ctx.run_method(SAMPLER, "__init__")) or (None,))[0]
    ds = {dim(n_samples), dim(tf)} | ({dim(attr(slf, lf))} if lf else set())
    v = level_value(content, tf, i, ds)
    ok = is_larger(v, sub(tf, i), sub(n_samples, i))
    if ok is None:
        ctx.und("target@monotone", where, "new targets %s" % show(content, 12))
    else:
        ctx.req(ok, "target@monotone", where, "each level's target becomes max(previous target, requested); found %s" % show(v),
                "target[level] = max(target[level], n_samples[level]) for every level")
    # process_adding_samples
    r = ctx.run_method(SAMPLER, "process_adding_samples", opaque={"Sampler.ask_sampling_pool_for_samples", "Sampler.set_scheduled_and_wait", "Sampler.schedule_samples"})
    w = "mlmc/sampler.py:Sampler.process_adding_samples"
    ev = calls(r, "set_scheduled_and_wait")
    if not ev:
        ctx.und("adding@request", w, "set_scheduled_and_wait is not called")
        return
    req = ev[0].kw.get("n_scheduled") or ev[0].arg(0)
    S = [x for x in walk(req) if x.op == "attr" and x.args[0] is slf]
    E, A = sym("n_estimated"), sym("add_coeff")
    if len(set(S)) != 1 or not contains(req, E):
        ctx.bad("adding@request", ev[0].where(), "requested numbers must be computed from the scheduled and the estimated numbers: %s" % show(req))
        return
    s = S[0]
    # decide by cases on the ordering of estimate and schedule (piecewise-linear form)
    verdict, why = piecewise_adding(req, s, E, A)
    if verdict is None:
        ctx.und("adding@bounds", ev[0].where(), why)
    else:
        ctx.req(verdict, "adding@bounds", ev[0].where(), "request must be the schedule when the estimate is not larger, and at most the estimate otherwise: %s" % why)


def target_field(r):
    slf = sym("self")
    for e in calls(r, "schedule_sample"):
        if len(e.loops) >= 2:
            li = e.loops[-2][0]
            d = Norm()(strip_all(e.loops[-1][1]))
            sid = closed_form(e.kw.get("sample_id") or e.arg(0), r.eng)
            cf = {x.args[0] for x in walk(sid) if x.op == "sub" and x.args[0].op == "attr" and x.args[1] is li}
            t = [x.args[0].args[1] for x in walk(d) if x.op == "sub" and x.args[1] is li and x.args[0].op == "attr" and x.args[0] not in cf]
            if len(set(t)) == 1:
                return t[0]
    return None


def per_level(t, arrays):
    """one element of an array expression: the arrays stand for their element, writes through masks and loops become cases"""
    def go(x):
        if x.op == "store":
            base, k, v = x.args
            if k.op in ("cmp", "bool", "not", "un"):
                m = go(k)
                v = v.args[0] if v.op == "sub" and v.args[1] is k else v
                return ite(m, go(v), go(base))
        if x.op == "fstore":
            base, idx, dom, it, v, g = x.args
            if it is idx and v.op != "accum":
                m = {sub(a, idx): a for a in arrays}
                return ite(subst(g, m), go(subst(v, m)), go(base)) if g is not TRUE else go(subst(v, m))
        if x.op == "call" and x.args[0] in ("numpy.array", "numpy.asarray", "numpy.copy", ".copy", ".astype", "numpy.asfarray") and len(x.args) >= 2 and not contains(x, lambda y: y.op == "ext" and "int" in str(y.args[0])):
            return go(x.args[1])
        if x.op in ("idx", "sym", "const", "attr", "poly"):
            return x
        na = [go(a) if isinstance(a, T) else a for a in x.args]
        return subst_args(x, na)
    return go(t)


def subst_args(x, na):
    if all(a is b for a, b in zip(x.args, na)):
        return x
    return subst(x, {a: b for a, b in zip(x.args, na) if isinstance(a, T) and a is not b})


def piecewise_adding(req, s, E, A):
    """elementwise: the schedule if the estimate is not larger, otherwise between schedule and estimate, and not the schedule again"""
    s0, p, B = sym("$sched"), sym("$diff"), sym("$rest")
    unk = None
    req = per_level(req, (s, E))
    for rel, m in (("smaller", {s: mk("bin", "+", s0, p), E: s0}), ("equal", {s: s0, E: s0}), ("larger", {s: s0, E: mk("bin", "+", s0, p)})):
        cs = Cases({s0: "nonneg", p: "pos", A: "pos", B: "nonneg"}, [{A: mk("bin", "-", const(1), B)}],
                   {s0: (0, 1, 10, 1000), p: (1, 10, 1000), A: (Fraction(1, 10), Fraction(1, 2), Fraction(9, 10))})
        S, E_ = subst(s, m), subst(E, m)
        try:
            alts = cs.ev(subst(req, m))
        except Unknown as u:
            unk = unk or str(u)
            continue
        for path, v in alts:
            over, under = binop("-", E_, v), binop("-", v, S)
            if rel != "larger":
                okd = cs.sign(under) == {0}
                viol = lambda val: val(under) != 0
                why = "the estimate is %s than the schedule" % rel if rel == "smaller" else "nothing is missing"
            else:
                okd = cs.sign(over) <= {0, 1} and cs.sign(under) <= {0, 1} and cs.sign(under) != {0}
                viol = lambda val: val(over) < 0 or val(under) <= 0
                why = "more samples are needed"
            if okd:
                continue
            w = cs.model(path, viol)
            if w is not None:
                return False, "when %s, %s is requested, e.g. with %s" % (why, show(Norm()(v), 5), {show(k): str(x) for k, x in w.items()})
            unk = unk or "piece %s when %s" % (show(v, 5), why)
        for kind, path, v in cs.rounded:
            if rel == "larger" and contains(Norm()(v), A) and kind != "ceil":
                w = cs.model(path, lambda val: val(binop("-", v, S)) < Fraction(1, 2))
                if w is not None:
                    return False, "request may stay at the scheduled number although more are needed (%s of %s)" % (kind, show(v, 5))
    if unk:
        return None, unk
    return True, "bounds hold whether the estimate is smaller, equal or larger"


def is_larger(t, a, b):
    """t is the larger of a and b in every case; None: cannot tell"""
    if t is None:
        return None
    x, p = sym("$x"), sym("$d")
    res = True
    for m, want in (({a: x, b: mk("bin", "+", x, p)}, b), ({a: mk("bin", "+", x, p), b: x}, a), ({a: x, b: x}, a)):
        cs = Cases({x: "nonneg", p: "pos"}, (), {x: (0, 1, 7), p: (1, 5)})
        W = subst(want, m)
        try:
            alts = cs.ev(subst(t, m))
        except Unknown:
            return None
        for path, v in alts:
            d = binop("-", v, W)
            if cs.sign(d) == {0}:
                continue
            # other quantities of the sampler are independent of the two numbers
            for y in {z for k in [d] + [k for k, _ in path] for z in walk(k)}:
                if y.op == "sub" and all(z.op in ("sym", "attr", "sub", "idx", "const") for z in walk(y)) and contains(y, lambda z: z.op == "attr"):
                    cs.grid.setdefault(y, (0, 3, 20))
            if cs.model(path, lambda val: val(d) != 0) is not None:
                return False
            res = None
    return res


def level_value(content, tf, i, doms):
    """element i of the targets after the loop over the levels; None if not resolved"""
    if content is tf or content is sym("n_samples"):
        return sub(content, i)
    if content.op == "fstore":
        base, idx, dom, it, v, g = content.args
        b = level_value(base, tf, i, doms)
        if it is not idx or dom not in doms or b is None:
            return None
        m = {idx: i}
        if v.op == "accum":
            v = binop("+", b, v.args[0])
        return ite(subst(g, m), subst(v, m), b) if g is not TRUE else subst(v, m)
    if content.op == "fold":
        init, mu, upd, idx, dom = content.args
        if dom not in doms:
            return None
        b = level_value(init, tf, i, doms)

        def at(x):
            if x is mu:
                return b
            if x.op == "store" and x.args[1] is idx:
                return x.args[2] if at(x.args[0]) is not None else None
            if x.op == "ite":
                u, v = at(x.args[1]), at(x.args[2])
                return None if u is None or v is None else mk("ite", x.args[0], u, v)
            return None
        v = at(upd)
        if v is None or b is None:
            return None
        # other entries: of the earlier targets, or of new ones
        m = {y: sub(init, y.args[1]) for y in walk(v) if y.op == "sub" and y.args[0] is mu and y.args[1].op == "const"}
        v = subst(v, {sub(mu, idx): b, **m})
        return None if contains(v, mu) else subst(v, {idx: i})
    while content.op == "call" and content.args[0] in ("numpy.array", "numpy.asarray", "builtins.list") and len(content.args) >= 2:
        content = content.args[1]
    if content is tf or content is sym("n_samples"):
        return sub(content, i)
    if content.op == "cat" and len(content.args) == 1:
        content = content.args[0]
    if content.op == "each":
        idx, dom, part, g = content.args
        zipped = dom.op == "dim" and dom.args[0].op == "call" and dom.args[0].args[0] == "builtins.zip" and all(dim(x) in doms for x in dom.args[0].args[1:])
        if g is TRUE and part.op == "list" and len(part.args) == 1 and (dom in doms or zipped):
            return subst(part.args[0], {idx: i})
        return None
    if content.op in ("where", "ite", "bin") or content.op == "call" and content.args[0] in ("numpy.maximum", "numpy.fmax", "numpy.where", "numpy.minimum", "numpy.fmin", "numpy.clip", "numpy.max", "numpy.amax"):
        m = {y: sub(y, i) for y in (tf, sym("n_samples"))}
        return subst(content, m)
    return None


# ------------------------------------------------------------------------------------------------ initial targets
def strip_num(t, seen):
    """value without conversions that keep numbers; rounding and truncation are noted"""
    while t.op == "call":
        n = t.args[0]
        if n in ("numpy.round", "numpy.rint", "numpy.around", ".round", "builtins.round") and len([a for a in t.args[1:] if a.op != "kw"]) == 1:
            seen.add("round")
        elif n in ("builtins.int", "numpy.trunc", "numpy.floor", "numpy.ceil", "math.floor", "math.ceil") or n == ".astype" and "int" in show(t.args[2]):
            seen.add("int" if "round" not in seen and n in ("builtins.int", ".astype") else last(n))
        elif n not in ("numpy.array", "numpy.asarray", "builtins.list", "builtins.tuple", ".copy", ".tolist", ".astype", "numpy.atleast_1d"):
            break
        t = t.args[1]
    return t


def pick_level(t, l, K, nk):
    """element l of a sequence of K numbers as exponents of the two given numbers; 'log' marks logarithms"""
    num = lambda x: float(x.args[0]) if x.op == "const" and isinstance(x.args[0], (int, float)) and not isinstance(x.args[0], bool) else None
    go = lambda x: pick_level(x, l, K, nk)
    if t in nk:
        return ("pow", {t: 1.0})
    if num(t) is not None:
        return ("num", num(t))
    if t.op == "sub" and t.args[1].op == "const" and isinstance(t.args[1].args[0], int):
        q = t.args[0]
        while q.op == "call" and q.args[0] in ("numpy.array", "numpy.asarray", "numpy.atleast_1d", "list", "tuple") and len(q.args) > 1:
            q = q.args[1]
        if q.op in ("list", "tuple") and -len(q.args) <= t.args[1].args[0] < len(q.args):
            return go(q.args[t.args[1].args[0]])
        if q.op == "call" and q.args[0] in ("builtins.sorted", "numpy.sort", "builtins.reversed", "numpy.flip") and contains(q, lambda y: y in nk):
            return ("other", None)
        return None
    if t.op == "poly" or t.op not in ("call", "bin", "un", "cat", "each", "list"):
        return None
    if t.op == "cat" and len(t.args) == 1:
        return go(t.args[0])
    if t.op == "each":
        idx, dom, part, g = t.args
        if g is not TRUE or part.op != "list" or len(part.args) != 1:
            return None
        return pick_level(subst(part.args[0], {idx: const(l)}), l, K, nk)
    if t.op == "bin":
        o, a, b = t.args[0], go(t.args[1]), go(t.args[2])
        if a is None or b is None:
            return None
        if o in ("*", "/", "**") and a[0] == "other" and b[0] in ("pow", "num") and (o != "**" or b[0] == "num" and b[1]):
            return a
        add = lambda x, y, s: {k: x.get(k, 0) + s * y.get(k, 0) for k in set(x) | set(y)}
        if a[0] == b[0] == "num":
            try:
                return ("num", {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1], "/": a[1] / b[1] if b[1] else 0.0, "**": a[1] ** b[1]}[o])
            except KeyError:
                return None
        if o in "+-" and a[0] == b[0] and a[0].startswith("log"):
            return (a[0], add(a[1], b[1], 1 if o == "+" else -1))
        if o in "*/" and a[0] == b[0] == "pow":
            return ("pow", add(a[1], b[1], 1 if o == "*" else -1))
        if o == "*" and a[0].startswith("log") and b[0] == "num" or o == "/" and a[0].startswith("log") and b[0] == "num" and b[1]:
            k = b[1] if o == "*" else 1 / b[1]
            return (a[0], {x: y * k for x, y in a[1].items()})
        if o == "*" and a[0] == "num" and b[0].startswith("log"):
            return (b[0], {x: y * a[1] for x, y in b[1].items()})
        if o == "**" and a[0] == "pow" and b[0] == "num":
            return ("pow", {x: y * b[1] for x, y in a[1].items()})
        if o == "**" and a[0] == "num" and b == ("log%g" % a[1], b[1]):
            return ("pow", b[1])
        return None
    if t.op != "call":
        return None
    n = t.args[0]
    pos = [a for a in t.args[1:] if a.op != "kw"]
    if n in ("numpy.sqrt", "math.sqrt", "numpy.square", "numpy.cbrt") and len(pos) == 1:
        a, k = go(pos[0]), {"sqrt": 0.5, "square": 2.0, "cbrt": 1 / 3}[last(n)]
        if a is None or a[0] not in ("pow", "num", "other") or a[0] == "num" and a[1] < 0:
            return None
        return ("pow", {x: y * k for x, y in a[1].items()}) if a[0] == "pow" else ("num", a[1] ** k) if a[0] == "num" else a
    if n in ("numpy.log2", "numpy.log10", "numpy.log", "math.log2", "math.log10", "math.log") and len(pos) == 1:
        a = go(pos[0])
        base = {"log2": "log2", "log10": "log10", "log": "loge"}[last(n)]
        return (base, a[1]) if a is not None and a[0] == "pow" else None
    if n in ("numpy.exp2", "numpy.exp", "math.exp") and len(pos) == 1:
        a = go(pos[0])
        return ("pow", a[1]) if a is not None and a[0] == ("log2" if last(n) == "exp2" else "loge") else None
    if n in ("numpy.linspace", "numpy.geomspace") and len(pos) >= 2:
        m = pos[2] if len(pos) > 2 else kwget(t, "num")
        if m is None or num(m) != K or set(x.args[0] for x in t.args[1:] if x.op == "kw") - {"num"}:
            return None
        a, b = go(pos[0]), go(pos[1])
        s = l / (K - 1) if K > 1 else 0.0
        if a is None or b is None:
            return None
        if last(n) == "linspace" and a[0] == b[0] and a[0] != "pow" and a[0] != "num" or last(n) == "geomspace" and a[0] == b[0] == "pow":
            return (a[0], {k: (1 - s) * a[1].get(k, 0) + s * b[1].get(k, 0) for k in set(a[1]) | set(b[1])})
        if last(n) == "linspace" and a[0] == b[0] == "num":
            return ("num", a[1] + s * (b[1] - a[1]))
        if last(n) == "linspace" and a[0] == b[0] == "pow":
            if s in (0.0, 1.0) or a[1] == b[1]:
                return a if s == 0 else b
            return ("other", "sum of two different powers")       # linear between powers: no power of anything is a product of powers
        return None
    return None


def initial(ctx, nm, w, value, levels):
    """value(list of numbers) -> (result, engine run); levels: terms for the number of levels"""
    a, b, c = sym("$n0"), sym("$n1"), sym("$n2")
    for items in ((a, b), (a,)):
        r, v = value(mk("list", *items))
        if v is None:
            ctx.und("initial@%s" % nm, w, "no target is set")
            return
        if v.op == "list" or v.op == "call" and v.args[0] == "numpy.array" and v.args[1].op == "list":
            ctx.bad("initial@%s" % nm, w, "%d numbers stand for all levels; found %s" % (len(items), show(v, 6)))
            continue
        for K in ((1, 2, 3, 5) if len(items) == 2 else (1, 4, 6)):
            x = subst(v, {t: const(K) for t in levels})
            seen = set()
            x = strip_num(x, seen)
            nk = {a, b}
            for l in range(K):
                got = pick_level(x, l, K, nk)
                if got is not None and got[0] == "other":
                    ctx.bad("initial@%s" % nm, w, "targets must be a geometric sequence; found %s" % show(v, 6))
                    break
                if got is None:
                    # one number: the other end is a constant of the code
                    cs = {y for y in walk(x) if y.op == "const" and isinstance(y.args[0], int) and y.args[0] > 1}
                    got = None
                    if len(items) == 1:
                        for y in cs:
                            g = pick_level(subst(x, {y: b}), l, K, nk) if y.args[0] != K else None
                            got = got or g
                if got is None or got[0] != "pow":
                    ctx.und("initial@%s" % nm, w, "level %d of %d: %s" % (l, K, show(x, 6)))
                    break
                s = l / (K - 1) if K > 1 else 0.0
                e = got[1]
                ctx.req(abs(e.get(a, 0) - (1 - s)) < 1e-9 and abs(e.get(b, 0) - s) < 1e-9, "initial@%s" % nm, w,
                        "level %d of %d gets n0^%.3g * nL^%.3g; found exponents %s" % (l, K, 1 - s, s, {show(k): round(q, 3) for k, q in e.items()}))
            if "int" in seen and "round" not in seen:
                ctx.bad("initial@%s-rounding" % nm, w, "the numbers are truncated, not rounded: %s" % show(v, 5))
            elif seen & {"floor", "trunc", "ceil"}:
                ctx.bad("initial@%s-rounding" % nm, w, "the numbers are not rounded to the nearest: %s" % show(v, 5))
            elif "round" in seen:
                ctx.ok("initial@%s-rounding" % nm, w, "rounded to whole numbers")
    for items in ((a, b, c), (a, b, c, sym("$n3"))):
        r, v = value(mk("list", *items))
        seen = set()
        x = strip_num(v, seen)
        if x.op in ("list", "tuple"):
            ctx.req(list(x.args) == list(items), "initial@%s-explicit" % nm, w, "explicit numbers are the targets of the levels in their order; found %s" % show(v, 5))
        elif contains(x, lambda y: y.op == "call" and last(str(y.args[0])) in ("linspace", "geomspace", "logspace")):
            ctx.bad("initial@%s-explicit" % nm, w, "explicit numbers of %d levels are replaced by %s" % (len(items), show(v, 5)))
        else:
            ctx.und("initial@%s-explicit" % nm, w, show(v, 5))


@prop("S19", "The target numbers are evaluated abstractly for one, two, three and four given numbers; for 1 to 5 levels the element of each level is brought to a product of powers of the given numbers (through log, exp, linspace, geomspace, powers) "
      "and its exponents are compared with those of the geometric sequence; rounding is required.",
      ["numbers of levels not enumerated behave like those enumerated", "numpy's linspace, logarithms and exponentials are trusted"])
def s19(ctx):
    slf = sym("self")
    w = "mlmc/sampler.py:Sampler.set_initial_n_samples"
    tf = target_field(ctx.run_method(SAMPLER, "schedule_samples")) or "_n_target_samples"

    def by_sampler(l):
        r = ctx.run_method(SAMPLER, "set_initial_n_samples", args={"n_samples": l})
        v = r.state.heap.get(("f", slf, tf))
        return r, (r.eng.deref(v, r.state) if v is not None else None)
    nl = {dim(attr(slf, "_level_sim_objects")), attr(slf, "n_levels")}
    initial(ctx, "sampler", w, by_sampler, nl)
    try:
        f = ctx.prog.func("mlmc.estimator.determine_n_samples")
    except AnchorError:
        return

    def by_function(l):
        r = ctx.run(f, args={"n_samples": l})
        return r, r.eng.deref(r.value, r.state)
    initial(ctx, "function", "mlmc/estimator.py:determine_n_samples", by_function, {sym("n_levels")})


@prop("S14", "")
def s14_wait(ctx):
    """waiting for the asked share of the scheduled samples"""
    nm = "set_scheduled_and_wait"
    c = ctx.prog.cls(SAMPLER)
    if ctx.prog.method(c, nm) is None:
        return
    f = ctx.method(SAMPLER, nm)
    ps = f.params()[1:]
    w = "mlmc/sampler.py:Sampler." + nm
    r = ctx.run_method(SAMPLER, nm, opaque={"ask_sampling_pool_for_samples", "schedule_samples", "set_level_target_n_samples", "n_finished"})
    st, sch, ask, nf = [calls(r, x) for x in ("set_level_target_n_samples", "schedule_samples", "ask_sampling_pool_for_samples", "n_finished")]
    N, items = sym("n_scheduled"), sym("greater_items")
    if "n_scheduled" not in ps or "greater_items" not in ps or not st or not sch or not ask:
        ctx.und("wait@steps", w, "targets %d, scheduling %d, polling %d" % (len(st), len(sch), len(ask)))
        return
    a = (list(st[0].args) + list((st[0].kw or {}).values()) or [NONE])[0]
    ctx.req(a is N and st[0].seq < sch[0].seq < ask[0].seq, "wait@steps", st[0].where(), "the asked numbers become targets, then samples are scheduled, then polled; found %s" % show(a, 3))
    e = ask[0]
    cs = [(c, p) for c, p in conds(e) if contains(c, N) or contains(c, items)]
    if not e.loops or len(cs) != 1:
        ctx.und("wait@condition", e.where(), "loop condition %s" % [show(c, 6) for c, p in cs])
        return
    c, p = cs[0]
    while c.op == "not":
        c, p = c.args[0], not p
    agg = last(str(c.args[0])) if c.op == "call" else None
    q = c.args[1] if agg in ("any", "all") and len(c.args) == 2 else c.args[0].args[0] if agg in (".any", ".all") else None
    if agg not in ("any", "all") or q is None:
        ctx.und("wait@condition", e.where(), show(c, 7))
        return
    neg = False
    while q.op == "not" or q.op == "un" and q.args[0] in ("~", "not"):
        q, neg = q.args[-1], not neg
    if q.op != "cmp" or q.args[0] not in ("<", "<=", ">", ">="):
        ctx.und("wait@condition", e.where(), show(c, 7))
        return
    o, x, y = q.args
    if o in (">", ">="):
        o, x, y = {">": "<", ">=": "<="}[o], y, x
    # while-some-level-lacks:  any(nf < k N)   or   not all(k N <= nf)
    cnt = lambda t: contains(t, lambda z: z.op == "call" and last(str(z.args[0])) == "n_finished")
    if neg:
        o, x, y = {"<": "<=", "<=": "<"}[o], y, x
    if cnt(x) and contains(y, N) and o in ("<", "<="):
        form = "lacks"
    elif cnt(y) and contains(x, N) and o in ("<", "<="):
        form = "has"
    else:
        ctx.und("wait@condition", e.where(), show(c, 7))
        return
    good = form == "lacks" and agg == "any" and p or form == "has" and agg == "all" and not p
    ctx.req(good, "wait@condition", e.where(), "polling goes on while any asked level lacks finished samples; found %s%s" % ("" if p else "not ", show(c, 7)))
    side, need = (x, y) if form == "lacks" else (y, x)
    ctx.req(contains(side, items) == contains(need, items), "wait@levels", e.where(), "finished and scheduled numbers of the same levels; found %s" % show(q, 7))
    k = sym("fin_sample_coef")
    if k is not NONE and "fin_sample_coef" in ps:
        ctx.req(contains(need, k) and not contains(side, k), "wait@share", e.where(), "the asked share of the scheduled numbers; found %s" % show(q, 7))
    again = [z for z in nf if z.loops and z.loops[0][2] == e.loops[0][2]]
    ctx.req(bool(again), "wait@refresh", e.where(), "finished numbers are read again after every poll")
