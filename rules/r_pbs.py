"""PBS pool and worker: job life cycle, file formats, recovery."""
from .registry import prop
from .common import *
import re as _re

PBS = "mlmc.sampling_pool_pbs.SamplingPoolPBS"
JOB = "mlmc.tool.pbs_job.PbsJob"
WP = "mlmc/sampling_pool_pbs.py:SamplingPoolPBS."
WJ = "mlmc/tool/pbs_job.py:PbsJob."
SLF = sym("self")
EMPTY = mk("list")


# ------------------------------------------------------------------------------------------------ helpers
def cont_name(t):
    """identity of a container: '<dict#3>' / 'self._x' whatever loop version of it is given"""
    if t is None:
        return None
    if t.op == "mu":
        m = _re.search(r"c:(.*)$", str(t.args[0]))
        return m.group(1) if m else str(t.args[0])
    if t.op in ("store", "fstore", "fold"):
        return cont_name(t.args[0] if t.op != "fold" else t.args[1])
    if t.op == "ite":
        return cont_name(t.args[1])
    return show(t, 3)


def decide(c):
    """truth value of a condition term, None if unknown"""
    if c.op == "const":
        return bool(c.args[0])
    if c.op in ("list", "tuple", "dict"):
        return bool(c.args)
    if c.op == "not":
        v = decide(c.args[0])
        return None if v is None else not v
    if c.op == "ite":
        v = decide(c.args[0])
        vs = [decide(x) for x in c.args[1:]]
        return vs[0] if v or vs[0] == vs[1] else None if v is None else vs[1]
    if c.op == "cmp" and c.args[0] in ("is", "isnot", "==", "!=") and NONE in c.args[1:] and \
            all(x is NONE or x is mk("sym", "idfile") or x.op == "sub" and x.args[0].op == "call" and x.args[0].args[0] == "re.findall" for x in c.args[1:]):
        return c.args[0] in ("isnot", "!=")
    if c.op == "bool":
        vs = [decide(x) for x in c.args[1:]]
        if c.args[0] == "and":
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    return None


def live(r):
    """events that can happen (not under an empty container, not in an empty loop)"""
    return [e for e in r.events if not any(decide(c) not in (None, p) for c, p in conds(e)) and not any(is_const(d, 0) for _, d, _ in e.loops)]


class Add:
    """one addition to a dict of lists: dict `d`, list under `key`, value, 'append' | 'extend' | 'overwrite'"""

    def __init__(self, ev, d, key, val, mode, extra=(), doms=(), drop=()):
        self.ev, self.d, self.key, self.val, self.mode = ev, d, key, val, mode
        self.conds = [c for c in conds(ev) if c[0] not in drop] + list(extra)
        self.doms = [x[1] for x in ev.loops] + list(doms)
        self.seq = ev.seq

    def where(self):
        return self.ev.where()

    def under(self, m):
        x = Add.__new__(Add)
        x.__dict__.update(self.__dict__)
        x.key, x.val = subst(self.key, m), subst(self.val, m)
        x.conds = [(subst(c, m), p) for c, p in self.conds]
        x.doms = [subst(d, m) for d in self.doms]
        return x

    def other(self, *allowed):
        """conditions apart from the tests whether the level is already in the dictionary and those `allowed`"""
        out = []
        for c, p in self.conds:
            v = decide(c)
            if c.op == "exc" or v == p or c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[1] is self.key and self.mine(c.args[2]):
                continue
            if any(f(c, p) for f in allowed):
                continue
            out.append((c, p))
        return out

    def mine(self, t):
        """the dictionary being filled (or the one its keys come from), not another one"""
        n = cont_name(t)
        if n.startswith("<") and str(self.d).startswith("<"):
            return n == self.d
        return self.key.op == "key" and t is self.key.args[0] or contains(t, lambda y: y.op in ("mu", "obj", "fold", "dict", "store"))

    def possible(self):
        return not any(decide(c) not in (None, p) for c, p in self.conds)


def _split_add(ev, d, key, val, mode):
    if mode == "extend" and val.op == "cat" and len(val.args) == 1 and val.args[0].op == "each":
        idx, dom, part, g = val.args[0].args
        if part.op == "list" and len(part.args) == 1:
            return Add(ev, d, key, part.args[0], "append", [] if g is TRUE else atoms([(g, True)]), [dom], [val, mk("cmp", ">", dim(val), const(0))])
    if mode == "extend" and val.op in ("list", "tuple") and len(val.args) == 1:
        return Add(ev, d, key, val.args[0], "append")
    return Add(ev, d, key, val, mode)


def group_adds(r):
    """additions to dicts of lists"""
    out = []
    sd = None
    evs = live(r)
    for e in evs:
        if e.kind == "call" and last(e.name) == "setdefault" and e.recv is not None:
            sd = e
        if e.kind == "call" and last(e.name) in ("append", "extend") and e.args:
            rv = e.recv
            if rv is not None and rv.op == "sub":
                out.append(_split_add(e, cont_name(rv.args[0]), rv.args[1], e.args[0], last(e.name)))
            elif rv is not None and rv.op in ("list", "cat") and sd is not None and loop_ids(sd) == loop_ids(e):
                out.append(_split_add(e, cont_name(sd.recv), sd.args[0], e.args[0], last(e.name)))
            elif rv is not None and rv.op in ("list", "cat", "ite"):
                si = [x for x in evs if x.kind == "setitem" and x.seq < e.seq and loop_ids(x) == loop_ids(e) and x.args[-1].op == "list"]
                if si:
                    out.append(_split_add(e, cont_name(si[-1].recv), si[-1].args[0], e.args[0], last(e.name)))
        if e.kind == "setitem" and e.recv is not None and len(e.args) == 2 and e.loops and not is_const(e.args[0]):
            k, v = e.args
            d = cont_name(e.recv)
            if v.op in ("list",) and not v.args:
                continue
            old = lambda t: contains(t, lambda y: y.op == "sub" and y.args[1] is k and y.args[0].op in ("mu", "store", "fold", "ite") and cont_name(y.args[0]) == d)
            fresh = any(c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[1] is k and (c.args[0] == "notin") == pol for c, pol in conds(e))
            known = any(c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[1] is k and (c.args[0] == "in") == pol for c, pol in conds(e))
            if v.op == "bin" and v.args[0] == "+" and (old(v.args[1]) or fresh):
                out.append(_split_add(e, d, k, v.args[2], "extend"))
            elif v.op == "cat" and len(v.args) == 2 and v.args[0].op == "spread" and (old(v.args[0]) or fresh):
                x = v.args[1]
                out.append(_split_add(e, d, k, x.args[0] if x.op == "spread" else mk("cat", x) if x.op == "each" else x, "extend"))
            elif fresh and not old(v):
                out.append(_split_add(e, d, k, strip_copy(v), "extend"))
            elif not old(v):
                out.append(Add(e, d, k, v, "overwrite"))
    return out


def other_conds(e, *allowed):
    """conditions of e apart from allowed predicates and 'key in dict' tests on the dictionaries being filled"""
    out = []
    for c, p in conds(e):
        if c.op == "exc":
            continue
        if c.op == "cmp" and c.args[0] in ("in", "notin") and contains(c.args[2], lambda x: x.op == "mu" and str(x.args[0]).startswith("c:<")) and c.args[2].op in ("mu", "fold", "store", "fstore"):
            continue
        if any(f(c, p) for f in allowed):
            continue
        out.append((c, p))
    return out


def path_suffix(t):
    """last literal piece of a path / format term"""
    if t.op == "path":
        return path_suffix(t.args[-1])
    if t.op == "fmt":
        a = t.args[-1]
        if isinstance(a, T) and a.op == "const":
            a = a.args[0]
        return a if isinstance(a, str) else None
    if t.op == "const":
        return t.args[0]
    return None


def opened(t):
    """path of the file an expression reads from"""
    for x in walk(t):
        if x.op == "call" and x.args[0] == "builtins.open":
            return x.args[1]
    return None


def exists_cond(c, p):
    return p and c.op == "call" and c.args[0] in ("os.path.exists", "os.path.isfile")


def loads(r, suffix):
    out = []
    for e in r.events:
        if e.kind == "call" and last(e.name) in ("load", "safe_load", "unsafe_load", "full_load") and e.args:
            p = opened(e.args[0])
            s = path_suffix(p) if p is not None else None
            if isinstance(s, str) and s.endswith(suffix):
                out.append(e)
    return out


def from_load(x, suffix):
    p = opened(x)
    s = path_suffix(p) if p is not None else None
    return isinstance(s, str) and s.endswith(suffix)


def row(t):
    """(rows term, index, column) of  rows[i][c]"""
    if t.op == "sub" and t.args[1].op == "const" and t.args[0].op == "sub" and t.args[0].args[1].op == "idx":
        return t.args[0].args[0], t.args[0].args[1], t.args[1].args[0]
    return None


SUC, FAI, TIM, SCH = "_successful_results.yaml", "_failed_results.yaml", "_times.yaml", "_scheduled.yaml"


# ------------------------------------------------------------------------------------------------ P01
@prop("P01", "Value-flow of collecting a finished job: every row of the job's success and failure files is reported under its level, every scheduled sample of the job "
      "found in neither is reported as failed (three membership cases), the job's id file and running id are dropped with it, and no id list is modified while it is iterated.",
      ["YAML round-trips the rows", "qstat -x lists the finished jobs"])
def p01(ctx):
    read_results(ctx)
    collect_job(ctx)
    qstat(ctx)


def rest_of_row(t):
    """row[1:] of a row of three items"""
    x = t.args[1] if t.op == "call" and t.args[0] == "builtins.tuple" and len(t.args) == 2 else t
    if x.op == "sub" and x.args[1].op == "slice" and is_const(x.args[1].args[0], 1) and (x.args[1].args[1] is NONE or is_const(x.args[1].args[1], 3)) and x.args[1].args[2] is NONE \
            and x.args[0].op == "sub" and row(sub(x.args[0], const(1))) is not None:
        return tup(sub(x.args[0], const(1)), sub(x.args[0], const(2)))
    return t


@prop("P01", "", [])
def p01_worker(ctx):
    """outcomes are stored once: what the worker writes twice would be returned twice"""
    n = len(ctx.obligations)
    try:
        p03(ctx)
    finally:
        ctx.obligations[n:] = [o for o in ctx.obligations[n:] if o["key"].split("@")[0] in ("worker-id", "worker-level", "worker-row", "worker-value", "worker-parts", "worker-append")
                               or o["key"] in ("worker@once", "worker@saved-each", "worker@all", "worker@every-sample")]


def read_results(ctx):
    r = ctx.run_method(JOB, "read_results")
    w = WJ + "read_results"
    adds = group_adds(r)
    v = r.eng.deref(r.value, r.state)
    if v.op != "tuple" or len(v.args) != 3:
        ctx.bad("read@returned", w, "must return (successful, failed, times): %s" % show(v))
        return
    slots = []
    for x in v.args:
        slots.append({cont_name(y) for y in walk(x) if y.op == "mu"})
    jid, jd = sym("job_id"), sym("jobs_dir")
    exist = lambda f: {x: TRUE for a in adds for t in [a.key, a.val] + [c for c, _ in a.conds] + a.doms for x in walk(t)
                       if x.op == "call" and x.args[0] in ("os.path.exists", "os.path.isfile") and isinstance(path_suffix(x.args[1]), str) and path_suffix(x.args[1]).endswith(f)}
    for i, (sfx, nm) in enumerate(((SUC, "successful"), (FAI, "failed"), (TIM, "times"))):
        mine = [a.under(exist(sfx)) for a in adds if from_load(a.val, sfx)]
        mine = [a for a in mine if a.possible()]
        if not mine:
            if not loads(r, sfx) and not contains(v, lambda x: x.op == "call" and x.args[0] == "builtins.open" and from_load(x, sfx)):
                ctx.bad("read@%s" % nm, w, "file *%s of the job is not read" % sfx)
            else:
                ctx.und("read@%s" % nm, w, "rows not resolved")
            continue
        m_ = exist(sfx)
        for a in mine:
            k, val, mode = a.key, rest_of_row(a.val), a.mode
            rk = row(k)
            key = "read@%s" % nm
            good = rk is not None and rk[2] == 0 and val.op == "tuple" and len(val.args) == 2 and mode == "append" and \
                all(row(x) is not None and row(x)[0] is rk[0] and row(x)[1] is rk[1] and row(x)[2] == c for x, c in zip(val.args, (1, 2)))
            ctx.req(good, key, a.where(), "row (level, id, value) must be reported as (id, value) under its level; found key %s value %s (%s)" % (show(k), show(val), mode))
            oc = a.other()
            ctx.req(not oc, "all-" + key, a.where(), "every row of the file is reported; extra conditions %s" % [show(c) for c, _ in oc])
            if rk is not None:
                ctx.req(bool(a.doms) and subst(rk[1].args[0], m_) is dim(rk[0]), "all-rows@%s" % nm, a.where(), "all rows are visited: %s" % show(rk[1].args[0]))
                p = opened(rk[0])
                ctx.req(p is not None and contains(p, jid) and contains(p, jd), "own-file@%s" % nm, a.where(), "the file of this job is read: %s" % (p and show(p)))
            ctx.req(a.d in slots[i], "slot@%s" % nm, a.where(), "%s rows must be returned in position %d" % (nm, i))
    # missing samples
    miss = [a for a in adds if a.val.op == "tuple" and len(a.val.args) == 2 and from_load(a.val.args[0], SCH) and not from_load(a.val.args[0], SUC)]
    if not miss:
        ctx.bad("missing@reported", w, "scheduled samples of a finished job without any outcome are not reported as failed")
        return
    for a in miss:
        k, val = a.key, a.val
        rk, rs = row(k), row(val.args[0])
        ctx.req(rk is not None and rs is not None and rk[2] == 0 and rs[2] == 1 and rk[0] is rs[0] and rk[1] is rs[1], "missing@row", a.where(),
                "scheduled row is (level, id, seed): key %s id %s" % (show(k), show(val.args[0])))
        msg = val.args[1]
        ctx.req(msg.op != "const" or bool(msg.args[0]), "missing@message", a.where(), "message must be non-empty")
        ctx.req(a.d in slots[1], "missing@slot", a.where(), "missing samples are failed ones")
        if rs is None:
            continue
        ctx.req(rs[1].args[0] is dim(rs[0]), "missing@all", a.where(), "all scheduled samples are examined: %s" % show(rs[1].args[0]))
        sid = val.args[0]
        for c, p in a.conds:
            for y in walk(c):
                if y.op == "each" and y.args[2].op == "list" and len(y.args[2].args) == 1:
                    for _, el in leaves_ite(y.args[2].args[0]):
                      if el.op == "sub" and is_const(el.args[1]) and not (row(el) is not None and from_load(row(el)[0], SCH)):
                          ctx.req(is_const(el.args[1], 0), "missing@ids", a.where(), "outcomes are compared by the sample ids, the first items of the pairs: %s" % show(y))
        for insuc in (False, True):
            for infai in (False, True):
                feas = True
                unknown = None
                for c, p in a.conds:
                    t = member_case(c, sid, insuc, infai, r.eng, k)
                    if t is None:
                        if not (c.op == "exc" or c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[1] is k):
                            unknown = c
                        continue
                    if t != p:
                        feas = False
                if unknown is not None and feas:
                    (ctx.und if contains(unknown, sid) and not (unknown.op == "bool" and unknown.args[0] == "and") else ctx.bad)("missing@cond", a.where(), "missing samples are reported only if %s" % show(unknown))
                else:
                    want = not insuc and not infai
                    ctx.req(feas == want, "missing@case-%d%d" % (insuc, infai), a.where(),
                            "a sample %s the success file and %s the failure file must %sbe reported as missing" % ("in" if insuc else "not in", "in" if infai else "not in", "" if want else "not "))


def member_case(c, sid, insuc, infai, eng, level):
    """truth of a membership condition in the case (in success file, in failure file); None: not such a condition"""
    if c.op == "bool":
        vs = [member_case(x, sid, insuc, infai, eng, level) for x in c.args[1:]]
        if any(v is None for v in vs):
            return None
        return all(vs) if c.args[0] == "and" else any(vs)
    if c.op == "not":
        v = member_case(c.args[0], sid, insuc, infai, eng, level)
        return None if v is None else not v
    if c.op == "call" and c.args[0] in ("builtins.any", "builtins.all") and len(c.args) == 2:
        # any(sid == outcome[0] for …)  /  all(sid != outcome[0] for …)
        o = "==" if c.args[0] == "builtins.any" else "!="
        ea = [y for y in walk(c.args[1]) if y.op == "each"]
        if len(ea) != 1 or not is_const(ea[0].args[3], True) or ea[0].args[2].op != "list" or len(ea[0].args[2].args) != 1:
            return None
        q = ea[0].args[2].args[0]
        if q.op != "cmp" or q.args[0] != o or sid not in q.args[1:]:
            return None
        x = q.args[2] if q.args[1] is sid else q.args[1]
        if any(not (y.op == "sub" and is_const(y.args[1], 0)) for _, y in leaves_ite(x)):
            return None
        c = mk("cmp", "in" if o == "==" else "notin", sid, mk("list", x, ea[0].args[1]))
    if c.op != "cmp" or c.args[0] not in ("in", "notin") or c.args[1] is not sid:
        return None
    src = expand_mus(c.args[2], eng)
    s = any(from_load_term(x, SUC) for x in src)
    f = any(from_load_term(x, FAI) for x in src)
    if not s and not f:
        return None
    # ids are the first items of the reported pairs
    v = s and insuc or f and infai
    return v if c.args[0] == "in" else not v


def expand_mus(t, eng):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        for y in walk(x):
            if y in seen:
                continue
            seen.add(y)
            out.append(y)
            if y.op == "mu" and y in eng.loopinfo:
                todo += [eng.loopinfo[y][0], eng.loopinfo[y][1]]
    return out


def from_load_term(x, sfx):
    return x.op == "call" and x.args[0] == "builtins.open" and isinstance(path_suffix(x.args[1]), str) and path_suffix(x.args[1]).endswith(sfx)


def run_finished(ctx, **kw):
    return ctx.run_method(PBS, "get_finished", opaque={"PbsJob.read_results", "PbsJob.get_job_n_running", "SamplingPoolPBS.execute"}, **kw)


def idfiles(t):
    """lookups of a job's id file in a term"""
    return [x for x in walk(t) if x.op == "call" and x.args[0] in ("glob.glob", "glob.iglob") or x.op == "occ" and x.args[0].op == "call" and x.args[0].args[0] in ("glob.glob", "glob.iglob")]


def found_map(ts):
    """assume the id file is there: every lookup gives one file"""
    m = {}
    for t in ts:
        for x in idfiles(t):
            m[x] = mk("list", mk("sym", "idfile"))
    return {k: v for k, v in m.items() if not any(o is not k and contains(o, k) for o in m)}


QSTAT = (("Job id            Name             User              Time Use S Queue\n"
          "----------------  ---------------- ----------------  -------- - -----\n"
          "1234.meta-pbs     MLMC_flow        user1             00:10:05 F q_2h\n"
          "1235.meta-pbs     MLMC_flow        user1             00:00:07 R q_2h\n"
          "1236.meta-pbs     MLMC_flow        user1                    0 Q q_2h\n"
          "10237.meta-pbs    MLMC_2           user1                    0 H q_2h\n"
          "10238.meta-pbs    MLMC_2           user1             12:00:00 F q_1d\n"
          "10239.meta-pbs    MLMC_2           user1             00:00:00 F q_1d\n", ["1234", "10238", "10239"]),
         ("17436.isrv1       test_job         user2             00:00:01 F charon\n", ["17436"]),
         ("17437.isrv1       test_job         user2             00:00:01 E charon\n", []),
         ("18001.meta-pbs.me* MLMC_base        Fiala             00:00:10 R q_2h\n"
          "18002.meta-pbs.me* F_long           Fiala             12:01:55 F q_4h\n"
          "18003.meta-pbs.me* MLMC_base        user1                    0 H F_queue\n", ["18002"]))


def finished_list(ctx, r, F, at):
    """the ids taken as finished are all those marked F in the output of qstat"""
    todo, seen = [F], set()
    while todo:
        x = todo.pop(0)
        if x in seen:
            continue
        seen.add(x)
        y = r.eng.deref(x, r.state)
        if y.op == "ite":
            todo += [z for _, z in leaves_ite(y)]
            continue
        x = strip_copy(y)
        if x.op in ("list", "tuple") and not x.args:
            continue
        if x.op == "call" and x.args[0] == "re.findall" and is_const(x.args[1]):
            try:
                got = [_re.findall(x.args[1].args[0], text) for text, _ in QSTAT]
            except Exception as ex:
                ctx.bad("finished@parsed", at, "pattern %r: %s" % (x.args[1].args[0], ex))
                continue
            ctx.req(got == [w for _, w in QSTAT], "finished@parsed", at, "ids of all jobs in state F are the finished ones: pattern %r takes %s from lines in the qstat layout" % (x.args[1].args[0], got))
        elif x.op == "sub" and x.args[1].op == "slice" and has_call(x, "findall", "finditer", "splitlines", "split"):
            ctx.bad("finished@all", at, "a part of the finished jobs only: %s" % show(x))
        elif x is attr(SLF, "_pbs_ids"):
            ctx.bad("finished@parsed", at, "all watched jobs are taken as finished without qstat saying so")
        else:
            ctx.und("finished@parsed", at, "finished jobs not resolved: %s" % show(x))


NAMES = (("0000_1", "0000"), ("0012_34567", "0012"), ("12345_9", "12345"))


def job_of_file(ctx, J, at):
    """the job number is the part of the id file's name before the underscore"""
    f = mk("sym", "idfile")
    for g, x in leaves_ite(J):
        if x.op == "sub" and is_const(x.args[1]) and x.args[0].op == "call" and x.args[0].args[0] == "re.findall" and is_const(x.args[0].args[1]) and contains(x.args[0].args[2], f):
            pat, i = x.args[0].args[1].args[0], x.args[1].args[0]
            try:
                ok = all(_re.findall(pat, n)[i] == j for n, j in NAMES)
            except Exception:
                ok = False
            ctx.req(ok, "collect@job-number", at, "job number of the id file <job>_<pbs id>: pattern %r" % pat)
        elif is_const(x):
            continue
        elif contains(x, f):
            if x.op == "sub" and has_call(x.args[0], "split", "partition") and is_const(x.args[1]):
                ctx.req(x.args[1].args[0] == 0, "collect@job-number", at, "job number is the first part of the id file's name: %s" % show(x))
            elif x.op == "call" and x.args[0] in (".lstrip", ".strip") and len(x.args) == 3 and is_const(x.args[2]) and "0" in str(x.args[2].args[0]) or x.op == "call" and x.args[0] == "builtins.int":
                ctx.bad("collect@job-number", at, "the files of the job carry the zero-padded number: %s" % show(x))
            else:
                ctx.und("collect@job-number", at, "job number not resolved: %s" % show(x))
        else:
            ctx.bad("collect@job-number", at, "job number must come from the id file: %s" % show(x))


def id_pattern(ctx, e, at, key):
    """id file is looked up as *_<pbs id> exactly"""
    for x in [y for a in e for y in idfiles(a) if y.op == "call"]:
        t = x.args[1]
        if t.op == "path":
            t = t.args[-1]
        if t.op == "bin" and t.args[0] == "+":
            parts = flat_text(t)
        elif t.op == "fmt":
            parts = list(t.args)
        else:
            ctx.und(key, at, "lookup of the id file not resolved: %s" % show(x))
            continue
        txt = [(y if isinstance(y, str) else str(y.args[0])) if isinstance(y, str) or y.op == "const" else y for y in parts]
        txt = [y for y in txt if y != ""]
        ok = len(txt) >= 2 and not isinstance(txt[-1], str) and isinstance(txt[-2], str) and txt[-2].endswith("_")
        ctx.req(ok, key, at, "the id file of a job is the one whose name ends in _<pbs id>: pattern %s finds files of other jobs" % show(t))


def collect_job(ctx):
    r = run_finished(ctx, fields={"_unfinished_sample_ids": EMPTY})
    w = WP + "get_finished"
    evs = live(r)
    rr = [e for e in evs if e in calls(r, "read_results")]
    for e in rr:
        for tid, names in e.tries:
            if not any(n.split(".")[-1].strip("() ") in ("Exception", "BaseException", "") for n in names):
                continue
            hn = [x for x in r.events if x.kind in ("call", "setattr", "setitem", "raise") and x.name != "builtins.print" and x is not e
                  and any(contains(c, lambda y: y.op == "exc" and y.args[0] == tid) and p for c, p in conds(x))]
            if not hn:
                ctx.bad("result@read-error", e.where(), "the samples of a finished job whose files cannot be read are dropped silently: neither success nor failure is reported and the job is no longer watched")
    if not ctx.req(bool(rr), "collect@read", w, "results of finished jobs are read"):
        return
    v = r.eng.deref(r.value, r.state)
    if v.op != "tuple" or len(v.args) != 4:
        ctx.bad("collect@returned", w, "must return (successful, failed, running, times)")
        return
    adds = group_adds(r)
    other_lookup = lambda c, p: contains(c, lambda x: x.op == "call" and x.args[0] in ("os.path.exists", "os.listdir", "os.scandir"))
    for e in rr:
        R = e.result
        m = found_map([t for t in list(e.args) + [c for c, _ in conds(e)]])
        cs = [(subst(c, m), p) for c, p in conds(e)]
        odd = [c for c, p in cs if c.op != "exc" and decide(c) != p and not other_lookup(c, p)]
        ctx.req(not odd, "collect@every-job", e.where(), "every finished job with an id file is read; extra conditions %s" % [show(c) for c in odd])
        for c, p in cs:
            if decide(c) is None and other_lookup(c, p):
                ctx.und("collect@every-job", e.where(), "condition not resolved: %s" % show(c))
        job_of_file(ctx, subst(e.args[0], m), e.where())
        id_pattern(ctx, list(e.args) + [c for c, _ in conds(e)], e.where(), "collect@id-file")
        if e.loops and e.loops[0][1].op in ("dim", "ite"):
            for g, d in leaves_ite(e.loops[0][1]):
                if d.op == "dim":
                    finished_list(ctx, r, d.args[0], e.where())
        ctx.req(len(e.loops) == 1, "collect@each-job", e.where(), "results of a job are read once per finished job")
        for i, nm in ((0, "successful"), (1, "failed")):
            D = sub(R, const(i))
            mine = [a.under(m) for a in adds if contains(a.val, D)]
            if not mine:
                if contains(v.args[i], D):
                    ctx.und("collect@%s" % nm, e.where(), "merge not resolved: %s" % show(v.args[i]))
                else:
                    ctx.bad("collect@%s" % nm, e.where(), "%s samples of a finished job are not returned" % nm)
                continue
            D = subst(D, m)
            for a in mine:
                k, val, mode = a.key, pair_of(a.val), a.mode
                base = k.args[0] if k.op == "key" else None
                good = base is D and (mode == "extend" and strip_copy(val) is sub(D, k) or
                                      mode == "append" and val.op == "sub" and strip_copy(val.args[0]) is sub(D, k) and val.args[1].op == "idx" and val.args[1].args[0] is dim(sub(D, k)))
                ctx.req(good, "collect@%s" % nm, a.where(), ("samples of jobs collected before are overwritten: " if mode == "overwrite" else "") +
                        "all %s samples of a level are returned under that level; key %s value %s" % (nm, show(k), show(val)))
                oc = a.other(other_lookup)
                ctx.req(not oc, "collect-all@%s" % nm, a.where(), "extra conditions %s" % [show(c) for c, _ in oc])
                names = {cont_name(y) for y in walk(v.args[i]) if y.op == "mu"} | {cont_name(v.args[i])}
                ctx.req(a.d in names, "collect-slot@%s" % nm, a.where(), "%s samples must be returned in position %d" % (nm, i))
        times_of(ctx, r, e, sub(R, const(2)))
        # the id file goes with the job, after its results were read
        rm = [x for x in evs if x.kind == "call" and x.name in ("os.remove", "os.unlink") and same_iteration(x, e)]
        for x in rm:
            ctx.req(x.seq > e.seq, "idfile@after-read", x.where(), "id file is removed before the results of the job are read")
            t = subst(x.args[0], m) if x.args else NONE
            ctx.req(not any(y.op == "list" for _, y in leaves_ite(t)), "idfile@path", x.where(), "the id file is removed: %s is a list of files" % show(x.args[0]))
            mm = found_map([c for c, _ in conds(x)])
            dead = [c for c, p in conds(x) if c.op != "exc" and decide(subst(c, mm)) == (not p)]
            ctx.req(not dead, "idfile@removed", x.where(), "id file of a collected job must be removed; skipped under %s" % [show(c) for c in dead])
        ctx.req(bool(rm), "idfile@removed", e.where(), "id file of a collected job must be removed")


def pair_of(t):
    """(x[0], x[1]) is x for pairs"""
    if t.op == "tuple" and len(t.args) == 2 and all(y.op == "sub" and is_const(y.args[1], i) for i, y in enumerate(t.args)) and t.args[0].args[0] is t.args[1].args[0]:
        return t.args[0].args[0]
    return t


def times_of(ctx, r, e, D):
    """per level the last cumulative (time, count) row of the job is added"""
    w = e.where()
    sets = [x for x in r.events if x.kind == "setitem" and contains(x.args[-1], D)]
    if not sets:
        ctx.bad("times@merge", w, "times of finished jobs are not reported")
        return
    n = Norm()
    seen = 0
    summed = set()
    for x in sets:
        val = x.args[1]
        k = [y for y in walk(val) if y.op == "key" and y.args[0] is D]
        if not k:
            continue
        lastrow = sub(sub(D, k[0]), const(-1))
        if is_const(x.args[0]) and x.args[0].args[0] in (0, 1):
            i = x.args[0].args[0]
            rest = n(binop("-", val, sub(lastrow, const(i))))
            ctx.req(not contains(rest, D) or not contains(rest, lastrow), "times@sum-%d" % i, x.where(), "the job's last cumulative %s must be added: %s" % (("time", "count")[i], show(val)))
            known = [p for c, p in conds(x) if c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[1] is k[0] and (c.args[0] == "in") == p]
            if is_const(rest) and known:
                ctx.bad("times@kept-%d" % i, x.where(), "the %s of the level's samples of jobs collected before is replaced: %s" % (("time", "count")[i], show(val)))
            seen += 1
            summed.add(i)
        elif x.args[0] is k[0]:
            ctx.req(strip_copy(val) is lastrow or val.op in ("list", "tuple") and len(val.args) == 2 and all(val.args[i] is sub(lastrow, const(i)) or contains(val.args[i], sub(lastrow, const(i))) for i in (0, 1)),
                    "times@first", x.where(), "the job's last cumulative (time, count) row is taken: %s" % show(val))
            seen += 1
    if not seen:
        ctx.und("times@merge", w, "merge of times not resolved")
    if len(summed) == 1:
        ctx.bad("times@both", w, "both the time and the number of samples of the job are added; only the %s is" % ("time", "number")[summed.pop()])


def strip_copy(t):
    while True:
        if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "spread":
            t = t.args[0].args[0]
        elif t.op == "call" and t.args[0] in ("builtins.list", "builtins.tuple", "copy.copy") and len(t.args) == 2:
            t = t.args[1]
        elif t.op == "sub" and t.args[1].op == "slice" and all(x is NONE or i == 0 and is_const(x, 0) for i, x in enumerate(t.args[1].args)):
            t = t.args[0]
        else:
            return t


MUTATE = {"remove", "pop", "append", "insert", "extend", "clear", "discard", "add", "popitem"}


def iter_mutations(r):
    """containers modified while they are being iterated"""
    out = []
    for e in r.events:
        if e.kind == "call" and last(e.name) in MUTATE and e.callee is not None or e.kind == "delitem":
            for idx, dom, inst in e.loops:
                raw = r.eng.iterraw.get(inst)
                if raw is None:
                    continue
                base = raw
                while base.op == "call" and base.args[0] in ("builtins.enumerate", ".items", ".keys", ".values") and len(base.args) == 2:
                    base = base.args[1]
                if base is e.callee:
                    out.append(e)
    return out


def qstat(ctx):
    r = run_finished(ctx, fields={"_unfinished_sample_ids": EMPTY})
    w = WP + "get_finished"
    ids = attr(SLF, "_pbs_ids")
    for e in iter_mutations(r):
        ctx.bad("iterate@modify", e.where(), "%s is modified while it is iterated: the next element is skipped" % show(e.callee))
    ctx.ok("iterate@checked", w, "%d events" % len(r.events))
    # which ids stay
    rm = [e for e in r.events if e.kind == "call" and last(e.name) in ("remove", "discard") and e.callee is ids]
    st = [e for e in r.events if e.kind == "setattr" and e.name == "_pbs_ids"]
    fin = lambda c: c.op == "cmp" and c.args[0] in ("in", "notin")

    def own_ids(t):
        t = strip_copy(t)
        return t is ids or t.op == "mu" and "_pbs_ids" in str(t.args[0]) or t.op == "obj" and r.eng.deref(t, r.state) is ids
    for e in rm:
        x = e.args[0]
        ok = False
        oc = []
        # the ids reported by qstat are gone through
        lv = [strip_copy(y.args[0]) for g, y in leaves_ite(x) if y.op == "sub"]
        if e.loops and any(y.op == "call" and y.args[0] in ("re.findall", "re.finditer") for y in lv) and not any(own_ids(y) for y in lv):
            ok = True
        for c, p in conds(e):
            if fin(c) and c.args[1] is x and (c.args[0] == "in") == p and has_call(c.args[2], "findall", "finditer", "split"):
                ok = True
            elif fin(c) and c.args[1] is x and (c.args[0] == "in") == p and own_ids(c.args[2]):
                pass
            elif c.op != "exc":
                oc.append(c)
        ctx.req(ok, "drop@finished-only", e.where(), "an id leaves the watched jobs only when qstat reports it finished; removed under %s" % [show(c) for c, _ in conds(e)])
        ctx.req(not oc, "drop@all-finished", e.where(), "every finished id leaves the watched jobs; extra conditions %s" % [show(c) for c in oc])
        for idx, dom, inst in e.loops[-1:]:
            ctx.req(dom is dim(ids) or dom.op == "dim" and strip_copy(dom.args[0]) is ids or has_call(dom, "findall"), "drop@each", e.where(), "all watched ids are examined")
    for e in st:
        t = e.args[0]
        ea = [y for y in walk(t) if y.op == "each"]
        if len(ea) == 1:
            idx, dom, part, g = ea[0].args
            el = part.args[0] if part.op == "list" and len(part.args) == 1 else None
            good = g.op == "cmp" and g.args[0] == "notin" and g.args[1] is el and el is not None and contains(el, ids)
            ctx.req(good, "drop@finished-only", e.where(), "ids kept are those not finished: %s" % show(t))
        elif t.op in ("list",) and not t.args:
            pass
        else:
            ctx.und("drop@finished-only", e.where(), "kept ids not resolved: %s" % show(t))
    if not rm and not st:
        ctx.bad("drop@finished-only", w, "finished jobs stay among the watched ids and are collected again (or reported unknown by qstat)")
    # a failing qstat reports no job finished
    q = [e for e in r.events if e.kind == "call" and e.name == "subprocess.run" and e.args and contains(e.args[0], lambda x: is_const(x, "qstat"))]
    for e in q:
        ctx.req(contains(e.args[0], ids), "qstat@ids", e.where(), "all watched ids are asked: %s" % show(e.args[0]))
        R = e.result
        rr = calls(r, "read_results")
        fa = [x for x in r.events if x.kind == "call" and x.name in ("re.findall", "re.finditer") and contains(x.args[1] if len(x.args) > 1 else NONE, mk("attr", R, "stdout")) and not x.loops]
        for x in fa:
            pol = [p for c, p in conds(x) if c.op == "cmp" and contains(c, mk("attr", R, "returncode"))]
            ctx.req(bool(pol), "qstat@checked", x.where(), "output of a failed qstat must not be interpreted")


# ------------------------------------------------------------------------------------------------ P02
@prop("P02", "Event-order and effect analysis of submitting a job: the sample-to-job map and the schedule file of the job are written from the complete pending list before qsub; "
      "the pending list and the job number change only when qsub succeeded; pending and submitted samples are all counted as running; a new pool continues behind every existing job number.",
      ["job files are named <number>_job.sh", "only one pool works in a jobs directory at a time"])
def p02(ctx):
    r = ctx.run_method(PBS, "execute", inline_types={"PbsJob"})
    w = WP + "execute"
    q = [e for e in r.events if e.kind == "call" and e.name.startswith(("subprocess.", "os.system", "os.popen")) and contains_any(e.args, "qsub")]
    if not ctx.req(len(q) == 1, "qsub@once", w, "a job is submitted by one qsub call; found %d" % len(q)):
        return
    q = q[0]
    R = q.result
    sched = attr(SLF, "_scheduled")
    succ_ = lambda c: c.op == "cmp" and contains(c, mk("attr", R, "returncode"))
    # 1. files before qsub
    writes = [e for e in r.events if e.kind == "call" and last(e.name) in ("dump", "write", "safe_dump")]
    jobno = None
    sch = []
    for e in writes:
        f = e.args[1] if last(e.name) in ("dump", "safe_dump") and len(e.args) > 1 else e.recv
        p = opened(f) if f is not None else None
        if p is None:
            continue
        sfx = path_suffix(p)
        if sfx == SCH:
            sch.append(e)
            ctx.req(strip_copy(e.args[0]) is sched, "schedule@complete", e.where(), "the schedule file must hold all pending samples; writes %s" % show(e.args[0]))
            ctx.req(precedes(e, q) or e.seq < q.seq and not [c for c in extra_conds(e, q) if c[0].op != "exc"], "schedule@before-qsub", e.where(), "the schedule file must be written before the job is submitted")
            jobno = p
    ctx.req(bool(sch), "schedule@written", w, "the schedule file of the job is not written")
    mp = [e for e in writes if last(e.name) == "dump" and opened(e.args[1] if len(e.args) > 1 else NONE) is not None and
          isinstance(path_suffix(opened(e.args[1])), str) and path_suffix(opened(e.args[1])).endswith(".json")]
    ctx.req(bool(mp), "map@written", w, "sample-to-job map is not written")
    for e in mp:
        ctx.req(e.seq < q.seq, "map@before-qsub", e.where(), "the sample-to-job map must be written before the job is submitted")
        check_map(ctx, r, e, sched)
    # 2. pending list
    for e in r.events:
        if e.kind == "setattr" and e.name in ("_scheduled", "_n_samples_in_job", "_current_job_weight", "_job_count") and e.recv is SLF or \
                e.kind == "call" and last(e.name) == "clear" and e.callee is sched:
            nm = e.name if e.kind == "setattr" else "_scheduled"
            good = e.seq > q.seq and any(succ_(c) and success_pol(c, p, R) for c, p in conds(e))
            ctx.req(good, "success-only@%s" % nm, e.where(), "%s may change only after a successful qsub" % nm)
    clr = [e for e in r.events if e.kind == "setattr" and e.name == "_scheduled" or e.kind == "call" and last(e.name) == "clear" and e.callee is sched]
    ctx.req(bool(clr), "pending@cleared", w, "submitted samples must leave the pending list (they would be submitted again)")
    for e in clr:
        if e.kind == "setattr":
            v_ = r.eng.deref(e.args[0], e.st or r.state)
            kept = [x for x in walk(v_) if x is sched]
            if kept and v_.op == "sub" and v_.args[1].op == "slice" and not (v_.args[1].args[0].op == "dim" and v_.args[1].args[0].args[0] is sched):
                ctx.bad("pending@emptied", e.where(), "samples of the submitted job stay in the pending list: %s" % show(v_))
    ids = [e for e in r.events if e.kind == "call" and last(e.name) == "append" and e.callee is attr(SLF, "_pbs_ids")]
    ctx.req(bool(ids) and all(contains(e.args[0], R) for e in ids), "watch@appended", w, "the id printed by qsub must be watched")
    for e in ids:
        bad = [c for c, p in conds(e) if not (succ_(c) and success_pol(c, p, R)) and c.op != "exc" and (c, p) not in conds(q)]
        ctx.req(not bad, "watch@always", e.where(), "every submitted job is watched; extra %s" % [show(c) for c in bad])
    waiting(ctx, q, sched)
    jc = [e for e in r.events if e.kind == "setattr" and e.name == "_job_count"]
    ctx.req(bool(jc) and all(Norm().equal(e.args[0], binop("+", attr(SLF, "_job_count"), const(1))) for e in jc), "number@next", w, "next job gets the next number")
    idf = [e for e in r.events if e.kind == "call" and e.name == "builtins.open" and e.seq > q.seq and contains(e.args[0], R)]
    ctx.req(bool(idf), "idfile@written", w, "file <job number>_<pbs id> of the submitted job must be created")
    # job script runs the worker with this job's number
    same = jobno
    for e in idf:
        ctx.req(contains(e.args[0], attr(SLF, "_job_count")), "idfile@job", e.where(), "id file must carry the job number: %s" % show(e.args[0]))
    # 3. running count
    rg = run_finished(ctx, fields={"_unfinished_sample_ids": EMPTY})
    v = rg.eng.deref(rg.value, rg.state)
    if v.op == "tuple" and len(v.args) == 4:
        t = v.args[2]
        ctx.req(contains(t, dim(sched)), "running@pending", WP + "get_finished", "samples waiting for a successful qsub are not finished: running = %s" % show(t))
        jr = calls(rg, "get_job_n_running")
        for e in jr:
            od = [c for c, p in conds(e) if contains(c, lambda x: x.op == "call" and str(x.args[0]).startswith("os.path.get"))]
            ctx.req(not od, "running@each", e.where(), "the samples of every unfinished job are counted; here only if %s" % [show(c, 4) for c in od])
        ctx.req(bool(jr) and any(contains(t, e.result) for e in jr), "running@jobs", WP + "get_finished", "samples of unfinished jobs must be counted: %s" % show(t))
        for y in walk(t):
            if y.op == "fold" and any(contains(y.args[2], e.result) for e in jr):
                lost = [x for _, x in leaves_ite(y.args[2]) if any(contains(x, e.result) for e in jr) and not contains(x, y.args[1])]
                ctx.req(not lost, "running@added", WP + "get_finished", "running samples of all unfinished jobs are added up; the number is replaced by %s" % [show(x, 3) for x in lost])
    rn = ctx.run_method(JOB, "get_job_n_running")
    t = rn.eng.deref(rn.value, rn.state)
    rows_ = strip_copy(t.args[0]) if t.op == "dim" else None
    ctx.req(rows_ is not None and rows_.op == "call" and last(rows_.args[0]) in ("load", "safe_load") and from_load(rows_, SCH), "running@rows", WJ + "get_job_n_running", "running samples of a job are the rows of its schedule: %s" % show(t))
    # 4. job number of a new pool
    ri = ctx.run_method(PBS, "__init__")
    t = ri.field(SLF, "_job_count")
    wi = WP + "__init__"
    if t is None:
        ctx.bad("number@start", wi, "job number is not initialised")
    else:
        leaves = leaves_ite(t)
        for g, x in leaves:
            if is_const(x, 0):
                gl = [c for c in g]
                ctx.req(any(has_call(c, "glob", "listdir", "iglob") for c, p in gl), "number@none", wi, "starts at zero only without existing jobs")
                continue
            n = Norm()
            d = n(binop("-", x, const(1)))
            files = lambda y: has_call(y, "glob", "listdir", "iglob", "scandir")
            mx = [y for y in walk(x) if y.op == "call" and y.args[0] in ("builtins.max", "numpy.max", "numpy.amax") and files(y)]
            part = [y for z in mx for y in walk(z) if y.op == "sub" and y.args[1].op == "slice" and files(y.args[0]) and not contains(y.args[0], lambda q: q.op == "call" and q.args[0] in ("re.findall", "re.search"))]
            run_ = [y for y in (x, d) if y.op == "fold" and len(y.args) == 5 and y.args[2].op == "call" and y.args[2].args[0] in ("builtins.max", "numpy.maximum") and y.args[1] in y.args[2].args and len(y.args[2].args) == 3]
            if run_ and is_const(run_[0].args[0], 0 if run_[0] is x else -1):
                # running maximum of number + 1 from 0, or of the number from -1
                o = [a for a in run_[0].args[2].args[1:] if a is not run_[0].args[1]]
                below = (n(binop("-", o[0], const(1))) if run_[0] is x else o[0]) if len(o) == 1 else None
                if below is not None and below.op == "call" and below.args[0] == "builtins.int" and files(below):
                    ctx.ok("number@start", wi, "one more than the largest existing number")
                else:
                    ctx.und("number@start", wi, "first job number not resolved: %s" % show(x))
            elif part:
                tail = all(is_const(y.args[1].args[0]) and isinstance(y.args[1].args[0].args[0], int) and y.args[1].args[0].args[0] < 0 and y.args[1].args[1] is NONE for y in part)
                (ctx.und if tail else ctx.bad)("number@start", wi, "all existing jobs must be considered, not %s" % [show(y, 4) for y in part])
            elif any(d is n(y) for y in mx):
                ctx.ok("number@start", wi, "one more than the largest existing number")
            elif mx and all(len(y.args) == 2 and y.args[0] == "builtins.max" and strip_copy(y.args[1]).op in ("call", "occ") and files(y)
                            and last(str((strip_copy(y.args[1]).args[0] if strip_copy(y.args[1]).op == "call" else strip_copy(y.args[1]).args[0].args[0]))) in ("glob", "iglob", "listdir") for y in mx):
                ctx.bad("number@start", wi, "the largest file name in alphabetical order is not the one of the largest number (9999_job.sh comes after 10000_job.sh): %s" % show(x))
            elif mx:
                below = [n(binop("-", x, y)) for y in mx]
                if any(is_const(y) and y.args[0] < 1 for y in below):
                    ctx.bad("number@start", wi, "the first job number must exceed every existing one: %s" % show(x))
                else:
                    ctx.und("number@start", wi, "first job number not resolved: %s" % show(x))
            elif d.op in ("fold", "last", "mu") or x.op in ("fold", "last", "mu") or contains(d, lambda y: y.op in ("fold", "last", "mu")):
                ctx.und("number@start", wi, "first job number not resolved: %s" % show(x))
            elif d.op == "call" and d.args[0] == "builtins.int" and has_call(d, "sorted") and not mx:
                ctx.und("number@start", wi, "last of sorted names: %s" % show(x))
            else:
                ctx.bad("number@start", wi, "the first job number must exceed every existing one: %s" % show(x))
            for m in mx:
                ea = [y for y in walk(m) if y.op == "each"]
                if ea:
                    ctx.req(all(y.args[3] is TRUE for y in ea), "number@all-files", wi, "all job files count")
                for y in ea:
                    for z in walk(y.args[2]):
                        if z.op == "sub" and is_const(z.args[1]) and z.args[0].op == "call" and z.args[0].args[0] == "re.findall" and is_const(z.args[0].args[1]):
                            try:
                                ok = all(_re.findall(z.args[0].args[1].args[0], f)[z.args[1].args[0]] == j for f, j in
                                         (("/w/jobs/0000_job.sh", "0000"), ("/w/1_job.sh/jobs/0012_job.sh", "0012"), ("/w12/jobs/12345_job.sh", "12345")))
                            except Exception:
                                ok = False
                            ctx.req(ok, "number@parsed", wi, "number of a job file: pattern %r" % z.args[0].args[1].args[0])
    # 5. adding a sample
    rs = ctx.run_method(PBS, "schedule_sample", opaque={"SamplingPoolPBS.execute"})
    ap = [e for e in rs.events if e.kind == "call" and last(e.name) == "append" and e.callee is sched or
          e.kind == "setattr" and e.name == "_scheduled" and e.args[0].op in ("cat", "bin") and contains(e.args[0], sched)]
    ctx.req(len(ap) == 1 and not [c for c in conds(ap[0]) if c[0].op != "exc" and not contains(c[0], lambda x: x.op == "call")] , "pending@added", WP + "schedule_sample", "every sample joins the pending list once")
    for nm in sorted(ctx.prog.cls(PBS).methods):
        if nm in ("__init__", "execute"):
            continue
        try:
            rm_ = ctx.run_method(PBS, nm, opaque={"SamplingPoolPBS.execute", "PbsJob.read_results", "PbsJob.get_job_n_running", "PbsJob.job_id_from_sample_id"})
        except Exception:
            continue
        reached = nm in called_by_execute(ctx)
        for e in rm_.events:
            gone = e.kind == "setattr" and e.name == "_scheduled" and e.recv is SLF and not contains(e.args[0], sched) or \
                e.kind == "call" and last(e.name) in ("clear", "pop", "remove") and e.callee is sched or e.kind == "delitem" and e.callee is sched
            if gone and not reached:
                ctx.bad("pending@kept", e.where(), "%s drops pending samples: only a successful submission may do so" % nm)
    ctx.ok("pending@kept", WP + "schedule_sample", "no other method drops pending samples")
    cnt = [e for e in rs.events if e.kind == "setattr" and e.name == "_n_samples_in_job"]
    ctx.req(bool(cnt) and Norm().equal(cnt[0].args[0], binop("+", attr(SLF, "_n_samples_in_job"), const(1))), "pending@counted", WP + "schedule_sample", "number of samples in the job grows by one")
    for e in calls(rs, "execute"):
        ctx.req(bool(ap) and e.seq > ap[0].seq, "pending@before-submit", e.where(), "the sample joins the list before the job is submitted")
    # the pool asks for submission of the rest before collecting
    rx = ctx.run_method(PBS, "get_finished", opaque={"SamplingPoolPBS.execute", "PbsJob.read_results", "PbsJob.get_job_n_running"})
    ex = calls(rx, "execute")
    ctx.req(bool(ex) and not conds(ex[0]), "pending@flushed", WP + "get_finished", "collecting submits the pending samples first")


def waiting(ctx, q, sched):
    """fields which decide whether a job is submitted are not reset by scheduling: a package whose submission failed is submitted later"""
    used = {y.args[1] for c, _ in conds(q) for y in walk(c) if y.op == "attr" and y.args[0] is SLF} | {"_scheduled"}
    rs = ctx.run_method(PBS, "schedule_sample", opaque={"SamplingPoolPBS.execute"})
    for e in rs.events:
        if e.kind == "setattr" and e.name in used:
            v = rs.eng.deref(e.args[0], rs.state)
            reset = is_const(v, 0) or v.op in ("list", "tuple") and not v.args or v is NONE
            ctx.req(not reset, "pending@kept-%s" % e.name, e.where(), "%s is reset although the submission may have failed: the pending samples are not submitted by the next attempt" % e.name)


def called_by_execute(ctx):
    r = ctx.run_method(PBS, "execute", inline_types={"PbsJob"})
    return {f.rsplit(".", 1)[-1] for f in (getattr(r.eng, "entered", None) or helpers_of(ctx.method(PBS, "execute")))}


def helpers_of(f):
    """names of the pool's own methods called in f"""
    import ast
    return {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}


def contains_any(args, s):
    return any(contains(a, lambda x: is_const(x, s)) for a in args)


def success_pol(c, p, R):
    """condition c with polarity p means 'return code is zero'"""
    rc = mk("attr", R, "returncode")
    z, nz = subst(c, {rc: const(0)}), subst(c, {rc: const(1)})
    return z.op == "const" and nz.op == "const" and bool(z.args[0]) == p and bool(nz.args[0]) != p


def has_dim(c):
    return any(x.op in ("dim", "len") for x in walk(c))


def map_parts(t, r):
    """the maps a map is put together from; later ones override"""
    if t.op == "obj":
        d = r.eng.deref(t, r.state)
        return [t] if d is t else map_parts(d, r)
    if t.op == "mut" and len(t.args) == 1:
        return map_parts(t.args[0], r)
    if t.op == "call" and t.args[0] in (".update", "dict.update") and len(t.args) == 3:
        return map_parts(t.args[1], r) + map_parts(t.args[2], r)
    if t.op == "call" and t.args[0] in ("builtins.dict", ".copy", "copy.copy", "copy.deepcopy") and len(t.args) == 2:
        return map_parts(t.args[1], r)
    if t.op == "bin" and t.args[0] == "|":
        return map_parts(t.args[1], r) + map_parts(t.args[2], r)
    if t.op == "store" and len(t.args) == 3:
        return map_parts(t.args[0], r) + [t.args[2]]
    if t.op == "fstore":
        return map_parts(t.args[0], r) + [mk("fstore", mk("dict"), *t.args[1:])]
    return [t]


def check_map(ctx, r, e, sched):
    """the dumped map is the old map plus every pending id"""
    t = e.args[0]
    up = [x for x in r.events if x.kind == "call" and last(x.name) == "update" and x.seq < e.seq]
    src = list(expand_mus(t, r.eng))
    for x in up:
        src += [y for a in x.args for y in walk(a)]
    src += [z for y in src if y.op == "obj" for z in expand_mus(r.eng.deref(y, r.state), r.eng)]
    for g, leaf in leaves_ite(t):
        ps = map_parts(leaf, r)
        new = [k for k, y in enumerate(ps) if contains(y, sched)]
        old = [k for k, y in enumerate(ps) if has_call(y, "load") and not contains(y, sched)]
        if new and old:
            ctx.req(max(old) < max(new), "map@override", e.where(), "a sample scheduled again is mapped to its new job: the entries of earlier jobs must not replace those of this one: %s" % show(leaf, 6))
    ctx.req(any(y is sched or contains(y, sched) for y in src), "map@all-pending", e.where(), "all pending samples are mapped to the job: %s" % show(t))
    ctx.req(any(y.op == "call" and last(y.args[0]) == "load" for y in src), "map@kept", e.where(), "entries of earlier jobs must be kept: %s" % show(t))
    for cs, leaf in leaves_ite(t):
        got = list(expand_mus(leaf, r.eng)) + [y for x in up for a in x.args for y in walk(a)]
        got += [z for y in got if y.op == "obj" for z in expand_mus(r.eng.deref(y, r.state), r.eng)]
        loaded = any(y.op == "call" and last(y.args[0]) == "load" for y in got)
        absent = any(c.op == "exc" or any(has_call(c, n) for n in ("exists", "isfile", "is_file")) and not has_call(c, "load") for c, _ in cs)
        if loaded or absent:
            continue
        sized = any(c.op in ("<", "<=", "cmp", "lt", "le") and has_call(c, "load") and has_dim(c) for c, _ in cs)
        (ctx.bad if sized else ctx.und)("map@kept", e.where(), "entries of earlier jobs are dropped when %s: %s" % ([(show(c), p) for c, p in cs], show(leaf)))
    # ids are column 1 of the rows
    cols = {row(y)[2] for y in src if row(y) is not None and row(y)[0] is sched}
    if cols:
        ctx.req(cols == {1}, "map@ids", e.where(), "sample ids are the second column of the pending rows; used %s" % cols)
    parts = [y for y in src if y.op == "sub" and y.args[1].op == "slice" and contains(y.args[0], sched)]
    ctx.req(not parts, "map@whole", e.where(), "a part of the pending samples only: %s" % [show(p) for p in parts])


# ------------------------------------------------------------------------------------------------ P03
@prop("P03", "Writer/reader agreement of every file shared by master and worker: file name pattern, directory and row layout of the value written and of the value read are matched "
      "field by field; the worker's rows per sample are (level, id, value) of the sample it calculated, saved inside the same iteration.",
      ["YAML, JSON and pickle round-trip the written values"])
def p03(ctx):
    # class file
    r = ctx.run_method(JOB, "create_job", inline_types={"PbsJob"})
    w = WJ + "create_job"
    fields = []
    path = None
    for e in r.events:
        if e.kind == "call" and last(e.name) == "write":
            path = opened(e.recv) or path
            fields += flat_text(e.args[0])
    rc = ctx.run_method(JOB, "create_process", inline_types={"PbsJob"})
    wc = WJ + "create_process"
    P = {n: sym(n) for n in ("output_dir", "jobs_dir", "job_id", "level_sim_file", "debug")}
    order = []
    cur = []
    for x in fields:
        if isinstance(x, str):
            for ch in x:
                if ch == ";":
                    order.append(cur)
                    cur = []
                else:
                    cur.append(ch)
        else:
            cur.append(x)
    new = [e for e in rc.events if e.kind == "new" and "PbsJob" in e.name]
    got = None
    if new:
        f = ctx.method(JOB, "__init__").params()[1:]
        got = {p: new[0].arg(i, p) for i, p in enumerate(f)}
    else:
        v = rc.eng.deref(rc.value, rc.state)
        if v.op == "obj" or rc.value is not None:
            got = {n: rc.state.heap.get(("f", rc.value, "_" + n)) for n in P}
            got = {k: (rc.eng.deref(x, rc.state) if x is not None else None) for k, x in got.items()}
    if not order or got is None or any(got.get(n) is None for n in P):
        ctx.und("class-file@fields", w, "writer fields %s reader %s" % (order, got and {k: v and show(v) for k, v in got.items()}))
    else:
        for n in ("jobs_dir", "level_sim_file", "debug"):
            t = got[n]
            ix = [x for x in walk(t) if x.op == "sub" and x.args[1].op == "const" and isinstance(x.args[1].args[0], int) and has_call(x.args[0], "split")]
            if not ix:
                ctx.und("class-file@%s" % n, wc, "field not resolved: %s" % show(t))
                continue
            i = ix[0].args[1].args[0]
            wr = order[i] if 0 <= i < len(order) else None
            ok = wr is not None and len(wr) == 1 and contains(wr[0], P[n])
            ctx.req(ok, "class-file@%s" % n, wc, "worker reads field %d as %s; the master writes there %s" % (i, n, wr and [show(x) if isinstance(x, T) else x for x in wr]))
        t = got["debug"]
        ix = [x for x in walk(t) if x.op == "sub" and x.args[1].op == "const" and has_call(x.args[0], "split")]
        if ix:
            a = subst(t, {ix[0]: const("True")})
            b = subst(t, {ix[0]: const("False")})
            if a.op == "const" and b.op == "const":
                ctx.req(a.args[0] is True and b.args[0] is False, "class-file@debug-value", wc, "debug must be read back as the written truth value")
            else:
                ctx.bad("class-file@debug-value", wc, "text %s is not turned back into the truth value" % show(t))
    # worker rows
    rj = ctx.run_method(JOB, "calculate_samples")
    wj = WJ + "calculate_samples"
    cal = calls(rj, "_calculate")
    rows_term = None
    sched_loads = loads(rj, SCH)
    ctx.req(bool(sched_loads), "worker@schedule", wj, "the worker reads the schedule file of its job")
    dumps = [e for e in rj.events if e.kind == "call" and last(e.name) == "dump"]
    kinds = {}
    for e in dumps:
        p = opened(e.args[1]) if len(e.args) > 1 else None
        sfx = path_suffix(p) if p is not None else None
        if isinstance(sfx, str):
            for s in (SUC, FAI, TIM):
                if sfx.endswith(s):
                    kinds.setdefault(s, []).append((e, p))
    for s, nm in ((SUC, "successful"), (FAI, "failed"), (TIM, "times")):
        if not ctx.req(s in kinds, "worker@%s" % nm, wj, "the worker writes file *%s" % s):
            continue
        for e, p in kinds[s]:
            ctx.req(contains(p, attr(SLF, "_job_id")) and contains(p, attr(SLF, "_jobs_dir")), "worker-file@%s" % nm, e.where(), "file of this job in the jobs directory: %s" % show(p))
            mode = [x for x in walk(e.args[1]) if x.op == "call" and x.args[0] == "builtins.open"]
            m = mode[0].args[2] if mode and len(mode[0].args) > 2 else None
            if m is not None and m.op == "kw":
                m = m.args[1]
            ctx.req(m is not None and is_const(m) and str(m.args[0]).startswith("a"), "worker-append@%s" % nm, e.where(), "results of earlier samples must be kept: opened with %s" % (m and show(m)))
            if not e.loops:
                continue
            rws = [y for y in expand_mus(e.args[0], rj.eng) if y.op == "tuple" and len(y.args) == 3]
            for y in rws:
                lev, a, b = y.args
                if nm == "times":
                    continue
                sid = row(a)
                ctx.req(sid is not None and sid[2] == 1 and from_load(sid[0], SCH), "worker-id@%s" % nm, e.where(), "row carries the scheduled sample's id: %s" % show(y))
                if sid is not None:
                    lv = [row(x) for x in expand_mus(lev, rj.eng) if row(x) is not None]
                    ctx.req(any(x[2] == 0 and x[0] is sid[0] for x in lv), "worker-level@%s" % nm, e.where(), "row carries the scheduled sample's level: %s" % show(lev))
                    ctx.req(all(x[1] is sid[1] for x in lv), "worker-row@%s" % nm, e.where(), "level and id come from the same row")
                if nm == "successful":
                    ok = cal and b.op == "tuple" and len(b.args) == 2 and all(contains(b.args[i], cal[0].result) and
                                                                             contains(b.args[i], lambda z: z.op == "sub" and is_const(z.args[1], i)) for i in (0, 1))
                    ctx.req(ok, "worker-value@successful", e.where(), "value is the (fine, coarse) result: %s" % show(b))
                    if ok:
                        for i in (0, 1):
                            wrong = [z for _, z in leaves_ite(b.args[i]) if z.op == "sub" and is_const(z.args[1], 1 - i) and z.args[0].op == "call" and last(z.args[0].args[0]) == "_calculate"]
                            ctx.req(not wrong, "worker-parts@successful", e.where(), "the %s result is stored in position %d; found the other one: %s" % (("fine", "coarse")[i], i, show(b.args[i], 4)))
    # every sample saved in its own iteration
    for e in cal:
        sv = [x for s in (SUC, FAI) for x, _ in kinds.get(s, []) if x.seq > e.seq and x.loops and e.loops and x.loops[0][2] == e.loops[0][2]]
        ctx.req(len(sv) >= 2, "worker@saved-each", e.where(), "every sample is saved before the next one is calculated")
        if e.loops:
            d = e.loops[0][1]
            ctx.req(d.op == "dim" and from_load(d.args[0], SCH) and not contains(d, lambda x: x.op == "slice"), "worker@all", e.where(), "all scheduled samples are calculated: %s" % show(d))
    base = set(c for e in cal for c in conds(e))
    for e in cal:
        skip = [c for c, p in conds(e) if c.op != "exc" and decide(c) != p and not level_test(c)]
        ctx.req(not skip, "worker@every-sample", e.where(), "every scheduled sample is calculated; skipped under %s" % [show(c) for c in skip])
    saves = [(nm, x) for s, nm in ((SUC, "successful"), (FAI, "failed"), (TIM, "times")) for x, _ in kinds.get(s, []) if x.loops]
    for nm, x in saves:
        data = rj.eng.deref(x.args[0], x.st) if x.st is not None else x.args[0]
        inv = {}
        for mu in {y for y in walk(data) if y.op == "mu" and y in rj.eng.loopinfo}:
            ini, upd = (rj.eng.deref(y, rj.state) for y in rj.eng.loopinfo[mu][:2])
            if ini.op == "list" and not ini.args and upd.op == "list" and not upd.args:
                inv[mu] = ini
        if nm != "times":
            left = [y for y in walk(subst(data, inv)) if y.op == "mu" and y not in inv and ("success" in str(y.args[0]) or "fail" in str(y.args[0]) or str(y.args[0]).startswith("c:<list"))]
            ctx.req(not left, "worker@once", x.where(), "rows of earlier samples are written again with every later sample: %s is not emptied after saving" % [show(y, 2) for y in left])
        for c, p in conds(x):
            if (c, p) in base or c.op == "exc" or level_test(c) or decide(c) == p:
                continue
            own = c is x.args[0] or c in inv or c.op == "mu" and contains(data, c) or c.op == "cmp" and c.args[0] in ("<", ">", "!=", "==") and contains(c, lambda y: y.op == "dim") and \
                decide(subst(c, {y: const(1) for y in walk(c) if y.op == "dim"})) == p and decide(subst(c, {y: const(7) for y in walk(c) if y.op == "dim"})) == p
            own = own or c.op in ("list", "cat", "obj") or contains(data, c)
            if not own:
                ctx.bad("worker@saved-at-once", x.where(), "the outcome of a sample is stored before the next one starts; saving is delayed or skipped under %s" % show(c))
    # simulation of the sample's level
    ld = [e for e in rj.events if e.kind == "call" and e.name.endswith("pickle.load")]
    for e in rj.events:
        if e.kind == "setitem" and len(e.args) == 2 and any(x.result is e.args[1] for x in ld) or \
                e.kind == "call" and last(e.name) == "setdefault" and len(e.args) == 2 and any(x.result is e.args[1] for x in ld):
            k = e.args[0]
            rk = row(k)
            ok = k.op == "attr" and k.args[1] == "_level_id" and any(k.args[0] is x.result for x in ld) or rk is not None and rk[2] == 0
            ctx.req(ok, "level-file@kept", e.where(), "a loaded level simulation is kept under its level; key %s" % show(k))
    for e in cal:
        a_ = e.recv
        if a_ is not None and a_.op == "sub":
            bad_ = [x for g, x in leaves_ite(a_.args[1]) if not (row(x) is not None and row(x)[2] == 0) and not same_level(x, g, a_.args[1])]
            ctx.req(not bad_, "level-file@used", e.where(), "the sample is calculated by the simulation of its level: %s" % show(a_.args[1]))
    # level simulation file
    rs = ctx.run_method(PBS, "schedule_sample", opaque={"SamplingPoolPBS.execute"})
    pk = [e for e in rs.events if e.kind == "call" and e.name.endswith("pickle.dump")]
    wr = [e for e in rs.events if e.kind == "call" and last(e.name) in ("write", "write_bytes") and e.args and e.args[0].op == "call" and str(e.args[0].args[0]).endswith("pickle.dumps")]
    lv = sym("level_sim")
    if not pk and not wr and any(e.kind == "call" and ("pickle" in e.name or last(e.name) in ("write", "write_bytes")) for e in rs.events):
        ctx.und("level-file@written", WP + "schedule_sample", "serialisation of the level simulation not found")
    elif ctx.req(bool(pk or wr), "level-file@written", WP + "schedule_sample", "the level simulation is serialised for the worker"):
        e = (pk or wr)[0]
        what, where_ = (e.args[0], e.args[1] if len(e.args) > 1 else e.kw.get("file", NONE)) if pk else (e.args[0].args[1], e.recv if e.recv is not None else NONE)
        ctx.req(what is lv, "level-file@object", e.where(), "serialised object is the sample's level simulation")
        p = opened(where_)
        lev = attr(lv, "_level_id")
        ctx.req(p is not None and contains(p, lev), "level-file@name", e.where(), "file name carries the level: %s" % (p and show(p)))
        for c, pol in conds(e):
            if c.op == "call" and c.args[0] in ("os.path.exists", "os.path.isfile") and p is not None:
                ctx.req(c.args[1] is p, "level-file@each-level", e.where(), "the level's file is written unless this very file exists; tested %s" % show(c))
            elif c.op == "bool" and any(has_call(x, "exists", "isfile") for x in c.args[1:]):
                rest = [x for x in c.args[1:] if not has_call(x, "exists", "isfile") and not contains(x, lv)]
                ctx.req(not rest or (c.args[0] == "and") != pol, "level-file@each-level", e.where(), "the level's file is written whenever it does not exist; here only if also %s" % [show(x, 4) for x in rest])
            elif c.op != "exc":
                ctx.req(is_const(c) and bool(c.args[0]) == pol or contains(c, lv), "level-file@each-level", e.where(), "the level's file is written whenever it does not exist; here only under %s" % show(c))
        rl = [x for x in rj.events if x.kind == "call" and x.name.endswith("pickle.load")]
        if ctx.req(bool(rl), "level-file@read", wj, "the worker loads the level simulation"):
            p2 = opened(rl[0].args[0])
            ctx.req(p2 is not None and contains(p2, attr(SLF, "_output_dir")) and contains(p, attr(SLF, "_output_dir")), "level-file@dir", rl[0].where(), "both sides use the output directory")
            lvl = [row(y) for y in walk(p2) if row(y) is not None]
            ctx.req(bool(lvl) and all(x[2] == 0 for x in lvl), "level-file@level", rl[0].where(), "file of the sample's level is loaded: %s" % show(p2))
    # the worker is started with (output dir, job number) and reads them in this order
    rp = ctx.run_method(JOB, "create_process", inline_types={"PbsJob"})
    rb = ctx.run_method(PBS, "pbs_common_setting")
    cmd = [x for e in rb.events for a in e.args for x in walk(a) if x.op == "const" and isinstance(x.args[0], str) and "mlmc.tool.pbs_job" in x.args[0]]
    if got is not None and got.get("output_dir") is not None and cmd:
        words = cmd[0].args[0].split("mlmc.tool.pbs_job", 1)[1].split()
        names = [_re.sub(r"[{}]", "", x) for x in words[:2]]
        for n, want in (("output_dir", "output_dir"), ("job_id", "job_name")):
            ix = [x for x in walk(got[n]) if x.op == "sub" and x.args[1].op == "const" and contains(x.args[0], lambda y: y.op in ("ext", "attr") and "argv" in str(y.args))]
            if not ix:
                ctx.und("command@%s" % n, wc, "argument not resolved: %s" % show(got[n]))
                continue
            i = ix[0].args[1].args[0]
            ctx.req(1 <= i <= len(names) and names[i - 1] == want, "command@%s" % n, wc, "the script passes %s; the worker takes argument %d as %s" % (names, i, n))
    else:
        ctx.und("command@args", WP + "pbs_common_setting", "worker command not resolved")
    # job_name placeholder is the job number used for the files
    re_ = ctx.run_method(PBS, "execute", inline_types={"PbsJob"})
    jn = [e for e in re_.events if e.kind == "setitem" and is_const(e.args[0], "job_name")]
    scf = [e for e in re_.events if e.kind == "call" and e.name == "builtins.open" and isinstance(path_suffix(e.args[0]), str) and path_suffix(e.args[0]) == SCH]
    if jn and scf:
        name = jn[-1].args[1]
        pt = scf[0].args[0].args[-1]
        flat = "fmt" == pt.op and name.op == "fmt" and list(pt.args[:-1]) == list(name.args) or contains(pt, name)
        ctx.req(flat, "command@job-number", jn[-1].where(), "script and schedule file must use the same job number: %s vs %s" % (show(name), show(pt)))


def level_test(c):
    """comparison of levels: the assertion about the loaded simulation, or membership of a level among the loaded ones"""
    return c.op == "cmp" and (c.args[0] in ("==", "!=") and contains(c, lambda x: x.op == "attr" and x.args[1] == "_level_id") or
                              c.args[0] in ("in", "notin") and row(c.args[1]) is not None and row(c.args[1])[2] == 0)


def same_level(x, g, t):
    """x is chosen where it equals the level of the sample's row"""
    return x.op == "mu" and any(c.op == "cmp" and c.args[0] in ("==", "!=") and (c.args[0] == "==") == p and x in c.args[1:] and any(row(y) is not None and row(y)[2] == 0 for y in c.args[1:]) for c, p in g)


def worker_times(ctx):
    """rows of the times file are (level, time since the level's first sample started, number of the level's samples so far)"""
    r = ctx.run_method(JOB, "calculate_samples")
    w = WJ + "calculate_samples"
    n = Norm()
    dumps = [e for e in r.events if e.kind == "call" and last(e.name) == "dump" and len(e.args) > 1 and e.loops and from_load(e.args[1], TIM)]
    if not dumps:
        ctx.und("worker-times@rows", w, "times are not written inside the loop")
    for e in dumps:
        data = r.eng.deref(e.args[0], e.st) if e.st is not None else e.args[0]
        rows = []
        todo = [data]
        if data.op == "cat":
            todo = [data.args[-1]]
        for y in todo:
            rows += [z for z in walk(y) if z.op == "tuple" and len(z.args) == 3]
        if not rows:
            ctx.und("worker-times@rows", e.where(), "rows not resolved: %s" % show(data))
            continue
        lev, t, k = rows[-1].args
        conds_ = {y for x in (lev, t, k) for y in walk(x) if y.op == "cmp" and y.args[0] in ("==", "!=") and any(row(z) is not None and row(z)[2] == 0 for z in y.args[1:]) and any(z.op == "mu" for z in y.args[1:])}
        if not [y for x in (t, k) for y in walk(x) if y.op == "mu"]:
            ctx.und("worker-times@rows", e.where(), "times not resolved: %s" % show(rows[-1]))
            continue
        new = {c: const(c.args[0] == "!=") for c in conds_}
        same = {c: const(c.args[0] == "==") for c in conds_}
        ln, tn, kn = (subst(x, new) for x in (lev, t, k))
        ls, ts, ks = (subst(x, same) for x in (lev, t, k))
        ctx.req(row(ln) is not None and row(ln)[2] == 0, "worker-times@level", e.where(), "the row carries the sample's level: %s" % show(ln))
        if contains(kn, lambda y: y.op == "mu"):
            ctx.bad("worker-times@count", e.where(), "number of samples of a level: the first sample of a level counts %s, samples of the previous level included" % show(kn))
        else:
            ctx.req(n.equal(kn, const(1)), "worker-times@count", e.where(), "the first sample of a level counts one: %s" % show(kn))
        mus = [y for y in walk(ks) if y.op == "mu"]
        ctx.req(len(mus) == 1 and n.equal(ks, binop("+", mus[0], const(1))), "worker-times@next", e.where(), "a further sample of the level counts one more: %s" % show(ks))
        if contains(tn, lambda y: y.op == "mu"):
            ctx.bad("worker-times@time", e.where(), "time of a level: at its first sample the time is taken from %s, the previous level's time included" % show(tn))
        else:
            ctx.req(tn.op == "bin" and tn.args[0] == "-" and all(contains(x, lambda y: y.op == "call" and y.args[0].startswith("time.")) for x in tn.args[1:]), "worker-times@time", e.where(),
                    "time since the level's first sample: %s" % show(tn))
        ctx.req(ts.op == "bin" and ts.args[0] == "-" and ts.args[2].op == "mu", "worker-times@total", e.where(), "time since the level's first sample: %s" % show(ts))


def flat_text(t):
    """pieces of a written text"""
    if isinstance(t, str):
        return [t]
    if t.op == "const":
        return [str(t.args[0])]
    if t.op == "fmt":
        out = []
        for a in t.args:
            out += [a] if isinstance(a, str) else flat_text(a)
        return out
    if t.op == "fpart":
        return [t.args[0]]
    if t.op == "bin" and t.args[0] == "+":
        return flat_text(t.args[1]) + flat_text(t.args[2])
    if t.op == "call" and t.args[0] == "builtins.str" and len(t.args) == 2:
        return [t.args[1]]
    return [t]


# ------------------------------------------------------------------------------------------------ P04
@prop("P04", "Value-flow of collecting after a restart: for every unfinished sample the job found in the sample-to-job map is read; each recorded outcome of an unfinished sample is "
      "reported under its level in the right class, at most once (a job-level or a sample-level 'already seen' set guards the append), samples merely missing from a job that may "
      "still run are not reported as failed, and a sample never submitted cannot abort the collection.",
      ["the jobs directory survived the restart", "the message of missing samples is never used by a real failure"])
def p04(ctx):
    # the ids are those the sampler handed over
    rh = ctx.run_method(PBS, "have_permanent_samples")
    t = rh.field(SLF, "_unfinished_sample_ids")
    ids = rh.func.params()[1] if hasattr(rh, "func") and rh.func else "sample_ids"
    wh = WP + "have_permanent_samples"
    src = strip_set(t) if t is not None else None
    ctx.req(src is sym(ids), "ids@stored", wh, "all unfinished ids handed over are kept for collection: %s" % (t and show(t)))

    r = run_finished_rec(ctx)
    w = WP + "get_finished"
    U = attr(SLF, "_unfinished_sample_ids")
    look = calls(r, "job_id_from_sample_id")
    rr = [e for e in calls(r, "read_results") if any(contains(e.args[0], x.result) for x in look)]
    if not ctx.req(bool(look) and bool(rr), "recover@read", w, "results of jobs submitted before the restart are not read"):
        return
    v = r.eng.deref(r.value, r.state)
    if v.op != "tuple" or len(v.args) != 4:
        ctx.bad("recover@returned", w, "must return (successful, failed, running, times)")
        return
    for e in look:
        a = e.args[0]
        ok = a.op == "sub" and a.args[0] is U and a.args[1].op == "idx" and a.args[1].args[0] is dim(U)
        ctx.req(ok, "recover@all-ids", e.where(), "every unfinished id is looked up: %s" % show(a))
        oc = [c for c, p in conds(e) if c.op != "exc" and not (c is U and p) and not seen_cond(c, p, a)]
        ctx.req(not oc, "recover@no-skip", e.where(), "lookup skipped under %s" % [show(c) for c in oc])
    adds = group_adds(r)
    for e in rr:
        R = e.result
        J = [x.result for x in look if contains(e.args[0], x.result)][0]
        sid = [x.args[0] for x in look if x.result is J][0]
        job_seen = False
        el = e.args[0]
        if el is not J and el.op == "sub" and el.args[1].op == "idx":
            # loop over the collected set of jobs
            S = el.args[0]
            uniq = S.op == "asset" or S.op == "call" and S.args[0] in ("builtins.set", "builtins.frozenset") or S.op == "call" and S.args[0] == "builtins.sorted" and S.args[1].op == "asset"
            job_seen = uniq
            ea = [y for y in walk(S) if y.op == "each" and contains(y.args[2], J)]
            nonone = contains(S, lambda y: y.op == "call" and last(y.args[0]) in ("discard", "remove") and y.args[-1] is NONE) or \
                any(none_test(c, J) and none_pol(c, p) for y in ea for c, p in atoms([(y.args[3], True)])) or any(none_test(c, el) and none_pol(c, p) for c, p in conds(e))
            ctx.req(nonone, "recover@submitted", e.where(), "jobs of submitted samples are read; samples without a job are skipped")
            J = el
        oc = []
        for c, p in atoms(conds(e)):
            if c.op == "exc" or c is U and p:
                continue
            if none_test(c, J):
                ctx.req(none_pol(c, p), "recover@submitted", e.where(), "jobs of submitted samples are read")
                continue
            if J is not c and seen_cond(c, p, J):
                job_seen = job_seen or adds_to(r, c, J, e)
                continue
            if c is J:
                continue
            if seen_cond(c, p, sid):
                continue
            oc.append(c)
        ctx.req(not oc, "recover@every-job", e.where(), "a job is read whenever one of its samples is unfinished; extra %s" % [show(c) for c in oc])
        ok = contains(e.args[1], attr(SLF, "_jobs_dir")) if len(e.args) > 1 else False
        ctx.req(ok, "recover@dir", e.where(), "results are read in the jobs directory")
        for i, nm in ((0, "successful"), (1, "failed")):
            D = sub(R, const(i))
            mine = [a for a in adds if contains(a.val, D)]
            if not mine:
                if contains(v.args[i], D):
                    ctx.und("recover@%s" % nm, e.where(), "merge not resolved")
                else:
                    ctx.bad("recover@%s" % nm, e.where(), "%s samples of jobs finished before the restart are not reported" % nm)
                continue
            for ev in mine:
                d, k, val, mode = ev.d, ev.key, pair_of(ev.val), ev.mode
                base = k.args[0] if k.op == "key" else None
                good = base is D and mode == "append" and val.op == "sub" and val.args[0] is sub(D, k) and val.args[1].op == "idx" and val.args[1].args[0] is dim(sub(D, k))
                if not good and mode == "extend" and base is D:
                    ea = [y for y in walk(val) if y.op == "each"]
                    if len(ea) == 1:
                        ctx.und("recover@%s" % nm, ev.where(), "filtered merge %s" % show(val))
                        continue
                ctx.req(good, "recover@%s" % nm, ev.where(), "outcome (id, value) is reported under its level; key %s value %s" % (show(k), show(val)))
                names = {cont_name(y) for y in walk(v.args[i]) if y.op == "mu"} | {cont_name(v.args[i])}
                ctx.req(d in names, "recover-slot@%s" % nm, ev.where(), "%s samples must be returned in position %d" % (nm, i))
                if not good:
                    continue
                rid, rmsg = sub(val, const(0)), sub(val, const(1))
                base_c = set(conds(e))
                mem = seen = msg = False
                oc = []
                for c, p in atoms([x for x in ev.conds if x not in base_c]):
                    if c.op == "exc" or c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[1] is k:
                        continue
                    if c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[1] is rid:
                        if contains(c.args[2], U):
                            mem = (c.args[0] == "in") == p
                            continue
                        if seen_cond(c, p, rid):
                            seen = adds_to(r, c, rid, ev)
                            continue
                    if i == 1 and contains(c, rmsg) and c.op == "cmp" and c.args[0] in ("==", "!=") and any(is_const(x) for x in c.args[1:]):
                        msg = (c.args[0] == "!=") == p
                        mt = [x for x in c.args[1:] if is_const(x)][0]
                        continue
                    oc.append(c)
                ctx.req(mem, "recover-unfinished@%s" % nm, ev.where(), "only samples still unfinished are reported (others were stored before the crash)")
                ctx.req(not oc, "recover-all@%s" % nm, ev.where(), "extra conditions %s" % [show(c) for c in oc])
                ctx.req(job_seen or seen, "recover-once@%s" % nm, ev.where(), "several unfinished samples of one job: its outcomes must be reported once")
                if i == 1:
                    if ctx.req(msg, "recover-running@failed", ev.where(), "a sample without recorded outcome may still be running and must not be reported as failed"):
                        ms = missing_message(ctx)
                        ctx.req(ms is not None and ms is mt, "recover-message@failed", ev.where(), "message of missing samples: %s vs %s" % (ms and show(ms), show(mt)))
        times_of(ctx, r, e, sub(R, const(2)))
    # the request is satisfied by one collection: not repeated
    st = [e for e in r.events if e.kind == "setattr" and e.name == "_unfinished_sample_ids"]
    ctx.req(bool(st) and all(e.seq > max(x.seq for x in rr) for e in st), "recover@not-repeated", w, "collected ids must be dropped after their results were read")
    for e in st[-1:]:
        t = strip_set(r.eng.deref(e.args[0], r.state))
        if t.op in ("list", "tuple") and not t.args or t is NONE:
            ctx.ok("recover@emptied", e.where(), "no id is collected twice")
        elif t is U or not contains(t, lambda y: y.op == "sub" and is_const(y.args[1], 0)) or \
                t.op == "bin" and t.args[0] == "-" and t.args[1] is U and fold_base(strip_set(t.args[2])).op == "dict":
            ctx.bad("recover@emptied", e.where(), "ids whose results were collected stay unfinished and are collected again: %s" % show(t))
        else:
            ctx.und("recover@emptied", e.where(), "ids left to collect: %s" % show(t))
    # a sample that was never submitted
    rl = ctx.run_method(JOB, "job_id_from_sample_id")
    x = rl.eng.deref(rl.value, rl.state)
    s0 = sym(ctx.method(JOB, "job_id_from_sample_id").params()[0])
    for g, leaf in leaves_ite(x):
        bare = [y for y in walk(leaf) if y.op == "sub" and y.args[1] is s0]
        if bare:
            safe = any(c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[1] is s0 and (c.args[0] == "in") == p for c, p in g) or all(e.tries for e in look)
            ctx.req(safe, "recover@unsubmitted", WJ + "job_id_from_sample_id", "a sample pending at the crash has no job: the lookup raises KeyError and aborts every collection")
        elif not is_const(leaf):
            ctx.ok("recover@lookup", WJ + "job_id_from_sample_id", show(leaf))
        if not is_const(leaf):
            ctx.req(contains(leaf, s0), "recover@own-job", WJ + "job_id_from_sample_id", "job of the given sample: %s" % show(leaf))
            p = opened(leaf)
            ctx.req(p is not None, "recover@map", WJ + "job_id_from_sample_id", "the map file is read")


def run_finished_rec(ctx):
    return ctx.run_method(PBS, "get_finished", opaque={"PbsJob.read_results", "PbsJob.get_job_n_running", "SamplingPoolPBS.execute", "PbsJob.job_id_from_sample_id"})


def fold_base(t):
    while t.op in ("fold", "ite"):
        t = t.args[0] if t.op == "fold" else t.args[2]
    return t


def strip_set(t):
    while t.op in ("asset",) or t.op == "cat" and len(t.args) == 1 and t.args[0].op == "spread" or t.op == "call" and t.args[0] in ("builtins.set", "builtins.list", "builtins.frozenset") and len(t.args) == 2:
        t = t.args[0] if t.op == "asset" else t.args[0].args[0] if t.op == "cat" else t.args[1]
    return t


def atoms(cs):
    """split conjunctions: (a and b) true, (a or b) false"""
    out = []
    todo = list(cs)
    while todo:
        c, p = todo.pop(0)
        if c.op == "not":
            todo.append((c.args[0], not p))
        elif c.op == "bool" and (c.args[0] == "and" and p or c.args[0] == "or" and not p):
            todo += [(x, p) for x in c.args[1:]]
        else:
            out.append((c, p))
    return out


def none_test(c, J):
    return c.op == "cmp" and c.args[0] in ("is", "isnot", "==", "!=") and J in c.args[1:] and NONE in c.args[1:]


def none_pol(c, p):
    return (c.args[0] in ("is", "==")) != p


def seen_cond(c, p, x):
    """x not in <a container filled by the function>"""
    return c.op == "cmp" and c.args[0] in ("in", "notin") and c.args[1] is x and (c.args[0] == "notin") == p and \
        contains(c.args[2], lambda y: y.op == "mu" and str(y.args[0]).startswith("c:<"))


def adds_to(r, c, x, e):
    """the container of condition c receives x whenever e happens"""
    nm = {cont_name(y) for y in walk(c.args[2]) if y.op == "mu"}
    for a in r.events:
        if a.kind == "call" and last(a.name) in ("add", "append") and a.args and a.args[0] is x and a.recv is not None and \
                nm & {cont_name(y) for y in walk(a.recv) if y.op == "mu"}:
            return True
    return False


def missing_message(ctx):
    r = ctx.run_method(JOB, "read_results")
    for a in group_adds(r):
        val = a.val
        if val.op == "tuple" and len(val.args) == 2 and from_load(val.args[0], SCH) and not from_load(val.args[0], SUC):
            return val.args[1]
    return None


@prop("S15", "")
def s15_jobs(ctx):
    """times of collected jobs"""
    r = run_finished(ctx, fields={"_unfinished_sample_ids": EMPTY})
    evs = live(r)
    for e in calls(r, "read_results"):
        if e in evs:
            times_of(ctx, r, e, sub(e.result, const(2)))
