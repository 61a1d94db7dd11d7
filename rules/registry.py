"""Property registry and the context handed to rules."""
from sa.interp import Engine
from sa.terms import show, T

RULES = {}
META = {}


def prop(pid, explanation, assumptions=()):
    def deco(f):
        RULES.setdefault(pid, []).append(f)
        if explanation or pid not in META:
            META[pid] = (explanation, list(assumptions))
        return f
    return deco


class Ctx:
    def __init__(self, pid, prog):
        self.pid, self.prog = pid, prog
        self.obligations = []
        self.functions = set()
        self.n_events = 0
        self.engines = []
        self.explanation, self.assumptions = META[pid]

    # -- verdicts
    def _add(self, status, key, where, detail):
        rule, _, construct = key.partition("@")
        self.obligations.append({"rule": rule, "key": key, "status": status, "where": str(where), "detail": str(detail)[:1500]})

    def ok(self, key, where, detail=""):
        self._add("holds", key, where, detail)

    def bad(self, key, where, detail):
        self._add("violated", key, where, detail)

    def und(self, key, where, detail):
        self._add("undecided", key, where, detail)

    def req(self, cond, key, where, detail, okdetail=""):
        """obligation: cond must hold"""
        if cond:
            self.ok(key, where, okdetail or detail)
        else:
            self.bad(key, where, "NOT SATISFIED: " + detail)
        return bool(cond)

    # -- analysis
    def engine(self, **kw):
        e = Engine(self.prog, **kw)
        self.engines.append(e)
        return e

    def run(self, func, self_cls=None, eng=None, args=None, fields=None, **kw):
        e = eng or self.engine(**kw)
        r = e.run(func, self_cls, args=args, fields=fields)
        self.engines.append(e)
        return r

    def method(self, cls, name):
        c = self.prog.cls(cls) if isinstance(cls, str) else cls
        f = self.prog.method(c, name)
        if f is None:
            from sa.repo import AnchorError
            raise AnchorError("%s.%s" % (c.full, name))
        return f

    def run_method(self, cls, name, **kw):
        c = self.prog.cls(cls) if isinstance(cls, str) else cls
        return self.run(self.method(c, name), c, **kw)


def run(pid, prog):
    import importlib
    import os
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith("r_") and f.endswith(".py"):
            importlib.import_module("rules." + f[:-3])
    if pid not in RULES:
        raise SystemExit("unknown property " + pid)
    ctx = Ctx(pid, prog)
    for f in RULES[pid]:
        try:
            f(ctx)
        except Exception as e:      # a construct the rule cannot follow: not decided, never an alarm
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.und("analysis@" + f.__name__, "%s:%d" % (os.path.basename(tb.filename), tb.lineno), "%s: %s" % (type(e).__name__, e))
    for e in {id(x): x for x in ctx.engines}.values():
        ctx.functions |= e.analysed
        ctx.n_events += len(e.events)
    return ctx
