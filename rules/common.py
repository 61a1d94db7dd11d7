"""Shared predicates over value terms and events."""
from sa.terms import *
from sa.terms import T, mk
from sa.interp import guard, flat_guards, Event, dict_items, is_self
from sa.repo import AnchorError


def last(name):
    return name.rsplit(".", 1)[-1].rsplit(":", 1)[-1]


def calls(res, *names):
    """call events whose method / function name (last component) is one of names"""
    evs = res.events if hasattr(res, "events") else res
    return [e for e in evs if e.kind in ("call", "new") and last(e.name) in names]


def conds(e):
    return flat_guards(e.guards)


def inst(t, idx, k):
    """term at loop index value k"""
    return subst(t, {idx: const(k) if not isinstance(k, T) else k})


def guard_at(e, idx, k):
    """True/False/None: do the event's conditions hold at loop index idx = k (as far as they depend on it)"""
    r = True
    for c, p in conds(e):
        if not contains(c, idx):
            continue
        v = inst(c, idx, k)
        if v.op == "const":
            if bool(v.args[0]) != p:
                return False
        else:
            r = None
    return r


def strip_int(t):
    while t.op == "call" and t.args[0] in ("builtins.int", "numpy.int64", "numpy.int_") and len(t.args) == 2:
        t = t.args[1]
    return t


def same_iteration(a, b):
    """both events run in the same iteration of the same loops (a's loop nest is a prefix of b's or equal)"""
    return tuple(x[2] for x in a.loops) == tuple(x[2] for x in b.loops)


def loop_ids(e):
    return tuple(x[2] for x in e.loops)


def extra_conds(e, base):
    """conditions of e that are not among those of base"""
    b = set(conds(base))
    return [c for c in conds(e) if c not in b]


def elementwise(t):
    """push an index through array arithmetic: (a - b)[i] -> a[i] - b[i]"""
    def go(x):
        if x.op == "idx":
            return x
        if x.op == "sub" and x.args[0].op == "bin" and x.args[0].args[0] in "+-*/":
            o, a, b = x.args[0].args
            i = x.args[1]
            f = lambda y: y if y.op == "const" else go(mk("sub", y, i))
            return binop(o, f(a), f(b))
        ch = [go(a) if isinstance(a, T) else a for a in x.args]
        return rebuild(x.op, ch) if any(c is not a for c, a in zip(ch, x.args)) else x
    return go(t)


def closed_form(t, eng, depth=0):
    """Replace loop-carried counters by their closed form  init + step*index."""
    if depth > 6:
        return t
    m = {}
    for x in walk(t):
        if x.op == "mu" and x in eng.loopinfo:
            init, upd, idx, dom = eng.loopinfo[x]
            n = Norm()
            if upd is x:
                m[x] = init
                continue
            # scalar counter
            d = n(mk("bin", "-", upd, x))
            if not contains(d, x):
                m[x] = binop("+", init, binop("*", idx, d)) if d is not const(0) else init
        if x.op == "sub" and x.args[0].op == "mu" and x.args[0] in eng.loopinfo:
            mu, i = x.args
            init, upd, idx, dom = eng.loopinfo[mu]
            if contains(i, idx):
                m[x] = sub(init, i) if _stores_only_at(upd, mu, i) else x
                continue
            v = sub(upd, i)
            d = Norm()(mk("bin", "-", v, x))
            if not contains(d, mu):
                m[x] = binop("+", sub(init, i), binop("*", idx, d)) if not is_const(d, 0) else sub(init, i)
    m = {k: v for k, v in m.items() if v is not k}
    if not m:
        return t
    return closed_form(subst(t, m), eng, depth + 1)


def _stores_only_at(upd, mu, i):
    """the loop body writes only slot i of mu (a different slot in every iteration)"""
    while upd.op in ("store", "fstore"):
        j = upd.args[1] if upd.op == "store" else upd.args[3]
        if j is not i:
            return False
        upd = upd.args[0]
    return upd is mu


def value_at(t, i, eng):
    """t[i] where t is an array value after loops (fstore with accumulation understood)"""
    if t.op == "fstore":
        base, idx, dom, it, v, g = t.args
        if it is i or is_const(it) and it is i:
            b = value_at(base, i, eng)
            if v.op == "accum":
                e = v.args[0]
                if not contains(e, idx) and g is TRUE:
                    return binop("+", b, binop("*", dom, e))
                return None
            return None if contains(v, idx) else v
        if it is idx and i.op == "idx":
            b = value_at(base, i, eng)
            v2 = subst(v, {idx: i})
            if v2.op == "accum":
                return binop("+", b, v2.args[0])
            return v2
        return None
    if t.op == "fold":
        init, m, upd, idx, dom = t.args
        v = sub(upd, i)
        d = Norm()(mk("bin", "-", v, sub(m, i)))
        if not contains(d, m) and not contains(d, idx):
            return binop("+", value_at(init, i, eng) or sub(init, i), binop("*", dom, d))
        return None
    return sub(t, i)


def free(t):
    """leaf symbols (sym / attr chains rooted in sym) of a term"""
    out = set()

    def go(x):
        if x.op == "sym":
            out.add(x)
        elif x.op == "attr":
            out.add(x)
        else:
            for c in children(x):
                go(c)
    go(t)
    return out


def ops_in(t):
    return {x.args[0] for x in walk(t) if x.op == "call"}


def leaves_ite(t):
    """all alternatives of a conditional value with their conditions"""
    out = []

    def go(x, g):
        if x.op == "ite":
            go(x.args[1], g + [guard(x.args[0], True)])
            go(x.args[2], g + [guard(x.args[0], False)])
        else:
            out.append((g, x))
    go(t, [])
    return out


def kwget(t, name):
    for a in t.args:
        if isinstance(a, T) and a.op == "kw" and a.args[0] == name:
            return a.args[1]
    return None


def has_call(t, *names):
    return contains(t, lambda x: x.op == "call" and last(x.args[0]) in names)


def precedes(a, b):
    """every execution of b is preceded by a (a is earlier, in an enclosing or equal loop nest, under no extra condition)"""
    if a.seq >= b.seq:
        return False
    la, lb = loop_ids(a), loop_ids(b)
    if la != lb[:len(la)]:
        return False
    return not extra_conds(a, b)


_NP = {"np": "numpy", "sc": "scipy"}


def term(src, **env):
    """a term written as a Python expression; names come from env"""
    import ast as _ast
    from sa.terms import mk as _mk, const as _const
    ops = {_ast.Add: "+", _ast.Sub: "-", _ast.Mult: "*", _ast.Div: "/", _ast.Pow: "**", _ast.MatMult: "@"}

    def sl(e):
        if isinstance(e, _ast.Slice):
            return _mk("slice", *[go(x) if x is not None else _const(None) for x in (e.lower, e.upper, e.step)])
        if isinstance(e, _ast.Tuple):
            return _mk("tuple", *[sl(x) for x in e.elts])
        return go(e)

    def go(e):
        if isinstance(e, _ast.Name):
            return env[e.id]
        if isinstance(e, _ast.Constant):
            return _const(e.value)
        if isinstance(e, _ast.BinOp):
            return _mk("bin", ops[type(e.op)], go(e.left), go(e.right))
        if isinstance(e, _ast.UnaryOp):
            return _mk("un", "-", go(e.operand))
        if isinstance(e, _ast.Subscript):
            return _mk("sub", go(e.value), sl(e.slice))
        if isinstance(e, _ast.Attribute):
            return _mk("attr", go(e.value), e.attr)
        if isinstance(e, _ast.Call):
            n = _ast.unparse(e.func)
            h, _, t = n.partition(".")
            return _mk("call", _NP.get(h, h) + "." + t if t else n, *([go(a) for a in e.args] + [_mk("kw", k.arg, go(k.value)) for k in e.keywords]))
        raise ValueError(_ast.dump(e))
    return go(_ast.parse(src, mode="eval").body)
