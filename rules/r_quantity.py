"""Quantity arithmetic, selection, structure (QType layout), indexing and the evaluation cache."""
import itertools
from .registry import prop
from .common import *
from sa.ixform import Ix, Arr, Unk, SizeErr, ONE

QQ = "mlmc.quantity.quantity."
QT = "mlmc.quantity.quantity_types."
Q = QQ + "Quantity"
QC = QQ + "QuantityConst"
QS = QQ + "QuantityStorage"
QM = QQ + "QuantityMean"
W = "mlmc/quantity/quantity.py:"
WT = "mlmc/quantity/quantity_types.py:"
SLF = sym("self")
X, Y, Z = sym("$X"), sym("$Y"), sym("$Z")
M, N, P, L = (sym("#" + x) for x in "MNPL")


def arr(name, *dims):
    return Arr(dims, lambda ix: mk("el", name, *ix))


def news(t, r):
    """alternatives of a returned value: (conditions, term)"""
    return leaves_ite(r.eng.deref(t, r.state))


def is_new(t, *classes):
    return t.op == "new" and t.args[0].rsplit(".", 1)[-1] in classes


def ops_of(q):
    return kwget(q, "operation"), kwget(q, "input_quantities"), kwget(q, "quantity_type")


def in_list(ctx, r, t):
    """items of a list / tuple value"""
    t = r.eng.deref(t, r.state)
    while t.op == "call" and t.args[0] in ("builtins.list", "builtins.tuple") and len(t.args) == 2:
        t = r.eng.deref(t.args[1], r.state)
    if t.op in ("list", "tuple"):
        return list(t.args)
    if t.op == "cat" and all(a.op == "list" for a in t.args):
        return [y for a in t.args for y in a.args]
    if t.op == "cat" and len(t.args) == 1 and t.args[0].op == "spread":
        return in_list(ctx, r, t.args[0].args[0])
    return None


def reordered(t):
    """a call that puts literal items into an order that depends on their values"""
    for y in walk(t):
        if y.op == "call" and y.args[0] in ("builtins.sorted", "builtins.set", "builtins.frozenset", "numpy.sort") and y.args[1].op in ("list", "tuple") and len(set(y.args[1].args)) > 1:
            return y
    return None


def apply_op(r, op, args):
    v = r.eng.call(op, list(args), {}, r.state, None)
    return r.eng.deref(v, r.state)


def role(t, other="other"):
    """which operand a term stands for"""
    if t is SLF:
        return X
    if contains(t, sym(other)) and not contains(t, SLF):
        return Y
    return None


BIN = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "mod": "%"}
CMP = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}


def mnp(*names):
    return {n: arr(str(n), M, N, P) for n in names}


@prop("Q01", "Each arithmetic operator of Quantity (direct and reversed), ufunc forwarding, constant wrapping and Quantity.samples is evaluated abstractly; the operation applied to the operands' chunks is compared, as an array denotation, "
      "with the operator applied to the operands in the written order; operands that are plain values become constants of the right type and shape [M,1,1].",
      ["numpy's own arithmetic, broadcasting and ufunc dispatch are trusted"])
def q01(ctx):
    for nm, o in BIN.items():
        for rev in (False, True):
            arithmetic(ctx, "__%s%s__" % ("r" if rev else "", nm), o, rev)
    ufunc(ctx)
    base_type(ctx)
    result_type(ctx)
    storage_quantity(ctx)
    wrap(ctx)
    const_quantity(ctx)
    samples(ctx)


def arithmetic(ctx, dn, o, rev):
    w = W + "Quantity." + dn
    key = "operator@" + dn
    r = ctx.run_method(Q, dn, opaque={"wrap"})
    want = binop(o, Y, X) if rev else binop(o, X, Y)
    nq = 0
    for g, t in news(r.value, r):
        if is_new(t, "Quantity"):
            op, ins, qty = ops_of(t)
            items = in_list(ctx, r, ins) if ins is not None else None
            if items is None or op is None:
                if ins is not None and o not in "+*" and reordered(r.eng.deref(ins, r.state)) is not None:
                    ctx.bad(key, w, "the operands are put into another order by %s" % show(r.eng.deref(ins, r.state), 5))
                else:
                    ctx.und(key, w, "inputs %s" % (show(ins) if ins is not None else "missing"))
                continue
            rl = [role(x) for x in items]
            if None in rl:
                ctx.und(key, w, "operand %s" % [show(x) for x in items])
                continue
            v = apply_op(r, op, rl)
            sem(ctx, key, w, v, want, mnp(X, Y), "samples of the result")
            nq += 1
        elif is_new(t, "QuantityConst"):
            val = kwget(t, "value")
            if val is not None and o not in "+*" and contains(val, lambda y: y.op == "call" and y.args[0] in ("builtins.sorted", "builtins.reversed", "numpy.sort") and contains(y.args[1], lambda z: z.op == "attr" and z.args[1] == "_value")):
                ctx.bad(key + ".const", w, "the operands are put into another order by %s" % show(val, 5))
                continue
            v = subst(val, {attr(SLF, "_value"): X})
            m = {}
            for y in walk(v):
                if y.op == "attr" and y.args[1] == "_value" and role(y.args[0]) is Y:
                    m[y] = Y
            v = subst(v, m)
            sem(ctx, key + ".const", w, v, want, {X: arr("$X", M, ONE, ONE), Y: arr("$Y", M, ONE, ONE)}, "value of the constant result")
        elif t.op in ("raise", "undef") or t is NONE and g:
            continue
        else:
            ctx.und(key, w, "returns %s" % show(t))
    if not nq:
        ctx.und(key, w, "no Quantity is built: %s" % show(r.value))
    # the structure of the result is that of the first operand that is not a constant
    v = r.eng.deref(r.value, r.state)
    for cx, cy in itertools.product((False, True), repeat=2):
        m = {}
        for y in walk(v):
            if y.op == "call" and y.args[0] == "builtins.isinstance" and y.args[2].op == "cls" and last(y.args[2].args[0]) == "QuantityConst":
                ro = role(y.args[1])
                if ro is not None:
                    m[y] = const(cx if ro is X else cy)
        for g, t in leaves_ite(subst(v, m)):
            if cx and cy:
                if is_new(t, "Quantity", "QuantityConst"):
                    ctx.ok(key + ".kind", w, "two constants")
                continue
            if is_new(t, "QuantityConst"):
                if not g:
                    ctx.bad(key + ".kind", w, "a quantity combined with %s becomes a constant" % ("a constant" if cx or cy else "a quantity"))
                else:
                    ctx.und(key + ".kind", w, "depends on %s" % (g[0],))
                continue
            if not is_new(t, "Quantity"):
                continue
            qty = kwget(t, "quantity_type")
            order = [(Y, cy), (X, cx)] if rev else [(X, cx), (Y, cy)]
            first = [a for a, c in order if not c][0]
            got = qtype_role(qty)
            if got is None:
                ctx.und(key + ".type", w, "type %s" % (qty and show(qty)))
            elif not g:
                ctx.req(got is first or not (cx or cy), key + ".type", w, "the result must have the structure of the operand that is not a constant; found %s" % show(qty))


def qtype_role(q):
    if q is not None and q.op == "attr" and q.args[1] == "qtype":
        return role(q.args[0])
    return None


def sem(ctx, key, w, v, want, atoms, what, sizes=()):
    """sizes: atoms with the possible lengths of an axis written out"""
    for g, x in leaves_ite(v):
        try:
            ok, a, b = Ix(atoms).same(x, want)
            if not ok and sizes:
                res = [Ix(s_).same(x, want) for s_ in sizes]
                ok = all(q[0] for q in res)
                if not ok:
                    a, b = next(q for q in res if not q[0])[1:]
        except Unk as u:
            ctx.und(key, w, "%s: %s" % (what, u))
            continue
        ctx.req(ok, key, w, "%s must be %s; found %s" % (what, b, a))


def ufunc(ctx):
    w = W + "Quantity._method"
    A, B, C = sym("$a0"), sym("$a1"), sym("$a2")
    f = ctx.method(Q, "__array_ufunc__")
    names = [a.arg for a in f.node.args.args][1:]
    va = f.node.args.vararg.arg if f.node.args.vararg else None
    ka = f.node.args.kwarg.arg if f.node.args.kwarg else None
    if len(names) != 2 or va is None or ka is None:
        ctx.und("ufunc@signature", w, "signature of __array_ufunc__")
        return
    u, m = sym(names[0]), sym(names[1])
    for k in (1, 2, 3):
        ins0 = (A, B, C)[:k]
        r = ctx.run_method(Q, "__array_ufunc__", opaque={"wrap", "_result_qtype"}, args={va: tup(*ins0)})
        for g, t in news(r.value, r):
            if not is_new(t, "Quantity"):
                ctx.und("ufunc@%d" % k, w, "returns %s" % show(t))
                continue
            op, ins, qty = ops_of(t)
            items = in_list(ctx, r, ins)
            if items is None:
                ctx.und("ufunc@%d" % k, w, "inputs %s" % show(ins))
                continue
            got = [[a for a in ins0 if contains(x, a)] for x in items]
            if not ctx.req(got == [[a] for a in ins0], "ufunc@%d.inputs" % k, w, "input quantities must be the arguments in their order: %s" % [show(x) for x in items]):
                continue
            ch = (X, Y, Z)[:k]
            n0 = len(r.eng.events)
            v = apply_op(r, op, ch)
            ok, why = ufunc_call(r, v, u, m, ch, ka)
            if ok is None:
                ctx.und("ufunc@%d.call" % k, w, why)
            else:
                ctx.req(ok, "ufunc@%d.call" % k, w, "the operation must be ufunc.<method>(*chunks, **kwargs): %s" % why)


def ufunc_call(r, v, u, m, ch, ka):
    """v = getattr(ufunc, method)(chunks..., **kwargs)"""
    for c, t in leaves_ite(v):
        s = show(t)
        if t.op not in ("call", "apply", "dyn"):
            return None, s
        args = [a for a in t.args if isinstance(a, T)]
        pos = []
        star = False
        for a in args:
            if a.op == "kw":
                star |= contains(a, sym(ka)) or contains(a, sym("**" + ka))
            elif a in ch:
                pos.append(a)
            elif contains(a, sym("**" + ka)) or contains(a, sym(ka)):
                star = True
        fn = contains(t, u) and contains(t, m)
        if not fn:
            if t.op == "call" and t.args[0] == "apply" and t.args[1] is u and not any(contains(x, m) for x, _p in c):
                return False, s + " (the method is ignored)"
            return None, s
        if pos != list(ch):
            return False, s
        if not star:
            if t.op == "call" and t.args[0] == "apply" and t.args[1].op == "call" and t.args[1].args[0] == "builtins.getattr":
                return False, s + " (the keyword arguments are ignored)"
            return None, s + " (keyword arguments not seen)"
    return True, show(v)


def base_type(ctx):
    """type of a ufunc result: scalar values if any quantity has them"""
    w = W + "Quantity._get_base_qtype"
    qs = [sym("$q%d" % i) for i in range(3)]
    f = ctx.method(Q, "_get_base_qtype")
    par = [a.arg for a in f.node.args.args if a.arg not in ("self", "cls")]
    if len(par) != 1:
        ctx.und("base@signature", w, "signature")
        return
    for isq in itertools.product((True, False), repeat=2):
        isq = isq + (True,)
        for sc in itertools.product((True, False), repeat=3):
            given = {(q, "isinstance"): {"Quantity"} if i else set() for q, i in zip(qs, isq)}
            for q, b in zip(qs, sc):
                given[(attr(q, "qtype"), "base_qtype")] = mk("new", "mlmc.quantity.quantity_types." + ("ScalarType" if b else "BoolType"), mk("kw", "qtype", q))
            r = ctx.run(f, ctx.prog.cls(Q), args={par[0]: mk("list", *qs)}, given=given)
            v = val(r)
            ls = leaves_ite(v)
            want = "ScalarType" if any(a and b for a, b in zip(isq, sc)) else "BoolType"
            what = ["%s" % (("scalar" if b else "bool") if a else "plain value") for a, b in zip(isq, sc)]
            if len(ls) != 1:
                ctx.und("base@type", w, "for %s: %s" % (what, show(v, 6)))
                continue
            t = ls[0][1]
            if t.op == "new":
                ctx.req(last(t.args[0]) == want, "base@type", w, "values of a function of %s are of %s; found %s" % (what, want, show(t)))
            else:
                ctx.und("base@type", w, "for %s: %s" % (what, show(t, 5)))


def result_type(ctx):
    """the type of a ufunc result has as many items as the evaluated result"""
    w = W + "Quantity._result_qtype"
    qs = [sym("$q%d" % i) for i in range(2)]
    f = ctx.method(Q, "_result_qtype")
    par = [a.arg for a in f.node.args.args if a.arg not in ("self", "cls")]
    if len(par) != 2:
        ctx.und("result@signature", w, "signature")
        return
    r = ctx.run(f, ctx.prog.cls(Q), opaque={"base_qtype", "_get_base_qtype", "samples", "get_quantity_storage", "chunks"}, args={par[1]: mk("list", *qs)})
    t = val(r)
    if not is_new(t, "ArrayType"):
        ctx.und("result@type", w, show(t, 5))
        return
    sh = kwget(t, "shape")
    ev = {y for y in walk(sh) if y.op == "call" and y.args[0] == "apply" and y.args[1] is sym(par[0])}
    if len(ev) != 1:
        ctx.und("result@evaluated", w, show(sh, 5))
        return
    E = next(iter(ev))
    ins = [[i for i, q in enumerate(qs) if contains(a, mk("call", ".samples", q)) or has_samples(a, q)] for a in E.args[2:]]
    ctx.req(ins == [[0], [1]], "result@evaluated", w, "the function is evaluated on the samples of its arguments in their order; found %s" % show(E, 6))
    ix = Ix({E: arr("R", M, N, P)})
    try:
        s_ = simp(sh)
        if s_.op in ("tuple", "list") and len(s_.args) == 1:
            s_ = s_.args[0]
        if s_.op == "sub" and s_.args[1].op == "slice":
            x = [y for y in mk_shape(ix, s_)]
            ctx.req(x == [M], "result@shape", w, "the result has the number of components of the evaluated values; found %s" % show(sh, 5))
        else:
            x = ix.sc(s_)
            ctx.req(x is M, "result@shape", w, "the result has the number of components of the evaluated values; found %s" % show(sh, 5))
    except Unk as u:
        ctx.und("result@shape", w, u)


def mk_shape(ix, t):
    base, sl = t.args
    if base.op == "attr" and base.args[1] == "shape" and all(x is NONE or is_const(x) for x in sl.args):
        dims = [ix.count(d) for d in ix.ev(base.args[0]).dims]
        return dims[slice(*[None if x is NONE else x.args[0] for x in sl.args])]
    raise Unk("shape")


def has_samples(a, q):
    return any(y.op == "call" and last(str(y.args[0])) == "samples" and any(x is q for x in y.args[1:2]) for y in walk(a))


def storage_quantity(ctx):
    """the values of the stored quantity are the pairs of the asked chunk"""
    w = W + "QuantityStorage.samples"
    C = "mlmc.quantity.quantity.QuantityStorage"
    f = ctx.method(C, "samples")
    r = ctx.run_method(C, "samples", opaque={"sample_pairs_level", "sample_pairs"})
    cs = sym(f.params()[1])
    v = val(r)
    for e in r.events:
        if e.kind == "call" and last(e.name) == "sample_pairs":
            ctx.bad("stored@chunk", e.where(), "all collected pairs are read, not those of the chunk")
            return
    es = [e for e in r.events if e.kind == "call" and last(e.name) == "sample_pairs_level"]
    if len(es) != 1 or v is not es[0].result:
        ctx.und("stored@chunk", w, show(v, 5))
        return
    a = list(es[0].args) + list((es[0].kw or {}).values())
    ctx.req(es[0].recv is attr(SLF, "_storage") and a == [cs], "stored@chunk", es[0].where(), "pairs of the asked chunk are read from the storage; found %s" % show(v, 5))
    for m, g in (("chunks", "chunks"), ("level_ids", "get_level_ids"), ("n_collected", "get_n_collected")):
        r = ctx.run_method(C, m, opaque={g})
        es = [e for e in r.events if e.kind == "call" and last(e.name) == g]
        w = W + "QuantityStorage." + m
        if len(es) != 1:
            ctx.und("stored@" + m, w, "no single call of %s" % g)
            continue
        ps = [sym(p) for p in ctx.method(C, m).params()[1:]]
        a = list(es[0].args) + list((es[0].kw or {}).values())
        ok = a == ps[:len(a)] and len(a) == len(ps)
        if val(r) is es[0].result:
            ctx.req(ok and es[0].recv is attr(SLF, "_storage"), "stored@" + m, es[0].where(), "%s of the storage; found %s" % (m, show(val(r), 5)))
        else:
            ctx.und("stored@" + m, w, show(val(r), 5))


def wrap(ctx):
    w = W + "Quantity.wrap"
    v = sym("value")
    r = ctx.run_method(Q, "wrap")
    isq = lambda c: contains(c, lambda y: y.op == "cls" and last(y.args[0]) == "Quantity")
    # a type test is decided for the kinds of values a user can pass
    KINDS = {"quantity": ({"Quantity"}, None), "int": ({"int", "Number", "Integral", "Real"}, "ScalarType"), "float": ({"float", "Number", "Real"}, "ScalarType"),
             "bool": ({"bool", "int", "Number", "Integral", "Real"}, "BoolType"), "list": ({"list"}, "ArrayType"), "array": ({"ndarray"}, "ArrayType")}
    val = r.eng.deref(r.value, r.state)
    for kind, (types, want) in KINDS.items():
        key = "wrap@" + kind
        t = subst_tests(val, v, types)
        while t.op == "ite":
            b = type_test(t.args[0], v, types)
            if b is None:
                break
            t = t.args[1] if b else t.args[2]
        if t.op == "ite":
            ctx.und(key, w, "test %s" % show(t.args[0]))
            continue
        if want is None:
            ctx.req(t is v, key, w, "a quantity must be kept as it is: %s" % show(t))
            continue
        # raises?
        dead = False
        for e in r.events:
            if e.kind == "raise" and all(type_test(c, v, types) is p for c, p in conds(e)):
                dead = True
        if dead:
            ctx.bad(key, w, "a value of kind %s is refused" % kind)
            continue
        if not is_new(t, "QuantityConst"):
            ctx.und(key, w, show(t))
            continue
        qty, val_ = kwget(t, "quantity_type"), kwget(t, "value")
        qty = subst_tests(r.eng.deref(qty, r.state), v, types) if qty is not None else None
        val_ = subst_tests(r.eng.deref(val_, r.state), v, types) if val_ is not None else None
        if qty is None or qty.op != "new":
            ctx.und(key, w, "type %s" % (show(qty) if qty is not None else None))
            continue
        ctx.req(last(qty.args[0]) == want, key + ".type", w, "a %s becomes a constant of %s, found %s" % (kind, want, show(qty)))
        vv = val_
        while vv.op == "call" and vv.args[0] in ("numpy.array", "numpy.asarray", "numpy.asanyarray") and len(vv.args) == 2:
            vv = vv.args[1]
        while vv.op == "obj":
            n = r.eng.deref(vv, r.state)
            if n is vv:
                break
            vv = n
        dt = kwget(vv, "dtype") if vv.op == "call" else None
        if vv is v or dt is None and contains(vv, v):
            ctx.ok(key + ".value", w, "the value is kept: %s" % show(val_))
        elif not contains(vv, v):
            ctx.bad(key + ".value", w, "the value must be kept: %s" % show(val_))
        elif dt.op in ("ext", "const") and last(str(dt.args[0])).startswith(("int", "uint", "bool")):
            ctx.bad(key + ".value", w, "the value must be kept, not cut to %s: %s" % (last(str(dt.args[0])), show(val_)))
        elif dt.op in ("ext", "const") and last(str(dt.args[0])).startswith("float"):
            ctx.ok(key + ".value", w, "the value is kept: %s" % show(val_))
        else:
            ctx.und(key + ".value", w, show(val_))
        if want == "ArrayType":
            shp = kwget(qty, "shape")
            ctx.req(shp is not None and contains(shp, lambda y: y.op == "attr" and y.args[1] == "shape") or shp.op == "call" and last(shp.args[0]) == "shape", key + ".shape", w, "array type must have the shape of the value: %s" % show(shp))


def type_test(c, v, types):
    """truth of a condition built from isinstance tests on v, for a value of the given types"""
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        b = type_test(c.args[0], v, types)
        return None if b is None else not b
    if c.op == "bool":
        bs = [type_test(x, v, types) for x in c.args[1:]]
        if c.args[0] == "and":
            return False if False in bs else None if None in bs else True
        return True if True in bs else None if None in bs else False
    if c.op == "call" and c.args[0] == "builtins.isinstance" and len(c.args) == 3:
        a = c.args[1]
        if a is not v and not contains(a, v):
            return None
        ts = c.args[2].args if c.args[2].op == "tuple" else (c.args[2],)
        names = {last(str(y.args[0])) for y in ts if y.op in ("cls", "ext")}
        if "ndarray" in names and a is not v and a.op == "call":
            return True
        return bool(names & types)
    if c.op == "call" and c.args[0] in ("numpy.isscalar",) and len(c.args) == 2:
        return bool(types & {"int", "float", "bool"})
    return None


def const_quantity(ctx):
    w = W + "QuantityConst.__init__"
    v = sym("value")
    for nm, dims in (("scalar", ()), ("vector", (M,)), ("matrix", (sym("#A"), sym("#B"))), ("const", (M, ONE, ONE))):
        types = {"float"} if not dims else {"ndarray"}
        r = ctx.run_method(QC, "__init__")
        t = r.field(SLF, "_value")
        if t is None:
            ctx.und("const@" + nm, w, "_value not stored")
            continue
        t = r.eng.deref(t, r.state)
        t = subst_tests(t, v, types)
        atoms = {v: arr("v", *dims)}
        try:
            ix = Ix(atoms)
            x = ix.ev(t)
            if nm == "matrix":
                # rows first (C order)
                ok = x.rank == 3 and x.dims[1] is ONE and x.dims[2] is ONE and x.dims[0].op == "merged" and x.dims[0].args == dims
                el = x.fn([sym("k"), const(0), const(0)]) if x.rank == 3 else None
                ok = ok and el is mk("el", "v", mk("unfl", const(0), const(2), sym("k")), mk("unfl", const(1), const(2), sym("k")))
                ctx.req(ok, "const@" + nm, w, "a matrix must be flattened row by row to [M,1,1]: dims %s" % [show(d) for d in x.dims])
                continue
            ok = x.rank == 3 and x.dims[1] is ONE and x.dims[2] is ONE
            if ok:
                el = x.fn([sym("k"), const(0), const(0)])
                want = mk("el", "v", *([] if not dims else [sym("k")] + [const(0)] * (len(dims) - 1)))
                ok = el is want or x.dims[0] is ONE and el is subst(want, {sym("k"): const(0)})
            ctx.req(ok, "const@" + nm, w, "the constant must be stored with shape [M,1,1]: dims %s" % [show(d) for d in x.dims])
        except Unk as u:
            ctx.und("const@" + nm, w, u)
    r = ctx.run_method(QC, "samples")
    t = r.eng.deref(r.value, r.state)
    t = subst(t, {attr(SLF, "_adjust_value"): t})
    ok = t is attr(SLF, "_value")
    if ok:
        ctx.ok("const@samples", W + "QuantityConst.samples", "the stored value for every chunk")
    elif contains(t, lambda y: y.op in ("call", "apply")):
        ctx.und("const@samples", W + "QuantityConst.samples", show(t))
    else:
        ctx.bad("const@samples", W + "QuantityConst.samples", "a constant must return its value for every chunk: %s" % show(t))


def subst_tests(t, v, types):
    m = {}
    for y in walk(t):
        if y.op == "call" and y.args[0] == "builtins.isinstance":
            b = type_test(y, v, types)
            if b is not None:
                m[y] = const(b)
    return subst(t, m) if m else t


def samples(ctx):
    w = W + "Quantity.samples"
    A, B, C = sym("$A"), sym("$B"), sym("$C")
    for k in (1, 2, 3):
        ins = (A, B, C)[:k]
        r = ctx.run_method(Q, "samples", fields={"_input_quantities": mk("list", *ins)})
        t = r.eng.deref(r.value, r.state)
        if t.op != "call" or not t.args[0].endswith("_operation"):
            ctx.und("samples@%d" % k, w, show(t))
            continue
        args = [a for a in t.args[1:] if isinstance(a, T) and a is not SLF]
        good = len(args) == k
        for a, b in zip(args, ins):
            good = good and a.op == "call" and last(a.args[0]) == "samples" and a.args[1] is b and len(a.args) == 3 and a.args[2].op == "sym"
        ctx.req(good, "samples@%d" % k, w, "the operation must get the same chunk of every input in order: %s" % show(t))


# ---------------------------------------------------------------------------------------------------------- helpers
def simp(t):
    """literal lists: keys / values of literal dictionaries, columns of literal tables, flattening, positions"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        ch = [go(a) if isinstance(a, T) else a for a in x.args]
        y = rebuild(x.op, ch) if any(c is not a for c, a in zip(ch, x.args)) else x
        y = step(y)
        memo[x] = y
        return y

    def step(y):
        if y.op == "call" and len(y.args) == 2 and isinstance(y.args[1], T):
            n, a = y.args
            if n in (".keys", ".values") and a.op == "dict":
                return mk("list", *a.args[0 if n == ".keys" else 1::2])
            if n == ".items" and a.op == "dict":
                return mk("list", *[tup(k, v) for k, v in zip(a.args[::2], a.args[1::2])])
            if n in ("builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", ".tolist", "builtins.iter") and a.op in ("list", "tuple"):
                return mk("list", *a.args)
            if n in (".flatten", ".ravel", "numpy.ravel") and a.op == "list" and all(b.op in ("list", "tuple") for b in a.args):
                return mk("list", *[z for b in a.args for z in (b.args if not any(c.op in ("list", "tuple") for c in b.args) else step(mk("call", n, mk("list", *b.args))).args)])
            if n in (".flatten", ".ravel", "numpy.ravel") and a.op == "list":
                return a
        if y.op == "call" and y.args[0] == ".index" and len(y.args) == 3 and y.args[1].op in ("list", "tuple") and y.args[2] in y.args[1].args:
            return const(y.args[1].args.index(y.args[2]))
        if y.op == "cat" and all(a.op == "list" or a.op == "spread" and a.args[0].op in ("list", "tuple") for a in y.args):
            return mk("list", *[z for a in y.args for z in (a.args if a.op == "list" else a.args[0].args)])
        if y.op == "sub" and y.args[0].op in ("list", "tuple") and y.args[1].op == "tuple" and len(y.args[1].args) == 2:
            b, (i, j) = y.args[0], y.args[1].args
            if i.op == "slice" and i.args == (NONE, NONE, NONE) and j.op == "const" and all(z.op in ("list", "tuple") for z in b.args):
                return mk("list", *[sub(z, j) for z in b.args])
        if y.op == "dim" and y.args[0].op in ("list", "tuple"):
            return const(len(y.args[0].args))
        if y.op == "dim" and y.args[0].op == "dict":
            return const(len(y.args[0].args) // 2)
        if y.op == "ite" and y.args[0].op == "exc" and y.args[1].op == "ite" and y.args[1].args[0].op == "part":
            # with the exception the name is undefined
            return y.args[2]
        return y
    return go(t)


def val(r):
    return simp(r.eng.deref(r.value, r.state))


# ---------------------------------------------------------------------------------------------------------- selection
@prop("Q02", "Comparison operators: array denotation of the mask compared with 'every component, fine and coarse, satisfies the relation'; select: denotation of the applied operation, conjunction of all conditions, "
      "type test of the conditions; constructor: truth table of its refusal over the selection identifiers of up to three inputs.",
      ["numpy's boolean indexing is trusted"])
def q02(ctx):
    for nm, o in CMP.items():
        dn = "__%s__" % nm
        w = W + "Quantity." + dn
        key = "compare@" + dn
        r = ctx.run_method(Q, dn, opaque={"wrap"})
        n = 0
        for g, t in news(r.value, r):
            if not is_new(t, "Quantity"):
                if t.op not in ("raise", "undef"):
                    ctx.und(key, w, "returns %s" % show(t))
                continue
            op, ins, qty = ops_of(t)
            items = in_list(ctx, r, ins) if ins is not None else None
            rl = [role(x) for x in items] if items else [None]
            if None in rl:
                ctx.und(key, w, "operands %s" % (ins and show(ins)))
                continue
            v = apply_op(r, op, rl)
            want = mk("call", "numpy.all", mk("cmp", o, X, Y), mk("kw", "axis", tup(const(0), const(2))))
            n += 1
            sem(ctx, key, w, v, want, mnp(X, Y), "mask", [{a: arr(show(a), M, N, const(i)) for a in (X, Y)} for i in (1, 2)])
            isb = lambda y: y.op in ("new", "cls") and last(y.args[0]) == "BoolType"
            b = all(contains(x, isb) for _, x in leaves_ite(qty)) if qty is not None else False
            ctx.req(b, key + ".type", w, "the mask must have BoolType: %s" % (qty and show(qty)))
        if not n:
            ctx.und(key, w, "no mask is built")
    select(ctx)
    selection_ids(ctx)


def select(ctx):
    w = W + "Quantity.select"
    va = ctx.method(Q, "select").node.args.vararg
    if va is None:
        ctx.und("select@signature", w, "signature")
        return
    for k in (1, 2, 3):
        ms = [sym("$m%d" % i) for i in range(k)]
        r = ctx.run_method(Q, "select", args={va.arg: tup(*ms)})
        key = "select@%d" % k
        for g, t in news(r.value, r):
            if not is_new(t, "Quantity"):
                ctx.und(key, w, "returns %s" % show(t))
                continue
            op, ins, qty = ops_of(t)
            items = in_list(ctx, r, ins)
            if items is None or op is None:
                ctx.und(key, w, "inputs %s" % show(ins))
                continue
            ctx.req(qty is attr(SLF, "qtype"), key + ".type", w, "selection keeps the type: %s" % show(qty))
            # conditions: either combined into one quantity or given to the operation separately
            mask_items = [x for x in items if x is not SLF]
            if items.count(SLF) != 1:
                ctx.und(key, w, "inputs %s" % [show(x) for x in items])
                continue
            A = {X: arr("$X", M, N, P)}
            for i, m in enumerate(ms):
                A[m] = Arr((N,), lambda ix, i=i: mk("cmp", "!=", mk("el", "m%d" % i, *ix), const(0)))
            try:
                v = apply_op(r, op, [X if x is SLF else mask_chunk(r, x, ms) for x in items])
                want = mk("sub", X, tup(mk("slice", NONE, NONE, NONE), conj(ms), mk("slice", NONE, NONE, NONE)))
                sem(ctx, key, w, v, want, A, "selected samples")
            except Unk as u:
                ctx.und(key, w, u)
            # the result is marked as a selection of its own
            sid = [e for e in r.events if e.kind == "setattr" and e.name == "_selection_id"]
            f = r.field(t, "_selection_id")
            if f is None and not sid:
                ctx.bad(key + ".id", w, "the selection gets no identifier of its own: it could be combined with unselected quantities")
            else:
                val = f if f is not None else sid[0].args[0]
                of = val.args[1] if val.op == "call" and val.args[0] == "builtins.id" and len(val.args) == 2 else None
                if of is SLF or of is not None and k > 1 and of in ms or of is None and (val.op == "const" or val.op == "attr" and val.args[0] is SLF):
                    ctx.bad(key + ".id", w, "two selections of the same quantity by different conditions get the same identifier %s: they could be combined" % show(val))
                else:
                    ctx.ok(key + ".id", w, "identifier %s" % show(val))
        # refusal of conditions that are not boolean: every condition is tested
        for m in ms:
            hit = [e for e in r.events if e.kind == "raise" and any(contains(c, m) and contains(c, lambda y: y.op == "cls" and last(y.args[0]) == "BoolType") for c, p in conds(e))]
            ctx.req(hit, key + ".bool", w, "condition %d of %d must be refused unless it is boolean" % (ms.index(m) + 1, k))


def conj(ms):
    t = ms[0]
    for m in ms[1:]:
        t = mk("bin", "&", t, m)
    return t


def mask_chunk(r, x, ms):
    """chunk of a mask quantity in terms of the chunks of the conditions"""
    x = r.eng.deref(x, r.state)
    if x in ms:
        return x
    if x.op == "call" and x.args[0] in ("numpy.logical_and", "numpy.logical_or", "numpy.bitwise_and", "numpy.logical_xor") and len(x.args) == 3:
        a, b = mask_chunk(r, x.args[1], ms), mask_chunk(r, x.args[2], ms)
        return mk("bin", "&", a, b) if x.args[0].endswith("_and") else mk("call", x.args[0], a, b)
    if x.op == "call" and x.args[0] == "numpy.logical_and.reduce" and len(x.args) == 2 and x.args[1].op in ("list", "tuple"):
        return conj([mask_chunk(r, y, ms) for y in x.args[1].args])
    if x.op == "call" and x.args[0] == "functools.reduce" and len(x.args) in (3, 4) and x.args[1].op == "ext" and x.args[1].args[0] == "numpy.logical_and" and x.args[2].op in ("list", "tuple"):
        return conj([mask_chunk(r, y, ms) for y in (x.args[3:] if len(x.args) == 4 else ()) + x.args[2].args])
    raise Unk("combination of conditions %s" % show(x))


def storage_of(ctx):
    """the storage of an expression is that of its inputs, wherever among them the constants stand"""
    w = W + "Quantity.get_quantity_storage"
    A, B, S = sym("$A"), sym("$B"), sym("$storage")
    for vals in ((S,), (NONE,), (S, NONE), (NONE, S), (S, S), (NONE, NONE), (NONE, NONE, S)):
        ins = [A, B, sym("$C")][:len(vals)]
        r = ctx.run_method(Q, "get_quantity_storage", fields={"_input_quantities": mk("list", *ins)}, given={(q, "get_quantity_storage"): v for q, v in zip(ins, vals)})
        t = r.eng.deref(r.value, r.state)
        t = subst(t, {S: const("$S")})
        for _ in range(3):
            t = leaf_known(t)
        want = const("$S") if S in vals else NONE
        key = "storage@%s" % "".join("c" if v is NONE else "q" for v in vals)
        if t is want:
            ctx.ok(key, w, show(t))
        elif t.op == "const":
            ctx.bad(key, w, "inputs with storages %s: the expression has the storage %s" % ([show(v) for v in vals], show(t)))
        else:
            ctx.und(key, w, show(t))


def leaf_known(t):
    if t.op == "ite":
        c = truth(t.args[0])
        if c is not None:
            return leaf_known(t.args[1] if c else t.args[2])
    return t


@prop("Q01", "")
def q01_storage(ctx):
    storage_of(ctx)


def selection_ids(ctx):
    """the constructor evaluated for every combination of the selections of three inputs"""
    w = W + "Quantity.__init__"
    ins = [sym("$A"), sym("$B"), sym("$C")]
    for vals in itertools.product((None, 7001, 7002), repeat=3):
        given = {(q, "selection_id"): const(v) for q, v in zip(ins, vals)}
        given.update({(q, "get_quantity_storage"): NONE if v is None else sym("$storage") for q, v in zip(ins, vals)})
        r = ctx.run_method(Q, "__init__", args={"input_quantities": mk("list", *ins)}, given=given)
        real = {v for v in vals if v is not None}
        status = False
        for e in r.events:
            if e.kind != "raise":
                continue
            vs = [(truth(c), p) for c, p in conds(e)]
            if all(c is p for c, p in vs):
                status = True
            elif any(c is not None and c is not p for c, p in vs):
                pass
            elif status is False:
                status = None
        if len(real) > 1:
            if status is None:
                ctx.und("mixing@refused", w, "ids %s" % (vals,))
            else:
                ctx.req(status, "mixing@refused", w, "inputs with selections %s must be refused" % (vals,))
            continue
        if status:
            ctx.bad("mixing@accepted", w, "inputs with selections %s must be accepted" % (vals,))
        elif status is None and real:
            ctx.und("mixing@accepted", w, str(vals))
        else:
            ctx.ok("mixing@accepted", w, str(vals))
        got = ctx_selection(ctx, r)
        want = const(next(iter(real))) if real else NONE
        if got is None:
            ctx.und("mixing@inherited", w, "selection of the new quantity")
        elif got.op == "const":
            ctx.req(got is want, "mixing@inherited", w, "inputs with selections %s give a quantity of selection %s, found %s" % (vals, show(want), show(got)))
        elif real:
            ctx.und("mixing@inherited", w, show(got))
    own_ids(ctx)


def ctx_selection(ctx, r):
    got = r.field(SLF, "_selection_id")
    return r.eng.deref(got, r.state) if got is not None else None


def own_ids(ctx):
    """what each kind of quantity answers for its own selection"""
    r = ctx.run_method(QC, "__init__")
    f = r.field(SLF, "_selection_id")
    r = ctx.run_method(QC, "selection_id", fields={"_selection_id": f} if f is not None else {})
    t = r.eng.deref(r.value, r.state)
    if t.op == "const":
        ctx.req(t is NONE, "selection@const", W + "QuantityConst.selection_id", "a constant belongs to every selection; found %s" % show(t))
    else:
        ctx.und("selection@const", W + "QuantityConst.selection_id", show(t))
    r = ctx.run_method(QS, "selection_id")
    t = r.eng.deref(r.value, r.state)
    if t.op == "const":
        ctx.bad("selection@root", W + "QuantityStorage.selection_id", "all storages share the selection %s: selected and unselected samples, or samples of two storages, can be combined" % show(t))
    elif t.op == "call" and t.args[0] == "builtins.id" and contains(t, SLF):
        ctx.ok("selection@root", W + "QuantityStorage.selection_id", "identity of the storage")
    else:
        ctx.und("selection@root", W + "QuantityStorage.selection_id", show(t))
    # a quantity that is the result of a selection answers with it
    r = ctx.run_method(Q, "selection_id", fields={"_selection_id": const(7001)})
    t = r.eng.deref(r.value, r.state)
    if t.op == "const":
        ctx.req(is_const(t, 7001), "selection@quantity", W + "Quantity.selection_id", "selection of a selected quantity: %s" % show(t))
    else:
        ctx.und("selection@quantity", W + "Quantity.selection_id", show(t))


def truth(c):
    if c.op == "const":
        return bool(c.args[0])
    if c.op == "not":
        b = truth(c.args[0])
        return None if b is None else not b
    if c.op == "bool":
        bs = [truth(x) for x in c.args[1:]]
        if c.args[0] == "and":
            return False if False in bs else None if None in bs else True
        return True if True in bs else None if None in bs else False
    if c.op == "ite":
        k = truth(c.args[0])
        bs = {truth(x) for x in (c.args[1:] if k is None else c.args[1:2] if k else c.args[2:])}
        return bs.pop() if len(bs) == 1 else None
    if c.op == "cmp" and c.args[0] in ("is", "isnot") and NONE in c.args and sym("$storage") in c.args:
        return c.args[0] == "isnot"
    if c.op == "cmp" and c.args[0] in ("==", "!=", "is", "isnot"):
        a, b = c.args[1:]
        if a.op == "ite":
            x = [truth(mk("cmp", c.args[0], y, b)) if not (y.op == "const" and b.op == "const") else truth(cmpop(c.args[0], y, b)) for _, y in leaves_ite(a)]
            return x[0] if len(set(x)) == 1 else None
        if b.op == "ite":
            return truth(mk("cmp", c.args[0], b, a))
    return None


# ---------------------------------------------------------------------------------------------------------- structure
def size_term(t):
    """the size of an inner type, however the call is resolved"""
    return t.op == "call" and last(t.args[0]) == "size" and len(t.args) == 2


def norm_sizes(t):
    """.size(x) calls -> mk('size', x); int() / product wrappers removed"""
    m = {}
    for y in walk(t):
        if size_term(y):
            m[y] = mk("size", y.args[1])
    t = subst(t, m) if m else t
    m = {}
    for y in walk(t):
        if y.op == "call" and y.args[0] in ("builtins.int", "numpy.int64", "numpy.int_") and len(y.args) == 2:
            m[y] = y.args[1]
        if y.op == "call" and y.args[0] == "math.prod" and len(y.args) == 2:
            m[y] = mk("call", "numpy.prod", y.args[1])
    return subst(t, m) if m else t


def prod_folds(t):
    """a product accumulated over all items of a shape -> numpy.prod"""
    m = {}
    for y in walk(t):
        if y.op == "fold":
            init, mu, upd, idx, dom = y.args
            for seq in walk(upd):
                if seq.op == "sub" and seq.args[1] is idx and dom is dim(seq.args[0]) and is_const(init) and upd in (binop("*", mu, seq), binop("*", seq, mu)):
                    v = mk("call", "numpy.prod", seq.args[0])
                    m[y] = v if is_const(init, 1) else binop("*", init, v)
    return subst(t, m) if m else t


def foldmax(t):
    """max/min of numbers"""
    if not isinstance(t, T) or not t.args:
        return t
    a = [foldmax(x) if isinstance(x, T) else x for x in t.args]
    if t.op == "call" and a[0] in ("builtins.max", "builtins.min") and len(a) > 2 and all(x.op == "const" for x in a[1:]):
        return const((max if a[0].endswith("max") else min)(x.args[0] for x in a[1:]))
    if t.op == "ite" and a[0].op == "const":
        return a[1] if a[0].args[0] else a[2]
    if t.op == "cmp":
        return cmpop(*a)
    return mk(t.op, *a)


def size_req(ctx, key, w, got, want, what):
    got = prod_folds(norm_sizes(got))
    for g, x in leaves_ite(split_ites(got)):
        if Norm().equal(x, want):
            ctx.ok(key, w, "%s is %s" % (what, show(x)))
            continue
        # what the branch knows about the types
        m = {}
        for c, p in g:
            if p and c.op == "call" and c.args[0] == "builtins.isinstance" and "ArrayType" in str(c.args[2].args):
                q = c.args[1]
                m[mk("size", q)] = binop("*", mk("call", "numpy.prod", attr(q, "_shape")), mk("size", attr(q, "_qtype")))
        if m:
            x, wt = subst(x, m), subst(want, m)
            if Norm().equal(x, wt):
                ctx.ok(key, w, "%s is %s" % (what, show(x)))
                continue
        # sizes are numbers >= 1: evaluated for several of them
        sz = sorted({y for y in list(walk(got)) + list(walk(want)) if y.op == "size"}, key=lambda z: z._h)
        wrong = None
        for base in ((1, 1, 1), (2, 3, 5), (4, 1, 2), (7, 7, 7)):
            mm = {y: const(base[i % 3]) for i, y in enumerate(sz)}
            a, b = Norm()(foldmax(simp(subst(got, mm)))), Norm()(subst(want, mm))
            if a.op == b.op == "const" and a is not b and sz:
                wrong = "sizes %s: %s instead of %s" % ([mm[y].args[0] for y in sz], show(a), show(b))
        if wrong:
            ctx.bad(key, w, "NOT SATISFIED: %s must be %s; %s" % (what, show(want), wrong))
            continue
        near = [y for y in walk(x) if y.op == "call" and last(y.args[0]) in ("searchsorted", "argmin", "argmax", "digitize") or y.op == "call" and "bisect" in y.args[0]]
        if near and not m:
            ctx.bad(key, w, "NOT SATISFIED: %s must be %s: the position comes from a search for the nearest key, so another item answers for a key that is not there: %s" % (what, show(want), show(x)))
            continue
        if not m and (g or contains(x, lambda y: y.op in ("undef", "mu", "fold", "ite", "bsum", "dim") or y.op == "call" and last(y.args[0]) not in ("prod", "index") or y.op == "sym" and str(y.args[0]).startswith("?"))):
            ctx.und(key, w, "%s: %s" % (what, show(got)))
            continue
        ctx.bad(key, w, "NOT SATISFIED: %s must be %s; found %s" % (what, show(want), show(x)))


def split_ites(t, depth=0):
    """alternatives inside an expression brought to the outside"""
    if depth > 6:
        return t
    for y in walk(t):
        if y.op == "ite" and y is not t:
            a, b = subst(t, {y: y.args[1]}), subst(t, {y: y.args[2]})
            return ite(y.args[0], split_ites(a, depth + 1), split_ites(b, depth + 1))
    return t


KEYS = ("kb", "kc", "ka")


@prop("Q03", "Sizes and start offsets of the structured types as rational normal forms over the inner sizes (three-entry literal dictionaries, series and fields, every key), nesting of the root quantity, "
      "order of the inputs of QArray/QDict/QField/QTimeSeries against the order of their keys, replacement of the scalar base, and interpolation in time.",
      ["entries behave alike in number: three entries stand for any number", "numpy's and scipy's own functions are trusted"])
def q03(ctx):
    types(ctx)
    root(ctx)
    combine(ctx)
    replace(ctx)
    interpolation(ctx)


def dict_field(ctx, cls):
    qs = [sym("$q%d" % i) for i in range(3)]
    args = mk("list", *[tup(const(k), q) for k, q in zip(KEYS, qs)])
    r = ctx.run_method(QT + cls, "__init__", args={"args": args})
    fields = {}
    for e in r.events:
        if e.kind == "setattr" and e.recv is SLF:
            fields[e.name] = r.eng.deref(r.field(SLF, e.name), r.state)
    for k, v in list(r.state.heap.items()):
        if k[0] == "f" and k[1] is SLF:
            fields[k[2]] = r.eng.deref(v, r.state)
    return qs, fields, r


def types(ctx):
    # dictionary: entries one after the other
    qs, fields, r = dict_field(ctx, "DictType")
    sz = [mk("size", q) for q in qs]
    w = WT + "DictType."
    t = val(ctx.run_method(QT + "DictType", "size", fields=fields))
    size_req(ctx, "size@DictType", w + "size", t, binop("+", binop("+", sz[0], sz[1]), sz[2]), "size of a dictionary")
    for i, k in enumerate(KEYS):
        t = val(ctx.run_method(QT + "DictType", "get_key", fields=fields, args={"key": const(k)}))
        pair(ctx, "key@DictType.%d" % i, w + "get_key", t, qs[i], sum_terms(sz[:i]))
    # field
    qs, fields, r = dict_field(ctx, "FieldType")
    w = WT + "FieldType."
    q = fields.get("_qtype")
    if q is None or q not in qs:
        ctx.und("size@FieldType", w + "__init__", "inner type %s" % (q and show(q)))
    else:
        s = mk("size", q)
        t = val(ctx.run_method(QT + "FieldType", "size", fields=fields))
        size_req(ctx, "size@FieldType", w + "size", t, binop("*", const(3), s), "size of a field")
        for i, k in enumerate(KEYS):
            t = val(ctx.run_method(QT + "FieldType", "get_key", fields=fields, args={"key": const(k)}))
            pair(ctx, "key@FieldType.%d" % i, w + "get_key", t, (q, qs[i]), binop("*", const(i), s))
    # entries of different size are refused
    hit = [e for e in r.events if e.kind == "raise"]
    okc = [e for e in hit if any(contains(c, lambda y: size_term(y)) or contains(c, lambda y: y.op == "call" and last(y.args[0]) in ("size", "all", "any")) for c, p in conds(e))]
    ctx.req(okc, "size@FieldType.uniform", w + "__init__", "types of different size in one field must be refused")
    # time series
    w = WT + "TimeSeriesType."
    q = sym("$q")
    times = mk("list", const(0.5), const(1.5), const(7.25))
    r = ctx.run_method(QT + "TimeSeriesType", "__init__", args={"times": times, "qtype": q})
    f = {}
    for k, v in list(r.state.heap.items()):
        if k[0] == "f" and k[1] is SLF:
            f[k[2]] = subst_tests(r.eng.deref(v, r.state), times, {"list"})
    s = mk("size", q)
    t = val(ctx.run_method(QT + "TimeSeriesType", "size", fields=f))
    size_req(ctx, "size@TimeSeriesType", w + "size", t, binop("*", const(3), s), "size of a time series")
    for i, k in enumerate(times.args):
        t = val(ctx.run_method(QT + "TimeSeriesType", "get_key", fields=f, args={"key": k}))
        pair(ctx, "key@TimeSeriesType.%d" % i, w + "get_key", t, q, binop("*", const(i), s))
    # array
    w = WT + "ArrayType."
    shp = sym("$shape")
    f = {"_shape": shp, "_qtype": q}
    t = val(ctx.run_method(QT + "ArrayType", "size", fields=f))
    size_req(ctx, "size@ArrayType", w + "size", t, binop("*", mk("call", "numpy.prod", shp), s), "size of an array")
    r = ctx.run_method(QT + "ArrayType", "__init__", args={"shape": shp, "qtype": q})
    t = r.field(SLF, "_shape")
    if t is not None:
        a, b = (subst_tests(t, shp, ty) for ty in ({"tuple"}, {"int"}))
        ctx.req(a is shp or a.op == "call" and a.args[0] == "builtins.tuple" and a.args[1] is shp, "shape@tuple", w + "__init__", "shape %s" % show(a))
        ctx.req(b in (tup(shp), mk("list", shp)), "shape@int", w + "__init__", "a number is the shape of a vector: %s" % show(b))
    inner = sym("inner")
    shape = tup(A_, B_)
    for inm, I in (("scalar", ONE), ("structured", I_)):
        r = ctx.run_method(QT + "ArrayType", "reshape", fields={"_shape": shape, "_qtype": inner}, args={"data": X})
        t = r.eng.deref(r.value, r.state)
        m = {y: const(I is ONE) for y in walk(t) if y.op == "call" and y.args[0] == "builtins.isinstance" and y.args[1] is inner and "ScalarType" in str(y.args[2].args)}
        t = subst(t, m) if m else t
        ix = inner_ix(inner, I)
        ix.atoms[X] = Arr((Norm()(binop("*", binop("*", A_, B_), I)),), lambda i: mk("el", "D", *i))
        key = "shape@mean-" + inm
        try:
            got = ix.ev(pick(ix, t))
            vs = [sym("i%d" % j) for j in range(got.rank)]
            dims = [A_, B_] + ([I_] if I is not ONE else [])
            ok = got.rank == len(dims) and all(Norm().equal(ix.count(x), y) for x, y in zip(got.dims, dims))
            if not ok and got.rank == len(dims) and any(not plainsize(ix.count(x)) for x in got.dims):
                raise Unk("dimensions %s" % [show(x) for x in got.dims])
            if ok:
                pos = binop("+", binop("*", vs[0], B_), vs[1])
                if I is not ONE:
                    pos = binop("+", binop("*", pos, I_), vs[2])
                ok = same_el(Norm()(got.fn(vs)), Norm()(mk("el", "D", pos)))
            ctx.req(ok, key, w + "reshape", "means are returned in the shape of the array, rows first; found axes %s" % [show(x) for x in got.dims])
        except SizeErr as u:
            ctx.bad(key, w + "reshape", u)
        except Unk as u:
            ctx.und(key, w + "reshape", u)
    t = val(ctx.run_method(QT + "QType", "reshape"))
    ctx.req(t is sym("data"), "shape@other", WT + "QType.reshape", "other types keep the flat vector: %s" % show(t))
    # scalar
    w = WT + "ScalarType."
    t = val(ctx.run_method(QT + "ScalarType", "size", fields={"_qtype": mk("ext", "builtins.float")}))
    for g, x in leaves_ite(t):
        if x.op == "const":
            ctx.req(is_const(x, 1), "size@ScalarType", w + "size", "size of a scalar is one: %s" % show(x))


def plainsize(t):
    return all(y.op in ("sym", "const", "bin", "poly") for y in walk(Norm()(t)))


def sum_terms(ts):
    r = const(0)
    for t in ts:
        r = binop("+", r, t)
    return r


def pair(ctx, key, w, t, q, start):
    if t.op != "tuple" or len(t.args) != 2:
        ctx.und(key, w, show(t))
        return
    qs = q if isinstance(q, tuple) else (q,)
    if contains(t.args[0], lambda y: y.op in ("undef", "ite")):
        ctx.und(key, w, show(t.args[0]))
    else:
        ctx.req(t.args[0] in qs, key + ".type", w, "type of the item must be %s; found %s" % (show(qs[0]), show(t.args[0])))
    srt = [y for y in walk(t.args[1]) if y.op == "call" and y.args[0] in ("builtins.sorted", "builtins.reversed", "builtins.set", "builtins.frozenset")]
    if srt and not srt[0].args[0].endswith("sorted") or srt and contains(t.args[1], lambda y: y.op in ("bsum", "upto")):
        ctx.bad(key + ".start", w, "blocks are stored in the order of the items, the offset is counted in another one: %s" % show(t.args[1]))
        return
    size_req(ctx, key + ".start", w, t.args[1], start, "start of the item")


def strip_array(t):
    while t.op == "call" and t.args[0] in ("numpy.array", "builtins.list", "builtins.tuple") and len(t.args) == 2:
        t = t.args[1]
    return t


def root(ctx):
    w = W + "make_root_quantity"
    s = sym("$spec")
    r = ctx.run(ctx.prog.func(QQ + "make_root_quantity"), args={"q_specs": mk("list", s, sym("$spec2"))})
    t = val(r)
    if not is_new(t, "QuantityStorage"):
        ctx.und("root@nesting", w, show(t))
        return
    d = kwget(t, "qtype")
    d = r.eng.deref(d, r.state)
    ctx.req(kwget(t, "storage") is sym("storage"), "root@storage", w, "root quantity reads %s" % show(kwget(t, "storage")))
    if d.op != "new" or d.args[0] != QT + "DictType":
        ctx.bad("root@nesting", w, "results of a simulation form a dictionary by quantity name; found %s" % show(d))
        return
    args = in_list(ctx, r, kwget(d, "args"))
    if args is None or len(args) != 2:
        ctx.und("root@nesting", w, show(d))
        return
    for sp, a in zip((s, sym("$spec2")), args):
        if a.op != "tuple" or len(a.args) != 2:
            ctx.und("root@nesting", w, show(a))
            continue
        ctx.req(a.args[0] is attr(sp, "name"), "root@name", w, "key %s" % show(a.args[0]))
        x = a.args[1]
        chain = []
        keys = []
        while x is not None and x.op == "new":
            n = last(x.args[0])
            chain.append(n)
            if n == "TimeSeriesType":
                keys.append((n, kwget(x, "times")))
                x = kwget(x, "qtype")
            elif n == "FieldType":
                fa = r.eng.deref(kwget(x, "args"), r.state)
                x = None
                if fa.op == "cat" and len(fa.args) == 1 and fa.args[0].op == "each":
                    i, dom, part, g = fa.args[0].args
                    if part.op == "list" and len(part.args) == 1 and part.args[0].op == "tuple" and g is TRUE:
                        k, x = part.args[0].args
                        keys.append((n, k.args[0] if k.op == "sub" and k.args[1] is i else k))
            elif n == "ArrayType":
                keys.append((n, kwget(x, "shape")))
                x = kwget(x, "qtype")
            else:
                x = None
        if "FieldType" in chain and len([k for k in keys if k[0] == "FieldType"]) == 0:
            ctx.und("root@nesting", w, "field of %s" % show(sp))
            continue
        ctx.req(chain == ["TimeSeriesType", "FieldType", "ArrayType", "ScalarType"], "root@nesting", w, "values are stored by time, then location, then array item; found %s" % " of ".join(chain))
        exp = {"TimeSeriesType": "times", "FieldType": "locations", "ArrayType": "shape"}
        for n, k in keys:
            ctx.req(k is attr(sp, exp[n]), "root@" + exp[n], w, "%s of %s" % (exp[n], show(k)))


def concat_order(ctx, key, w, r, t, want):
    """the quantity concatenates its inputs in this order along components"""
    op, ins, qty = ops_of(t)
    ins = simp(r.eng.deref(ins, r.state)) if ins is not None else None
    items = in_list(ctx, r, ins) if ins is not None else None
    if items is None or op is None:
        ctx.und(key, w, "inputs %s" % (ins is not None and show(ins)))
        return
    if not set(items) <= set(want):
        ctx.und(key, w, "inputs %s" % [show(x) for x in items])
        return
    ch = {q: sym("$c%d" % i) for i, q in enumerate(want)}
    v = simp(apply_op(r, op, [ch[x] for x in items]))
    out = concat_parts(v)
    if out is None and reordered(v) is not None:
        ctx.bad(key, w, "components are put into another order than the keys: %s" % show(v, 6))
        return
    if out is None:
        ctx.und(key, w, "operation %s" % show(v))
        return
    ctx.req(out == [ch[q] for q in want], key, w, "components must follow each other in the order of the keys: %s" % show(v))


def concat_parts(v):
    if v.op == "call" and v.args[0] in ("numpy.concatenate", "numpy.vstack", "numpy.r_"):
        pos = [a for a in v.args[1:] if a.op != "kw"]
        ax = kwget(v, "axis") or (pos[1] if len(pos) > 1 else const(0))
        if v.args[0] == "numpy.concatenate" and not is_const(ax, 0) and not is_const(ax, -3):
            return [None] if ax.op == "const" else None
        if pos and pos[0].op in ("list", "tuple"):
            return list(pos[0].args)
    return None


def combine(ctx):
    qs = [sym("$q%d" % i) for i in range(3)]
    table = mk("list", *[tup(const(k), q) for k, q in zip(KEYS, qs)])
    for f, cls in (("QDict", "DictType"), ("QField", "FieldType"), ("QTimeSeries", "TimeSeriesType")):
        w = W + "Quantity." + f
        fn = ctx.method(Q, f)
        par = [a.arg for a in fn.node.args.args if a.arg not in ("self", "cls")]
        if len(par) != 1:
            ctx.und("combine@" + f, w, "signature")
            continue
        r = ctx.run_method(Q, f, args={par[0]: table})
        t = val(r)
        if not is_new(t, "Quantity"):
            ctx.und("combine@" + f, w, show(t))
            continue
        concat_order(ctx, "combine@%s.order" % f, w, r, t, qs)
        qty = kwget(t, "quantity_type")
        if qty is None or qty.op != "new":
            ctx.und("combine@%s.type" % f, w, show(t))
            continue
        if not ctx.req(last(qty.args[0]) == cls, "combine@%s.type" % f, w, "type %s" % show(qty)):
            continue
        if cls == "TimeSeriesType":
            tm = strip_array(kwget(qty, "times"))
            ctx.req(tm in (mk("list", *[const(k) for k in KEYS]), tup(*[const(k) for k in KEYS])), "combine@%s.keys" % f, w, "times %s" % show(tm))
            ctx.req(kwget(qty, "qtype") in [attr(q, "qtype") for q in qs], "combine@%s.inner" % f, w, "inner type %s" % show(kwget(qty, "qtype")))
        else:
            a = simp(r.eng.deref(kwget(qty, "args"), r.state))
            want = [tup(const(k), attr(q, "qtype")) for k, q in zip(KEYS, qs)]
            if a.op in ("list", "tuple"):
                ctx.req(list(a.args) == want or cls == "FieldType" and [x.args[0] for x in a.args] == [x.args[0] for x in want], "combine@%s.keys" % f, w, "keys and types in order: %s" % show(a))
            else:
                ctx.und("combine@%s.keys" % f, w, show(a))
    w = W + "Quantity.QArray"
    r = ctx.run_method(Q, "QArray", args={"quantities": mk("list", mk("list", qs[0], qs[1]), mk("list", qs[2], sym("$q3")))})
    t = val(r)
    if is_new(t, "Quantity"):
        concat_order(ctx, "combine@QArray.order", w, r, t, qs + [sym("$q3")])
        qty = kwget(t, "quantity_type")
        ok = qty is not None and qty.op == "new" and last(qty.args[0]) == "ArrayType"
        ctx.req(ok, "combine@QArray.type", w, "type %s" % (qty and show(qty)))
        if ok:
            sh = kwget(qty, "shape")
            if sh.op == "attr" and sh.args[1] == "shape":
                base = r.eng.deref(sh.args[0], r.state)
                base = simp(base)
                while base.op == "call" and base.args[0] in ("numpy.array", "numpy.asarray"):
                    base = base.args[1]
                ctx.req(base.op == "list" and len(base.args) == 2 and all(x.op == "list" for x in base.args), "combine@QArray.shape", w, "shape of the nested list: %s" % show(sh))
            else:
                ctx.und("combine@QArray.shape", w, show(sh))
            ctx.req(kwget(qty, "qtype") in [attr(q, "qtype") for q in qs], "combine@QArray.inner", w, "inner type %s" % show(kwget(qty, "qtype")))
    else:
        ctx.und("combine@QArray", w, show(t))
    for f in ("QArray", "QField", "QTimeSeries"):
        fn = ctx.method(Q, f)
        par = [a.arg for a in fn.node.args.args if a.arg not in ("self", "cls")]
        tb = table if f != "QArray" else mk("list", *qs)
        r = ctx.run_method(Q, f, args={par[0]: tb})
        same_types(ctx, "combine@%s.same" % f, W + "Quantity." + f, r, qs)


def same_types(ctx, key, w, r, qs):
    """quantities of different type are refused: the compared pairs connect all of them"""
    rs = [e for e in r.events if e.kind == "raise"]
    if not rs:
        ctx.bad(key, w, "quantities of different type must be refused")
        return
    seen, links, weak, other = set(), [], [], False
    cs = []
    for e in rs:
        for c, p in conds(e):
            inst = [c]
            for i, dom, _ in e.loops:
                n = simp(dom)
                if n.op != "const" or not isinstance(n.args[0], int) or not any(contains(x, i) for x in inst):
                    other |= any(contains(x, i) for x in inst)
                    continue
                inst = [subst(x, {i: const(k)}) for x in inst for k in range(n.args[0])]
            cs += [simp(x) for x in inst]
    for c in cs:
        on = [i for i, q in enumerate(qs) if contains(c, q)]
        seen |= set(on)
        for y in walk(c):
            if y.op != "cmp" or y.args[0] not in ("==", "!=", "is", "isnot", "is not"):
                continue
            pair = [[i for i, q in enumerate(qs) if contains(x, q)] for x in y.args[1:3]]
            if any(len(x) != 1 for x in pair) or pair[0] == pair[1]:
                continue
            (i,), (j,) = pair
            if list(y.args[1:3]) == [attr(qs[i], "qtype"), attr(qs[j], "qtype")]:
                links.append({i, j})
            elif all(x.op == "call" for x in y.args[1:3]):
                weak.append(y)
            else:
                other = True
    if other or not (links or weak):
        if len(seen) < len(qs) and not other:
            ctx.bad(key, w, "the types of only %s of three quantities are compared" % sorted(seen))
        else:
            ctx.ok(key, w, "types compared")
        return
    if weak and not links:
        ctx.bad(key, w, "quantities are compared by %s only: quantities of different type are combined" % show(weak[0], 6))
        return
    done = {0}
    for _ in qs:
        for l in links:
            if l & done:
                done |= l
    if weak and len(done) < len(qs):
        ctx.und(key, w, "types compared by %s" % show(weak[0], 5))
    else:
        ctx.req(len(done) == len(qs), key, w, "each of the quantities is compared with the others; only %s are" % sorted(done))


def replace(ctx):
    w = WT + "QType.replace_scalar"
    q, s = sym("$q"), sym("substitute_qtype")
    for cls in ("ArrayType", "TimeSeriesType", "FieldType"):
        r = ctx.run_method(QT + cls, "replace_scalar", fields={"_qtype": q}, args={"substitute_qtype": s})
        t = r.eng.deref(r.value, r.state)
        key = "replace@" + cls
        if t.op == "call" and t.args[0] in ("copy.deepcopy", "copy.copy") and t.args[1] is SLF:
            x = r.field(t, "_qtype")
            if x is None:
                ctx.bad(key, w, "the copy keeps the old inner type")
                continue
            ctx.req(x.op == "call" and last(x.args[0]) == "replace_scalar" and x.args[1] is q and contains(x, s), key, w, "inner type %s" % show(x))
            y = r.field(SLF, "_qtype")
            ctx.req(y is None or y is q, key + ".own", w, "the type itself must not change: %s" % (y and show(y)))
        elif t is SLF:
            ctx.bad(key + ".own", w, "the type is changed in place: other quantities share it")
        else:
            ctx.und(key, w, show(t))
    t = val(ctx.run_method(QT + "ScalarType", "replace_scalar", args={"substitute_qtype": s}))
    ctx.req(t is s, "replace@ScalarType", WT + "ScalarType.replace_scalar", "a scalar is replaced by the substitute: %s" % show(t))
    qs, fields, r = dict_field(ctx, "DictType")
    r = ctx.run_method(QT + "DictType", "replace_scalar", fields=fields, args={"substitute_qtype": s})
    t = val(r)
    w = WT + "DictType.replace_scalar"
    if is_new(t, "DictType"):
        a = simp(r.eng.deref(kwget(t, "args"), r.state))
        if a.op == "dict":
            a = mk("list", *[tup(k, v) for k, v in zip(a.args[::2], a.args[1::2])])
        ok = a.op in ("list", "tuple") and len(a.args) == 3
        if not ok:
            ctx.und("replace@DictType", w, show(a))
        else:
            for x, k, q_ in zip(a.args, KEYS, qs):
                good = x.op == "tuple" and x.args[0] is const(k) and x.args[1].op == "call" and last(x.args[1].args[0]) == "replace_scalar" and x.args[1].args[1] is q_ and contains(x.args[1], s)
                ctx.req(good, "replace@DictType", w, "entry %s" % show(x))
    else:
        ctx.und("replace@DictType", w, show(t))


def interpolation(ctx):
    w = WT + "TimeSeriesType.time_interpolation"
    q, v = sym("quantity"), sym("value")
    r = ctx.run_method(QT + "TimeSeriesType", "time_interpolation")
    t = r.eng.deref(r.value, r.state)
    if not is_new(t, "Quantity"):
        ctx.und("interp@result", w, show(t))
        return
    op, ins, qty = ops_of(t)
    items = in_list(ctx, r, ins)
    if items != [q]:
        ctx.und("interp@inputs", w, show(ins))
        return
    n0 = len(r.eng.events)
    y = apply_op(r, op, [X])
    evs = r.eng.events[n0:]
    times = attr(attr(q, "qtype"), "_times")
    inner = attr(attr(q, "qtype"), "_qtype")
    ctx.req(qty is inner, "interp@type", w, "the result has the type of one time: %s" % show(qty))
    ip = [z for z in walk(y) if z.op == "call" and last(z.args[0]) == "interp1d"]
    if len(ip) != 1:
        ctx.und("interp@call", w, show(y))
        return
    pos = [a for a in ip[0].args[1:] if a.op != "kw"]
    ctx.req(pos and pos[0] is times, "interp@times", w, "abscissas %s" % show(pos[0]))
    ax = kwget(ip[0], "axis")
    kd = kwget(ip[0], "kind") or (pos[2] if len(pos) > 2 else None)
    if kd is not None:
        if kd.op == "const":
            ctx.req(kd.args[0] in ("linear", 1), "interp@linear", w, "values between two times come from both neighbours: kind %s" % show(kd))
        else:
            ctx.und("interp@linear", w, show(kd))
    ctx.req(ax is not None and is_const(ax, 0), "interp@axis", w, "interpolation along the times (axis 0): %s" % (ax and show(ax)))
    sp = [z for z in walk(pos[1]) if z.op == "call" and z.args[0] in ("numpy.split", "numpy.array_split")] if len(pos) > 1 else []
    if len(sp) == 1:
        a = [z for z in sp[0].args[1:] if z.op != "kw"]
        sax = kwget(sp[0], "axis") or (a[2] if len(a) > 2 else const(0))
        ctx.req(is_const(sax, 0) or is_const(sax, -3), "interp@split-axis", w, "components are split, not samples: %s" % show(sax))
        S, Lt = sym("#s"), sym("#T")
        ats = {}
        for z in walk(a[1]):
            if size_term(z) and z.args[1] is inner:
                ats[z] = Arr((), lambda ix: S)
            if z is dim(times):
                ats[z] = Arr((), lambda ix: Lt)
        try:
            ix = Ix(ats)
            g = ix.ev(a[1])
            if g.rank == 0:
                ctx.req(Norm().equal(g.fn([]), Lt), "interp@split", w, "one part per time: %s" % show(g.fn([])))
            else:
                k = mk("ix", 0)
                ok = Norm().equal(g.fn([k]), binop("*", binop("+", k, ONE), S)) and Norm().equal(g.dims[0], binop("-", Lt, ONE))
                ctx.req(ok, "interp@split", w, "the parts must start at 1*size, 2*size, ..., (T-1)*size; found %s, %s of them" % (show(Norm()(g.fn([k]))), show(g.dims[0])))
        except Unk as u:
            ctx.und("interp@split", w, u)
        ctx.req(a[0] is X, "interp@data", w, "values %s" % show(a[0]))
    elif len(pos) > 1:
        S, Lt = sym("#s"), sym("#T")
        ix = Ix({X: Arr((Norm()(binop("*", Lt, S)), N, P), lambda i: mk("el", "X", *i))})
        ix.hook = lambda z: Arr((), lambda _: S) if size_term(z) and z.args[1] is inner else Arr((), lambda _: Lt) if z is dim(times) else None
        try:
            g = ix.ev(pos[1])
            vs = [sym("i%d" % j) for j in range(g.rank)]
            ok = g.rank == 4 and Norm().equal(ix.count(g.dims[0]), Lt) and same_el(Norm()(g.fn(vs)), Norm()(mk("el", "X", binop("+", binop("*", vs[0], S), vs[1]), vs[2], vs[3])))
            ctx.req(ok, "interp@split", w, "values must be divided by times, first axis of the vector of results; found axes %s" % [show(x) for x in g.dims])
        except SizeErr as u:
            ctx.bad("interp@split", w, u)
        except Unk as u:
            ctx.und("interp@split", w, u)
    else:
        ctx.und("interp@split", w, show(y))
    # evaluated at the asked time
    ctx.req(contains(y, v), "interp@value", w, "evaluated at %s" % show(y))


# ---------------------------------------------------------------------------------------------------------- cache
@prop("Q04", "The key function given to the cache decorator of Quantity.samples / QuantityConst.samples: the returned key must depend injectively on level, chunk number, chunk slice and on an identity of the quantity that is never reused "
      "(a counter value stored on the object, not id()); no attribute of the key may be rewritten after construction; who clears the cache.",
      ["the memoization library compares keys by equality"])
def q04(ctx):
    import ast
    for cls, nm in ((Q, "Quantity"), (QC, "QuantityConst")):
        f = ctx.method(cls, "samples")
        w = W + nm + ".samples"
        decs = f.node.decorator_list
        cached = [d for d in decs if "cache" in ast.unparse(d)]
        if not cached:
            ctx.ok("cache@" + nm, w, "samples are not cached")
            continue
        d = cached[0]
        km = None
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == "custom_key_maker":
                    km = k.value
        if km is None:
            txt = ast.unparse(d)
            if txt.split("(")[0].split(".")[-1] in ("cached", "lru_cache", "cache"):
                ctx.und("cache@" + nm, w, "keyed by the arguments themselves: " + txt)
            else:
                ctx.und("cache@" + nm, w, txt)
            continue
        kn = km.attr if isinstance(km, ast.Attribute) else km.id if isinstance(km, ast.Name) else None
        kf = ctx.prog.method(ctx.prog.cls(cls), kn) if kn else None
        if kf is None:
            ctx.und("cache@" + nm, w, "key function %s" % ast.unparse(km))
            continue
        check_key(ctx, nm, kf, cls)
    keepers(ctx)


def check_key(ctx, nm, kf, cls):
    c = ctx.prog.cls(cls)
    w = W + kf.name if not hasattr(kf, "qual") else W + kf.qual
    r = ctx.run(kf, c)
    t = r.eng.deref(r.value, r.state)
    ps = kf.params()
    s, cs = sym(ps[0]), sym(ps[1])
    sl = attr(cs, "chunk_slice")

    def exact(x, a):
        """the part determines the attribute"""
        return x is attr(cs, a) or x.op == "call" and x.args[0] in ("builtins.str", "builtins.repr", "builtins.int") and len(x.args) == 2 and x.args[1] is attr(cs, a)
    leaves = [(g, x) for g, x in leaves_ite(t)]
    if any(x.op not in ("tuple", "list") for _, x in leaves) and len(leaves) > 1:
        leaves = [((), t)]
    for g, x in leaves:
        parts = list(x.args) if x.op in ("tuple", "list") else [x]
        parts = [y for z in parts for y in flat_parts(r.eng.deref(z, r.state))]
        for a in ("level_id", "chunk_id"):
            if any(exact(y, a) for y in parts):
                ctx.ok("key@%s.%s" % (nm, a), w, "part of the key")
            elif any(contains(y, attr(cs, a)) for y in parts):
                same = clash(parts, [attr(cs, b) for b in ("level_id", "chunk_id")])
                if same:
                    ctx.bad("key@%s.%s" % (nm, a), w, "NOT SATISFIED: chunks %s of levels share the key: %s" % (same, show(x)))
                else:
                    ctx.und("key@%s.%s" % (nm, a), w, "key %s" % show(x))
            else:
                ctx.bad("key@%s.%s" % (nm, a), w, "NOT SATISFIED: the key must contain %s; key: %s" % (a, show(x)))
        key_slice(ctx, nm, w, r, cs, sl, parts, x, g)
        key_identity(ctx, nm, w, r, c, kf, s, cs, parts, x)


def clash(parts, fields):
    """two different (level, chunk) pairs with the same key"""
    seen = {}
    for v in itertools.product(range(4), repeat=2):
        m = {f: const(x) for f, x in zip(fields, v)}
        k = tuple(Norm()(subst(y, m)) for y in parts)
        if k in seen:
            return "%s and %s" % (seen[k], v)
        seen[k] = v
    return None


def key_slice(ctx, nm, w, r, cs, sl, parts, t, g):
    if any(p and c.op == "cmp" and c.args[0] in ("is", "==") and sl in c.args and NONE in c.args or not p and c is sl for c, p in g):
        ctx.ok("key@%s.slice" % nm, w, "no range in this chunk")
        return
    slp = [z for x in parts if contains(x, sl) or contains(x, attr(cs, "chunk_size")) for _, y in leaves_ite(r.eng.deref(x, r.state)) for z in flat_parts(r.eng.deref(y, r.state))]
    whole = any(z is sl or z.op == "call" and z.args[0] in ("builtins.str", "builtins.repr") and contains(z, sl) or z.op == "call" and last(z.args[0]) == "indices" for z in slp)
    ends = all(any(z is attr(sl, e) for z in slp) for e in ("start", "stop"))
    if whole or ends:
        ctx.ok("key@%s.slice" % nm, w, "range of the chunk is a part of the key")
    elif not slp or all(z is NONE or Norm().equal(z, binop("-", attr(sl, "stop"), attr(sl, "start"))) or z is attr(sl, "start") or z is attr(sl, "stop") for z in slp):
        ctx.bad("key@%s.slice" % nm, w, "different parts of a level share a cache entry: range of the chunk is not determined by the key %s" % show(t, 8))
    else:
        ctx.und("key@%s.slice" % nm, w, "key %s" % show(t, 8))


def key_identity(ctx, nm, w, r, c, kf, s, cs, parts, t):
    key = "key@%s.identity" % nm
    ident = [x for x in parts if not contains(x, cs)]
    ident = [x for x in ident if x.op != "const"]
    if not ident:
        ctx.bad(key, w, "the key does not identify the quantity: %s" % show(t))
        return
    verdicts = [identity(ctx, c, kf, r, s, x) for x in ident]
    good = [why for ok, why in verdicts if ok]
    unk = [why for ok, why in verdicts if ok is None]
    bad = [why for ok, why in verdicts if ok is False]
    if good:
        ctx.ok(key, w, good[0])
    elif unk:
        ctx.und(key, w, unk[0])
    else:
        ctx.bad(key, w, bad[0])


def identity(ctx, c, kf, r, s, x):
    """is x different for any two quantities, at any time? (True / False / None, reason)"""
    res = []
    for _, y in leaves_ite(r.eng.deref(x, r.state)):
        res.append(identity1(ctx, c, kf, r, s, y))
    for v in (False, None, True):
        hit = [why for ok, why in res if ok is v]
        if hit:
            return v, hit[0]


def fresh_value(r, y):
    z = y.args[0] if y.op == "occ" else y
    if z.op == "call" and last(z.args[0]) in ("uuid4", "uuid1"):
        return True
    if z.op == "call" and last(z.args[0]) == "next":
        # a counter made on every call starts again
        if any(e.kind == "call" and last(e.name) == "count" and "itertools" in e.name for e in r.events):
            return False
        return True
    return None


def identity1(ctx, c, kf, r, s, y):
    if y is s:
        return True, "the quantity itself"
    f = fresh_value(r, y)
    if f is not None:
        return f, "a new value of a counter" if f else "%s: the counter starts again on every call" % show(y)
    if y.op == "call" and y.args[0] in ("builtins.id", "builtins.hash"):
        return False, "%s is reused for another quantity once this one is deleted" % show(y)
    name = None
    if y.op == "attr" and y.args[0] is s:
        name = y.args[1]
    elif y.op == "call" and last(y.args[0]) in ("get", "getattr"):
        k = [a.args[0] for a in y.args[1:] if isinstance(a, T) and a.op == "const" and isinstance(a.args[0], str)]
        name = k[0] if k and contains(y, s) else None
    elif y.op == "sub" and contains(y.args[0], s) and y.args[1].op == "const":
        name = y.args[1].args[0]
    if name is None:
        return None, "identity %s" % show(y)
    return unique_source(ctx, c, kf, r, s, name)


def flat_parts(x):
    if x.op in ("tuple", "list"):
        return [z for y in x.args for z in flat_parts(y)]
    return [x]


def unique_source(ctx, c, kf, r, s, name):
    """attribute filled from a counter / uuid, once per object"""
    import ast
    n = 0
    for e in r.events:
        if e.kind != "setattr" or e.name != name:
            continue
        if e.recv.op == "cls":
            return False, "%s is an attribute of the class: all quantities share the identity" % name
        if e.recv is not s:
            return None, "%s of %s" % (name, show(e.recv))
        n += 1
        for g, y in leaves_ite(r.eng.deref(e.args[0], e.st) if e.st is not None else e.args[0]):
            f = fresh_value(r, y)
            if f is False:
                return False, "%s = %s: the counter starts again on every call" % (name, show(y))
            if f is None:
                if y.op == "call" and y.args[0] in ("builtins.id", "builtins.hash"):
                    return False, "%s = %s is reused for another quantity once this one is deleted" % (name, show(y))
                if y.op == "const":
                    return False, "%s = %s: quantities share the identity" % (name, show(y))
                return None, "%s = %s" % (name, show(y))
    inner = {id(x) for x in ast.walk(kf.node)}
    for m in ctx.prog.modules.values():
        if m.name.split(".")[0] != "mlmc":
            continue
        for q in ast.walk(m.tree):
            if not isinstance(q, (ast.Assign, ast.AugAssign, ast.AnnAssign)) or id(q) in inner:
                continue
            for tg in q.targets if isinstance(q, ast.Assign) else [q.target]:
                if not (isinstance(tg, ast.Attribute) and tg.attr == name and q.value is not None):
                    continue
                n += 1
                txt = ast.unparse(q.value)
                v = q.value
                if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in ("next", "uuid4", "uuid1", "__next__"):
                    continue
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("id", "hash"):
                    return False, "%s: %s is reused for another quantity once this one is deleted" % (name, txt)
                if isinstance(v, ast.Constant) and isinstance(v.value, int):
                    return False, "%s = %s: all quantities share the identity" % (name, txt)
                return None, "%s = %s" % (name, txt)
    if not n:
        return None, "attribute %s is not assigned anywhere" % name
    return True, "attribute %s from a counter" % name


def keepers(ctx):
    """estimate_mean recomputes: the cache is emptied when storage may have changed"""
    import ast
    f = ctx.prog.func("mlmc.quantity.quantity_estimate.estimate_mean")
    r = ctx.run(f)
    clears = [e for e in r.events if e.kind == "call" and last(e.name) in ("cache_clear", "clear", "cache_quantity_samples_clear")]
    samp = [e for e in r.events if e.kind == "call" and last(e.name) == "samples"]
    cl = [e for e in clears if samp and e.seq < samp[0].seq and not conds(e)]
    names = sorted({str(e.name) for e in cl})
    w = "mlmc/quantity/quantity_estimate.py:estimate_mean"
    for cls, nm in ((Q, "Quantity"), (QC, "QuantityConst")):
        g = ctx.method(cls, "samples")
        if not any("cache" in ast.unparse(d) for d in g.node.decorator_list):
            ctx.ok("clear@" + nm, w, "not cached")
            continue
        hit = [e for e in cl if nm in [p for p in str(e.name).replace(":", ".").split(".")] or e.recv is not None and contains(e.recv, lambda y: y.op in ("cls", "func", "attr") and nm in str(y.args).replace("'", ".").split(".")) ]
        if hit:
            ctx.ok("clear@" + nm, w, "cleared before the samples are read: %s" % names)
        elif nm == "Quantity":
            if cl:
                ctx.und("clear@" + nm, w, "%s" % names)
            else:
                ctx.bad("clear@" + nm, w, "samples collected since the last estimate stay hidden: the cache of Quantity.samples is not cleared before reading")
        else:
            ctx.ok("clear@" + nm, w, "constants do not depend on the storage")


# ------------------------------------------------------------------------------------------------ Q05 indexing
A_, B_, I_ = sym("#A"), sym("#B"), sym("#I")
SL_ = lambda a, b: mk("slice", a, b, NONE)
ALL = SL_(NONE, NONE)


def scalars(ix, *ts):
    for s in ts:
        ix.atoms[s] = Arr((), lambda _, s=s: s)
    return ix


def key_kinds():
    a, b, k, l = sym("#a"), sym("#b"), sym("k"), sym("l")
    return [("item", tup(A_), k), ("row", tup(A_, B_), k), ("items", tup(A_, B_), tup(k, l)), ("range", tup(A_), SL_(a, b)), ("rows", tup(A_, B_), SL_(a, b)), ("column", tup(A_, B_), tup(ALL, k)),
            ("column-part", tup(A_, B_), tup(SL_(a, b), l)), ("single-range", tup(A_), SL_(const(2), const(3))), ("single-row", tup(A_, B_), SL_(const(2), const(3))), ("last", tup(A_, B_), const(-1))]


def inner_ix(inner, size):
    ix = scalars(Ix(), A_, B_, I_, sym("#a"), sym("#b"), sym("k"), sym("l"))
    ix.hook = lambda t: Arr((), lambda _: size) if t.op == "call" and last(t.args[0]) == "size" and inner in t.args[1:] and t.args[0] != "numpy.size" else None
    return ix


def istrue(ix, t):
    if t.op in ("tuple", "list"):
        return bool(t.args)
    if t.op == "const":
        return bool(t.args[0])
    if t.op == "ite":
        return istrue(ix, t.args[1] if istrue(ix, t.args[0]) else t.args[2])
    if t.op == "attr" and t.args[1] == "shape":
        return ix.ev(t.args[0]).rank > 0
    if t.op == "not":
        return not istrue(ix, t.args[0])
    if t.op == "bool":
        return (all if t.args[0] == "and" else any)(istrue(ix, x) for x in t.args[1:])
    if t.op == "cmp":
        o, a, b = t.args
        if o in ("==", "!="):
            if any(x.op in ("tuple", "list") or x.op == "attr" and x.args[1] == "shape" for x in (a, b)):
                x, y = shape_of(ix, a), shape_of(ix, b)
                e = len(x) == len(y) and all(Norm().equal(p, q) for p, q in zip(x, y))
            else:
                e = Norm().equal(scal(ix, a), scal(ix, b))
            return e if o == "==" else not e
        x, y = Norm()(scal(ix, a)), Norm()(scal(ix, b))
        if is_const(x) and is_const(y):
            u, v = x.args[0], y.args[0]
            return {"<": u < v, "<=": u <= v, ">": u > v, ">=": u >= v}[o]
    if t.op == "dim":
        x = scal(ix, t)
        if is_const(x):
            return bool(x.args[0])
    raise Unk("condition " + show(t, 4))


def scal(ix, t):
    if t.op == "ite":
        return scal(ix, t.args[1] if istrue(ix, t.args[0]) else t.args[2])
    if t.op == "dim" and t.args[0].op in ("tuple", "list", "ite") or t.op == "call" and t.args[0] == "builtins.len":
        return const(len(shape_of(ix, t.args[0] if t.op == "dim" else t.args[1])))
    if t.op == "sub" and is_const(t.args[1]) and isinstance(t.args[1].args[0], int):
        try:
            return shape_of(ix, t.args[0])[t.args[1].args[0]]
        except (Unk, IndexError):
            pass
    return length(ix, ix.sc(t))


def length(ix, d):
    if d.op == "range":
        return Norm()(binop("-", d.args[1], d.args[0]))
    if d.op == "merged":
        r = ONE
        for a in d.args:
            r = binop("*", r, length(ix, a))
        return r
    return ix.count(d)


def shape_of(ix, t):
    if t.op == "ite":
        return shape_of(ix, t.args[1] if istrue(ix, t.args[0]) else t.args[2])
    if t.op in ("tuple", "list"):
        return [scal(ix, a) for a in t.args]
    if t.op == "attr" and t.args[1] == "shape":
        return [length(ix, d) for d in ix.ev(t.args[0]).dims]
    if t.op == "call" and t.args[0] in ("builtins.tuple", "builtins.list", "numpy.shape") and len(t.args) == 2:
        return shape_of(ix, t.args[1]) if t.args[0] != "numpy.shape" else [length(ix, d) for d in ix.ev(t.args[1]).dims]
    raise Unk("shape " + show(t, 4))


def items_ref(ix, shape, key):
    """positions of the selected items in an array stored in C order"""
    n = len(shape.args)

    def fn(i):
        t = i[0]
        for d, j in zip(shape.args[1:], i[1:]):
            t = binop("+", binop("*", t, d), j)
        return t
    return ix.index(Arr(shape.args, fn), key)


def array_items(ctx):
    w = WT + "ArrayType._make_getitem_op"
    wk = WT + "ArrayType.get_key"
    inner = sym("inner")
    C = sym("$C")
    f = ctx.method(QT + "ArrayType", "_make_getitem_op")
    pc, pk = f.params()[1:3]
    gk = ctx.method(QT + "ArrayType", "get_key").params()[1]
    for nm, shape, key in key_kinds():
        for inm, I in (("scalar", ONE), ("structured", I_)):
            K = "items@%s-%s" % (nm, inm)
            ix = inner_ix(inner, I)
            tot = I
            for d in shape.args:
                tot = binop("*", tot, d)
            ix.atoms[C] = arr("S", Norm()(tot), N, P)
            r = ctx.run_method(QT + "ArrayType", "_make_getitem_op", fields={"_shape": shape, "_qtype": inner}, args={pc: C, pk: key})
            t = r.eng.deref(r.value, r.state)
            try:
                ref = items_ref(ix, shape, key)
                dims = [d for d in list(ref.dims) + [I] if d is not ONE]
                k = len(ref.dims)

                def want(c, n, p):
                    m = len(dims)
                    if m == 0:
                        ii, j = [const(0)] * k, const(0)
                    else:
                        u = [mk("unfl", const(q), const(m), c) if m > 1 else c for q in range(m)]
                        u = iter(u)
                        ii = [const(0) if d is ONE else next(u) for d in ref.dims]
                        j = const(0) if I is ONE else next(u)
                    return binop("+", binop("*", ref.fn(ii), I), j)
                got = ix.ev(pick(ix, t))
                if got.rank != 3:
                    ctx.bad(K, w, "items must have the axes component, sample, fine/coarse; found %d axes" % got.rank)
                    continue
                c, n, p = sym("c"), sym("n"), sym("p")
                e = Norm()(got.fn([c, n, p]))
                x = Norm()(mk("el", "S", Norm()(want(c, n, p)), n, p))
                tote = ONE
                for d in dims:
                    tote = binop("*", tote, length(ix, d))
                same_size = Norm().equal(length(ix, got.dims[0]), tote)
                ctx.req(same_size and (e is x or same_el(e, x)), K, w, "component c of array[key] must be component %s; found %s (%s components, expected %s)" % (show(x, 9), show(e, 9), show(length(ix, got.dims[0]), 6), show(tote, 6)))
            except SizeErr as u:
                ctx.bad(K, w, "array of items of size %s: %s" % (show(I), u))
                continue
            except Unk as u:
                ctx.und(K, w, u)
                continue
            # the type promised for the selected items
            r = ctx.run_method(QT + "ArrayType", "get_key", fields={"_shape": shape, "_qtype": inner}, args={gk: key})
            v = r.eng.deref(r.value, r.state)
            try:
                v = pick(ix, v)
                if v.op != "tuple" or len(v.args) != 2:
                    raise Unk(show(v, 4))
                ty, st = [r.eng.deref(x, r.state) for x in v.args]
                ty = pick(ix, ty)
                rd = [length(ix, d) for d in ref.dims]
                single = not rd or len(rd) == 1 and is_const(Norm()(rd[0]), 1)
                if single:
                    ctx.req(ty is inner, "item-type@%s-%s" % (nm, inm), wk, "one selected item has the type of the items; found %s" % show(ty, 5))
                elif not is_new(ty, "ArrayType"):
                    ctx.bad("item-type@%s-%s" % (nm, inm), wk, "several items must be an array of items; found %s" % show(ty, 5)) if ty is inner else ctx.und("item-type@%s-%s" % (nm, inm), wk, show(ty, 5))
                else:
                    sh = shape_of(ix, r.eng.deref(kwget(ty, "shape"), r.state))
                    ok = len(sh) == len(rd) and all(Norm().equal(a, b) for a, b in zip(sh, rd)) and kwget(ty, "qtype") is inner
                    ctx.req(ok, "item-type@%s-%s" % (nm, inm), wk, "type of the selected items must have the shape %s of items of the same type; found shape %s of %s" % ([show(x) for x in rd], [show(x) for x in sh], show(kwget(ty, "qtype"))))
            except Unk as u:
                ctx.und("item-type@%s-%s" % (nm, inm), wk, u)


def same_el(a, b):
    return a.op == "el" and b.op == "el" and len(a.args) == len(b.args) and a.args[0] == b.args[0] and all(Norm().equal(x, y) for x, y in zip(a.args[1:], b.args[1:]))


def pick(ix, t):
    while t.op == "ite":
        t = t.args[1] if istrue(ix, t.args[0]) else t.args[2]
    return t


def plain_items(ctx):
    w = WT + "QType._make_getitem_op"
    for cls in ("FieldType", "DictType", "TimeSeriesType"):
        f = ctx.method(QT + cls, "_make_getitem_op")
        pc, pk = f.params()[1:3]
        C, s, z = sym("$C"), sym("s"), sym("z")
        ix = scalars(Ix({C: arr("S", M, N, P)}), s, z)
        r = ctx.run_method(QT + cls, "_make_getitem_op", args={pc: C, pk: SL_(s, binop("+", s, z))})
        try:
            got = ix.ev(pick(ix, r.eng.deref(r.value, r.state)))
            c, n, p = sym("c"), sym("n"), sym("p")
            ok = got.rank == 3 and Norm().equal(length(ix, got.dims[0]), z) and same_el(got.fn([c, n, p]), mk("el", "S", binop("+", s, c), n, p))
            ctx.req(ok, "items@" + cls, w, "component c of a block from s must be component s + c; found %s" % (show(got.fn([c, n, p]), 8) if got.rank == 3 else "%d axes" % got.rank))
        except Unk as u:
            ctx.und("items@" + cls, w, u)


def getitem(ctx):
    """Quantity[key] and QuantityMean[key] take the same components"""
    for cls, nm in ((Q, "Quantity"), (QM, "QuantityMean")):
        f = ctx.method(cls, "__getitem__")
        w = W + nm + ".__getitem__"
        kp = f.params()[1]
        kt = sym(kp)
        r = ctx.run(f, ctx.prog.cls(cls))
        res = r.eng.deref(r.value, r.state)
        qt_ = attr(SLF, "qtype")
        gk = mk("call", ".get_key", qt_, kt)
        g0, g1 = mk("sub", gk, const(0)), mk("sub", gk, const(1))
        alts = [res]
        if res.op == "ite":
            alts = [l for _, l in leaves_ite(res)]
        for isarr in (True, False):
            K = "getitem@%s-%s" % (nm, "array" if isarr else "block")

            def decide(t):
                m = {y: const(isarr) for y in walk(t) if is_arr_test(y, qt_)}
                return subst(t, m) if m else t
            v = decide(res)
            if not is_new(v, nm):
                ctx.und(K, w, "result %s" % show(v, 4))
                continue
            ctx.req(strip_get(kwget(v, "quantity_type")) is g0, K + "-type", w, "type of the items must come from the type's get_key; found %s" % show(kwget(v, "quantity_type"), 5))
            size = mk("call", ".size", g0)

            def hook(t, ix):
                if t.op == "call" and last(t.args[0]) == "_make_getitem_op" and qt_ in t.args[1:2]:
                    pos = [a for a in t.args[2:] if isinstance(a, T) and a.op != "kw"]
                    kw = {a.args[0]: a.args[1] for a in t.args[2:] if isinstance(a, T) and a.op == "kw"}
                    ch = pos[0] if pos else kw.get("chunk")
                    k = pos[1] if len(pos) > 1 else kw.get("key")
                    if ch is None or k is None:
                        raise Unk("arguments of _make_getitem_op")
                    x = ix.ev(decide(ch))
                    k = decide(k)
                    if x.rank != 3:
                        raise SizeErr("items are taken from an array with %d axes; the operation needs [components, samples, fine/coarse]" % x.rank)
                    if not isarr:
                        if k.op != "slice":
                            raise SizeErr("block addressed by %s, not by its range of components" % show(k, 4))
                        lo, hi = k.args[0], k.args[1]
                        if lo is NONE:
                            lo = const(0)
                        return Arr((mk("range", lo, hi),) + tuple(x.dims[1:]), lambda i: x.fn([binop("+", lo, i[0])] + list(i[1:])))
                    return Arr((mk("gdim", k),) + tuple(x.dims[1:]), lambda i: x.fn([mk("gix", k, i[0])] + list(i[1:])))
                return None

            def check(key, t, src, want, nd):
                try:
                    ix = scalars(Ix(src), size, g1)
                    ix.hook = lambda x: hook(x, ix)
                    a = ix.ev(decide(t))
                    vs = [sym("i%d" % j) for j in range(nd)]
                    if a.rank != nd:
                        ctx.bad(key, w, "%d axes instead of %d" % (a.rank, nd))
                        return
                    e = a.fn(vs)
                    x = want(vs)
                    ax = 0 if nd == 3 else 1
                    d = a.dims[ax]
                    okd = d.op == "gdim" and d.args[0] is kt if isarr else d.op == "range" and Norm().equal(binop("-", d.args[1], d.args[0]), size)
                    ctx.req(okd and same_el(Norm()(e), Norm()(x)), key, w, "must be %s; found %s with components %s" % (show(x, 9), show(e, 9), show(d, 6)))
                except SizeErr as u:
                    ctx.bad(key, w, u)
                except Unk as u:
                    if nd == 2:
                        means_by_kind(ctx, key, w, lambda t, k: subst(decide(t), {kt: k}), t, src, qt_, size, g1, isarr, u)
                    else:
                        ctx.und(key, w, u)
            at = lambda i: mk("gix", kt, i) if isarr else binop("+", g1, i)
            if nm == "Quantity":
                op, ins, _ = ops_of(v)
                il = in_list(ctx, r, ins)
                ctx.req(il == [SLF], K + "-input", w, "items must be taken from the samples of this quantity; inputs %s" % show(ins, 4))
                C = sym("$C")
                check(K, apply_op(r, op, [C]), {C: arr("S", M, N, P)}, lambda i: mk("el", "S", at(i[0]), i[1], i[2]), 3)
            else:
                lm, lv = attr(SLF, "_l_means"), attr(SLF, "_l_vars")
                for a, s in (("l_means", lm), ("l_vars", lv)):
                    got = kwget(v, a)
                    other = lv if s is lm else lm
                    check("%s-%s" % (K, a), got, {s: arr("S", L, M), other: arr("O", L, M)}, lambda i: mk("el", "S", i[0], at(i[1])), 2)
                for a in ("n_samples", "n_rm_samples"):
                    ctx.req(kwget(v, a) in (attr(SLF, "_" + a), attr(SLF, a)), "%s-%s" % (K, a), w, "%s of the items must be that of the whole; found %s" % (a, show(kwget(v, a), 5)))


def means_by_kind(ctx, key, w, put, t, src, qt_, size, g1, isarr, why):
    """level means reshaped by the type first and indexed then: compared for particular kinds of keys"""
    inner = sym("inner")
    name = [x for x, a in src.items() if a.fn([ONE, ONE]).args[0] == "S"][0]
    for nm, shape, k in key_kinds() if isarr else [("block", None, sym("key"))]:
        for inm, I in (("scalar", ONE), ("structured", I_)):
            kk = "%s-%s-%s" % (key, nm, inm)
            ix = inner_ix(inner, I)
            scalars(ix, size, g1)
            tot = I
            for d in shape.args if isarr else ():
                tot = binop("*", tot, d)
            ix.atoms[name] = arr("S", L, Norm()(tot) if isarr else M)

            def hook(y):
                if y.op == "call" and last(y.args[0]) == "reshape" and len(y.args) == 3 and y.args[1] is qt_:
                    if not isarr:
                        return ix.ev(y.args[2])
                    return ix.reshape(ix.ev(y.args[2]), tup(*shape.args) if I is ONE else tup(*shape.args, I))
                return None
            ix.hook = hook
            try:
                got = ix.ev(put(t, k))
                if got.rank != 2:
                    raise SizeErr("%d axes instead of 2" % got.rank)
                l, c = sym("l_"), sym("c")
                e = got.fn([l, c])
                if isarr:
                    ref = items_ref(ix, shape, k)
                    dims = [d for d in list(ref.dims) + [I] if d is not ONE]
                    m = len(dims)
                    u = iter([mk("unfl", const(q), const(m), c) if m > 1 else c for q in range(m)])
                    pos = ref.fn([const(0) if d is ONE else next(u) for d in ref.dims])
                    pos = binop("+", binop("*", pos, I), const(0) if I is ONE else next(u))
                    n = ONE
                    for d in dims:
                        n = binop("*", n, length(ix, d))
                else:
                    pos, n = binop("+", g1, c), size
                x = Norm()(mk("el", "S", l, Norm()(pos)))
                ctx.req(Norm().equal(length(ix, got.dims[1]), n) and same_el(Norm()(e), x), kk, w, "item values must be %s (%s components); found %s (%s components)" % (show(x, 9), show(n), show(e, 9), show(length(ix, got.dims[1]), 6)))
            except SizeErr as u:
                ctx.bad(kk, w, u)
            except Unk as u:
                ctx.und(kk, w, "%s; %s" % (why, u))


def strip_get(t):
    if t is not None and t.op == "call" and t.args[0] in ("builtins.tuple", "copy.copy", "copy.deepcopy") and len(t.args) == 2:
        return strip_get(t.args[1])
    return t


def is_arr_test(c, qt_):
    return c.op == "call" and c.args[0] == "builtins.isinstance" and c.args[1] is qt_ and "ArrayType" in str(c.args[2].args)


@prop("Q05", "Indexing: array denotation of the operation taking items of an ArrayType (nine key kinds over symbolic shapes and item sizes) and of block access of the other types, compared with C-order addressing; "
      "agreement of the declared type with the selected shape; Quantity[key] and QuantityMean[key] must apply the same selection to the component axis of samples and of level means and variances.",
      ["index ranges lie inside the array", "numpy indexing and reshape semantics"])
def q05(ctx):
    types(ctx)
    array_items(ctx)
    plain_items(ctx)
    getitem(ctx)


@prop("Q03", "")
def q03_size(ctx):
    r = ctx.run_method("mlmc.quantity.quantity.Quantity", "size")
    t = r.eng.deref(r.value, r.state)
    w = "mlmc/quantity/quantity.py:Quantity.size"
    if t.op == "call" and last(str(t.args[0])) == "size" or t.op == "attr" and t.args[1] == "size":
        ctx.req(contains(t, attr(sym("self"), "qtype")) or contains(t, attr(sym("self"), "_qtype")), "size@quantity", w, "size of the quantity's type; found %s" % show(t, 4))
    elif t.op in ("poly", "bin", "const"):
        ctx.bad("size@quantity", w, "size of the quantity's type; found %s" % show(t, 4))
    else:
        ctx.und("size@quantity", w, show(t, 4))
