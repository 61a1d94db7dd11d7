"""Counting while loops are read as the for loops they are:  i = a; while i < E: ...; i += k  ->  for i in range(a, E, k).
Applied to the syntax tree only where both forms run the same: the counter is stored nowhere else in the loop, the bound does not
change in it, no continue skips the step, and the counter is not read after the loop unless it is set before."""
import ast

FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def stored(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                out |= set(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


def touched(nodes):
    """names of objects whose attributes, items or length may change"""
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                y = x
                while isinstance(y, (ast.Attribute, ast.Subscript)):
                    y = y.value
                if isinstance(y, ast.Name):
                    out.add(y.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                out.add(x.func.value.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
    return out


def own_continue(body):
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, FN) or isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if isinstance(s, (ast.For, ast.While)) and own_continue(s.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if own_continue(getattr(s, f, []) or []):
                return True
        for h in getattr(s, "handlers", []) or []:
            if own_continue(h.body):
                return True
    return False


def step(s, i):
    """increment of counter i by a positive constant"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.op, ast.Add):
        v = s.value
    elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        a, b = s.value.left, s.value.right
        if isinstance(b, ast.Name) and b.id == i:
            a, b = b, a
        if not (isinstance(a, ast.Name) and a.id == i):
            return None
        v = b
    else:
        return None
    return v if isinstance(v, ast.Constant) and isinstance(v.value, int) and not isinstance(v.value, bool) and v.value > 0 else None


def bound(test, i):
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    l, o, r = test.left, test.ops[0], test.comparators[0]
    if isinstance(r, ast.Name) and r.id == i and isinstance(o, (ast.Gt, ast.GtE)):
        l, o, r = r, (ast.Lt() if isinstance(o, ast.Gt) else ast.LtE()), l
    if not (isinstance(l, ast.Name) and l.id == i) or i in names(r, ast.Load):
        return None
    if isinstance(o, ast.Lt):
        return r
    if isinstance(o, ast.LtE):
        return ast.BinOp(r, ast.Add(), ast.Constant(1))
    return None


def invariant(e, body):
    st, tc = stored(body), touched(body)
    for x in ast.walk(e):
        if isinstance(x, ast.Name):
            if x.id in st:
                return False
        elif isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and x.args[0].id not in tc):
                return False
        elif isinstance(x, ast.Attribute):
            y = x
            while isinstance(y, ast.Attribute):
                y = y.value
            if not isinstance(y, ast.Name) or y.id in tc:
                return False
        elif not isinstance(x, (ast.Constant, ast.BinOp, ast.operator, ast.expr_context, ast.UnaryOp, ast.unaryop)):
            return False
    return True


def read_later(fn, loop, i):
    """is the counter read outside the loop, other than after being set again (by order of text)"""
    inside = {id(x) for x in ast.walk(loop)}
    ev = sorted(((x.lineno, x.col_offset, isinstance(x.ctx, ast.Load)) for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == i and id(x) not in inside), key=lambda z: z[:2])
    out = {"loop": False}
    nested = [x for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While)) and x is not loop and id(loop) in {id(y) for y in ast.walk(x)}]
    for l, c, load in ev:
        if (l, c) < (loop.lineno, loop.col_offset):
            if load and nested and any((x.lineno, x.col_offset) <= (l, c) for x in nested):
                # read before the counter is set again in an outer loop
                st = [z for z in ev if not z[2] and (nested[0].lineno, nested[0].col_offset) <= z[:2] < (l, c)]
                if not st:
                    return True
            continue
        if load:
            # a comprehension or loop of its own that sets the name counts as set on the same line
            if not any(not z[2] and z[0] == l for z in ev):
                return True
            continue
        return False
    return False


def block(fn, b):
    out = []
    for s in b:
        done = None
        if isinstance(s, ast.While) and not s.orelse and len(s.body) > 1 and fn is not None:
            last = s.body[-1]
            t = last.target if isinstance(last, ast.AugAssign) else last.targets[0] if isinstance(last, ast.Assign) else None
            i = t.id if isinstance(t, ast.Name) else None
            k = step(last, i) if i else None
            e = bound(s.test, i) if i else None
            rest = s.body[:-1]
            if k is not None and e is not None and i not in stored(rest) and not own_continue(rest) and invariant(e, rest) and not read_later(fn, s, i):
                j = len(out) - 1
                while j >= 0 and not (isinstance(out[j], ast.Assign) and i in stored([out[j]])):
                    if i in names(out[j], (ast.Load, ast.Store)) or not isinstance(out[j], (ast.Assign, ast.AugAssign, ast.Expr)):
                        j = -1
                        break
                    j -= 1
                if j >= 0 and len(out[j].targets) == 1 and isinstance(out[j].targets[0], ast.Name) and isinstance(out[j].value, ast.Constant) and type(out[j].value.value) is int:
                    a = out[j].value
                    args = [e] if a.value == 0 and k.value == 1 else [a, e] if k.value == 1 else [a, e, k]
                    f = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), args, []), rest, [], None)
                    for x in (f, f.target, f.iter, f.iter.func):
                        ast.copy_location(x, s)
                    ast.fix_missing_locations(f)
                    f.end_lineno, f.end_col_offset = s.end_lineno, s.end_col_offset
                    done = f
                    del out[j]
        out.append(done or s)
    return out


def counting(tree):
    def go(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = n
        elif isinstance(n, ast.ClassDef):
            fn = None
        for c in ast.iter_child_nodes(n):
            go(c, fn)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and any(isinstance(x, ast.While) for x in b):
                setattr(n, f, block(fn, b))
    go(tree, None)
    return tree
