"""Interprocedural value-flow / effect analysis (abstract interpretation with joins).

Every function body is evaluated once over hash-consed value terms (gated SSA: `ite` at joins, `mu`/`each`/
`bsum`/`fstore` for loops), repo helpers are expanded at their call sites, and everything observable (opaque calls,
attribute and item writes, raises, deletes, context entry) is recorded as an ordered *event* with the
control conditions, loops, locks and try-regions it is under.  No path is enumerated, no solver is used and no repo code is executed.
"""
import ast
import re
import string

from .repo import Func, Class, Module, AnchorError, own_nodes, import_map
from .terms import *
from .terms import T, mk

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__.keys())
IMPURE = re.compile(
    r"^(time\..*|numpy\.random\..*|random\..*|uuid\..*|os\.getcwd|os\.listdir|glob\..*|"
    r"\.(get_finished|pop|popleft|get_nowait|read|readline|readlines|sample|rvs|normal|uniform|choice|randn|rand|next|poll|communicate)|"
    r"builtins\.(next|input))$")
ALLOC = {"numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full", "numpy.zeros_like", "numpy.empty_like",
         "numpy.ones_like", "numpy.array", "copy.copy", "copy.deepcopy", "numpy.copy", "collections.defaultdict",
         "collections.deque", "collections.OrderedDict"}
MAXDEPTH = 14
# constructors a snapshot descends through (computed values below them were snapshot when they were computed)
STRUCT = {"tuple", "list", "dict", "cat", "each", "store", "fstore", "ite", "kw", "asset", "last", "star", "partial",
          "deleted", "amb", "slice", "accum"}

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}


class TermExpr(ast.expr):
    """a value already computed, its loop indices given by names"""
    _fields = ()

    def __init__(self, t, m):
        super().__init__()
        self.t, self.m = t, m


# positional names of library functions: keywords are normalised to positions
EXT_PARAMS = {
    "shutil.copytree": ("src", "dst"), "shutil.move": ("src", "dst"), "shutil.copy": ("src", "dst"), "shutil.copy2": ("src", "dst"),
    "shutil.copyfile": ("src", "dst"), "shutil.rmtree": ("path",), "os.makedirs": ("name",), "os.mkdir": ("path",), "os.chdir": ("path",),
    "os.remove": ("path",), "os.unlink": ("path",), "os.rename": ("src", "dst"), "os.replace": ("src", "dst"), "os.listdir": ("path",), "os.rmdir": ("path",),
    "os.path.exists": ("path",), "os.path.isdir": ("s",), "os.path.isfile": ("path",), "os.path.abspath": ("path",),
    "numpy.save": ("file", "arr"), "builtins.open": ("file", "mode"),
    "numpy.reshape": ("a", "newshape"), "numpy.transpose": ("a", "axes"), "numpy.dot": ("a", "b"), "numpy.matmul": ("x1", "x2"),
    "numpy.outer": ("a", "b"), "numpy.linalg.solve": ("a", "b"), "numpy.interp": ("x", "xp", "fp"), "numpy.searchsorted": ("a", "v"),
    "numpy.linspace": ("start", "stop", "num"), "numpy.full": ("shape", "fill_value"), "numpy.polyfit": ("x", "y", "deg"),
}


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kw", "guards", "loops", "locks", "tries", "file", "func", "line",
                 "seq", "result", "callee", "heap", "st", "node", "stack", "lockids")

    def where(self):
        return "%s:%s:%s" % (self.file, self.func, self.line)

    def arg(self, i, name=None):
        if name is not None and name in self.kw:
            return self.kw[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def __repr__(self):
        g = " if " + " & ".join(("" if p else "!") + show(c, 4) for c, p in self.guards) if self.guards else ""
        return "#%d %s %s(%s%s)%s%s%s @%s:%s" % (
            self.seq, self.kind, self.name, (show(self.recv, 4) + "; ") if self.recv is not None else "",
            ", ".join([show(a, 6) for a in self.args] + ["%s=%s" % (k, show(v, 6)) for k, v in self.kw.items()]),
            g, " loops=%d" % len(self.loops) if self.loops else "", " locks=%s" % [show(l, 3) for l in self.locks] if self.locks else "",
            self.func, self.line)


class St:
    __slots__ = ("env", "heap", "guards")

    def __init__(self, env, heap, guards):
        self.env, self.heap, self.guards = env, heap, guards

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.guards)


class Frame:
    def __init__(self, func, module, cls, parent=None):
        self.func, self.module, self.cls = func, module, cls
        self.exits = []      # (state, value)
        self.raises = []     # (state, exc)
        self.loops = []      # stack of loop records
        self.yields = None
        self.parent = parent  # lexically enclosing env dict (closures)
        self.line = 0


class Closure:
    def __init__(self, node, module, cls, env, frame, self_cls):
        self.node, self.module, self.cls, self.env, self.frame, self.self_cls = node, module, cls, env, frame, self_cls


class Result:
    """Summary of one analysed entry point."""

    def __init__(self, eng, state, value, exits, raises, events):
        self.eng, self.state, self.value, self.exits, self.raises, self.events = eng, state, value, exits, raises, events

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and e.name in names]

    def sets(self, attrname=None):
        return [e for e in self.events if e.kind == "setattr" and (attrname is None or e.name == attrname)]

    def field(self, obj, name):
        v = self.state.heap.get(("f", obj, name))
        return None if v is None else self.eng.deref(v, self.state)


class Engine:
    def __init__(self, prog, opaque=(), inline_types=(), types=None, no_inline_modules=(), given=None, unroll=8):
        self.prog = prog
        self.max_unroll = unroll               # longest constant range expanded element by element
        self.given = dict(given or {})         # (receiver term, method name) -> value the call returns
        self.opaque = set(opaque)              # qualified names ("Class.method" or full) never expanded
        self.inline_types = set(inline_types)  # class names whose methods / constructors are expanded on non-self receivers
        self.types = dict(types or {})         # term -> Class
        self.field_types = {}                  # (class name, field) -> class full name
        self.events = []
        self.quiet = 0
        self.loops, self.locks, self.tries = (), (), ()
        self.lockids, self.nlock = (), 0       # one number per critical section, parallel to `locks`
        self.track = set()                     # attribute names whose reads are recorded as events
        self.stack = []
        self.nobj = 0
        self.nloop = 0
        self.nfuse = 0
        self.ntry = 0
        self.occ = {}
        self.closures = {}
        self.kind = {}
        self.cfacts = {}
        self.iterraw = {}      # loop instance -> iterated object
        self.loopinfo = {}     # mu term -> (init, update)
        self.analysed = set()
        self.unresolved = 0
        self.frames = []

    # ------------------------------------------------------------ entry points
    def run(self, func, self_cls=None, args=None, fields=None, state=None, self_obj=None):
        """Analyse `func` (Func). self_cls: concrete class of self.  args: param name -> term (default: symbols)."""
        args = dict(args or {})
        st = state or St({}, {}, ())
        params = func.params()
        bound = {}
        if func.cls is not None and not func.static and params:
            c = self_cls or func.cls
            if func.classmethod:
                so = mk("cls", c.full)
            else:
                so = self_obj or mk("sym", "self")
                self.types[so] = c
            bound[params[0]] = so
            params = params[1:]
        for f, v in (fields or {}).items():
            st.heap[("f", so, f)] = v
        a = func.node.args
        for p in params + [x.arg for x in a.kwonlyargs]:
            t = args.get(p)
            if t is None:
                t = sym(p)
                self.annotate(t, func, p)
            bound[p] = t
        if a.vararg:
            bound[a.vararg.arg] = args.get(a.vararg.arg) or sym("*" + a.vararg.arg)
        if a.kwarg:
            bound[a.kwarg.arg] = args.get(a.kwarg.arg) or sym("**" + a.kwarg.arg)
        n0 = len(self.events)
        fr, out, val = self.exec_function(func.node, func, func.module, func.cls, bound, st, self_cls or func.cls)
        return Result(self, out if out is not None else st, val, fr.exits, fr.raises, self.events[n0:])

    def annotate(self, t, func, p):
        for x in func.node.args.args + func.node.args.kwonlyargs:
            if x.arg == p and x.annotation is not None:
                o = self.prog.resolve_expr(x.annotation, func.module)
                if isinstance(o, Class):
                    self.types[t] = o

    # ------------------------------------------------------------ functions
    def exec_function(self, node, func, module, cls, env, st, self_cls, parent=None):
        fr = Frame(func, module, cls, parent)
        fr.self_cls = self_cls
        fr.guards0 = st.guards
        if func is not None:
            self.analysed.add(func.full)
            if func.is_gen:
                fr.yields = self.alloc("list", mk("list"), st)
        saved = st.env
        inner = St(dict(env), st.heap, st.guards)
        if fr.yields is not None:
            inner.env["<yields>"] = fr.yields
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, inner)
                fr.exits.append((inner, v))
                end = None
            else:
                end = self.block(node.body, inner)
                if end is not None:
                    fr.exits.append((end, NONE))
        finally:
            self.frames.pop()
        if not fr.exits:
            return fr, None, mk("never")
        if fr.yields is not None:
            for s, v in fr.exits:
                pass
        s, v = self.merge_exits(fr.exits)
        if fr.yields is not None:
            v = fr.yields
        out = St(saved, s.heap, s.guards)
        return fr, out, v

    def merge_exits(self, exits):
        sts = []
        for s, v in exits:
            c = St(dict(s.env), s.heap, s.guards)
            c.env["<ret>"] = v
            sts.append(c)
        s = self.merge(sts)
        v = s.env.pop("<ret>")
        return s, v

    # ------------------------------------------------------------ joins
    def merge(self, sts):
        if len(sts) == 1:
            return sts[0]
        n = 0
        while all(len(s.guards) > n for s in sts) and all(s.guards[n] == sts[0].guards[n] for s in sts):
            n += 1
        with_g = [s for s in sts if len(s.guards) > n]
        c = None
        if with_g:
            c = with_g[0].guards[n][0]
        A = [s for s in sts if len(s.guards) > n and s.guards[n][0] is c and s.guards[n][1]]
        B = [s for s in sts if len(s.guards) > n and s.guards[n][0] is c and not s.guards[n][1]]
        R = [s for s in sts if s not in A and s not in B]
        if R:
            # states not separated by a condition
            if A or B:
                x = self.merge(A + B) if len(A + B) > 1 else (A + B)[0]
            else:
                x = R.pop()
            r = self.merge(R) if len(R) > 1 else (R[0] if R else None)
            if r is None:
                return x
            return self.join2(mk("sym", "?join"), x, r, sts[0].guards[:n])
        if not A or not B:
            # same polarity everywhere but longer guards: impossible because of prefix; defensive
            g = sts[0].guards[:n + 1]
            r = sts[0]
            for s in sts[1:]:
                r = self.join2(mk("sym", "?join"), r, s, g)
            return r
        a = self.merge(A)
        b = self.merge(B)
        return self.join2(c, a, b, sts[0].guards[:n])

    def join2(self, c, a, b, guards):
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                z = x if x is not None else y
                env[k] = z if not isinstance(z, T) else (z if x is y else ite(c, x or mk("undef", k), y or mk("undef", k)))
            elif x is y:
                env[k] = x
            else:
                env[k] = ite(c, x, y)
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                heap[k] = x
                continue
            if x is None or y is None:
                base = self.initial(k)
                x = x if x is not None else base
                y = y if y is not None else base
            heap[k] = ite(c, x, y)
        return St(env, heap, guards)

    def initial(self, key):
        if key[0] == "f":
            return attr(key[1], key[2])
        if key[0] == "g":
            return sym("glob:" + key[1])
        return key[1]

    # ------------------------------------------------------------ heap
    def alloc(self, kind, content, st):
        self.nobj += 1
        o = mk("obj", self.nobj, kind)
        self.kind[o] = kind
        st.heap[("c", o)] = content
        return o

    def content(self, t, st):
        """Current content term of a container value (raw, elements may be references)."""
        c = st.heap.get(("c", t))
        if c is not None:
            return c
        if t.op == "ite":
            return ite(t.args[0], self.content(t.args[1], st), self.content(t.args[2], st))
        return t

    def deref(self, t, st, _ex=()):
        """Snapshot: replace references by their current content (recursively)."""
        memo = {}
        heap = st.heap
        mutated = {k[1] for k in heap if k[0] == "c"}

        def go(x, ex):
            key = (x, ex)
            if key in memo:
                return memo[key]
            if x in mutated and x not in ex:
                r = go(heap[("c", x)], ex | {x})
                if self.kind.get(x) == "set":
                    r = mk("asset", distinct(r))
            elif x.op in STRUCT:
                ch, na = False, []
                for a in x.args:
                    if isinstance(a, T):
                        b = go(a, ex)
                        ch |= b is not a
                        na.append(b)
                    else:
                        na.append(a)
                r = rebuild(x.op, na) if ch else x
            else:
                r = x
            memo[key] = r
            return r

        if not mutated:
            return t
        return go(t, frozenset(_ex))

    def typeof(self, t):
        c = self.types.get(t)
        if c is not None:
            return c
        if t.op == "new":
            o = self.prog.lookup(t.args[0])
            return o if isinstance(o, Class) else None
        if t.op == "attr":
            bc = self.typeof(t.args[0])
            if bc is not None:
                for k in self.prog.mro(bc):
                    ft = self.field_type(k, t.args[1])
                    if ft:
                        return ft
        if t.op == "ite":
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            if a is b:
                return a
        return None

    def field_type(self, k, name):
        """Class of the objects ever assigned to field `name` in class k (annotated parameter or repo constructor)."""
        key = (k.full, name)
        if key in self.field_types:
            return self.field_types[key]
        found = set()
        for f in k.methods.values():
            ps = f.params()
            if not ps or f.static:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name)
                                                     and t.value.id == ps[0] for t in n.targets):
                    v, o = n.value, None
                    if isinstance(v, ast.Name):
                        for x in f.node.args.args:
                            if x.arg == v.id and x.annotation is not None:
                                o = self.prog.resolve_expr(x.annotation, f.module)
                    elif isinstance(v, ast.Call):
                        o = self.prog.resolve_expr(v.func, f.module)
                        if isinstance(o, Func) and o.node.returns is not None:
                            o = self.prog.resolve_expr(o.node.returns, o.module)
                    elif isinstance(v, ast.Constant) and v.value is None:
                        continue
                    found.add(o if isinstance(o, Class) else None)
        r = found.pop() if len(found) == 1 else None
        self.field_types[key] = r
        return r

    # ------------------------------------------------------------ events
    def emit(self, kind, name, st, recv=None, args=(), kw=None, result=None, callee=None, node=None):
        if self.quiet:
            return None
        e = Event()
        fr = self.frames[-1] if self.frames else None
        e.kind, e.name, e.recv = kind, name, recv if recv is None else self.deref(recv, st)
        e.args = tuple(self.deref(a, st) for a in args)
        e.kw = {k: self.deref(v, st) for k, v in (kw or {}).items()}
        e.guards, e.loops, e.locks, e.tries = st.guards, self.loops, self.locks, self.tries
        e.file = fr.module.path if fr else "?"
        e.func = fr.func.qual if fr and fr.func else "<lambda>"
        e.line = getattr(node, "lineno", fr.line if fr else 0)
        e.seq = len(self.events)
        e.result, e.callee, e.st, e.node = result, (callee if callee is not None else recv), st.copy(), node
        e.stack = tuple(self.stack)
        e.lockids = self.lockids
        self.events.append(e)
        return e

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            st = self.stmt(s, st)
            if st is None:
                return None
        return st

    def stmt(self, s, st):
        fr = self.frames[-1]
        fr.line = getattr(s, "lineno", fr.line)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        v = self.ev(s.value, st)
        if v.op == "never":
            return None
        return st

    def s_Pass(self, s, st):
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if v.op == "never":
            return None
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if v.op == "never":
                return None
            self.assign(s.target, v, st)
        return st

    def s_AugAssign(self, s, st):
        o = BINOPS[type(s.op)]
        cur = self.ev(_load(s.target), st)
        rhs = self.ev(s.value, st)
        c = self.content(cur, st)
        listy = cur.op == "obj" and self.kind.get(cur) == "list" or c.op in ("list", "cat")
        if o == "+" and listy:
            st.heap[("c", cur)] = cat(spread(c), spread(self.seqval(rhs, st)))
            if not isinstance(s.target, ast.Name):
                self.assign(s.target, cur, st)
            return st
        if cur.op == "obj" and self.kind.get(cur) == "set":
            st.heap[("c", cur)] = mk("bin", o, c, self.content(rhs, st))
            return st
        if cur.op == "obj" and self.kind.get(cur) in ("array",):
            st.heap[("c", cur)] = self.binop(o, c, rhs, st)
            self.emit("augassign", o, st, recv=cur, args=(rhs,), node=s)
            return st
        self.assign(s.target, self.binop(o, cur, rhs, st), st, aug=True)
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if v.op == "never":
            return None
        fr = self.frames[-1]
        fr.exits.append((st, v))
        for L in fr.loops:
            L["exits"] = True
        return None

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else sym("reraise")
        self.emit("raise", "raise", st, args=(v,), node=s)
        self.frames[-1].raises.append((st, v))
        return None

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        if is_const(c, True):
            return st
        bad = st.copy()
        bad.guards = st.guards + (guard(c, False),)
        self.emit("raise", "assert", bad, args=(c,), node=s)
        self.frames[-1].raises.append((bad, mk("call", "builtins.AssertionError")))
        st.guards = st.guards + (guard(c, True),)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                i = self.ev(t.slice, st)
                self.emit("delitem", "del", st, recv=b, args=(i,), node=s)
                st.heap[("c", b)] = mk("deleted", self.content(b, st), i)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.emit("delattr", t.attr, st, recv=b, node=s)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_Import(self, s, st):
        for k, v in import_map(s, self.frames[-1].module).items():
            st.env[k] = self.named(v)
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.closure(s, st)
        return st

    def s_Global(self, s, st):
        return st

    s_Nonlocal = s_Global

    def s_Break(self, s, st):
        self.emit("break", "break", st, node=s)
        self.frames[-1].loops[-1]["breaks"].append(st)
        return None

    def s_Continue(self, s, st):
        self.frames[-1].loops[-1]["continues"].append(st)
        return None

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        known = self.decide(c, st)
        if known is True:
            return self.block(s.body, st)
        if known is False:
            return self.block(s.orelse, st)
        if c.op == "bool" and c.args[0] == "and" and not s.orelse:
            pass
        a, b = st.copy(), st.copy()
        a.guards = st.guards + (guard(c, True),)
        b.guards = st.guards + (guard(c, False),)
        a2 = self.block(s.body, a)
        b2 = self.block(s.orelse, b)
        if a2 is None and b2 is None:
            return None
        if a2 is None:
            return b2
        if b2 is None:
            return a2
        g = st.guards
        r = self.join2(c, a2, b2, g)
        # extra guards gained inside (asserts / early exits in helpers)
        return r

    def decide(self, c, st):
        if c.op == "const":
            return bool(c.args[0])
        if c.op in ("tuple", "list", "fn", "func", "cls") and c.op != "list":
            return bool(c.args)
        c, pol = guard(c, True)
        for g, p in flat_guards(st.guards):
            if g is c:
                return p == pol
        return None

    def push_lock(self, v):
        self.nlock += 1
        self.locks, self.lockids = self.locks + (v,), self.lockids + (self.nlock,)

    def pop_lock(self, v):
        for i in range(len(self.locks) - 1, -1, -1):
            if self.locks[i] is v:
                self.locks = self.locks[:i] + self.locks[i + 1:]
                self.lockids = self.lockids[:i] + self.lockids[i + 1:]
                return

    def s_With(self, s, st):
        n = 0
        for it in s.items:
            v = self.ev(it.context_expr, st)
            self.emit("enter", "with", st, recv=v, node=s)
            self.push_lock(self.deref(v, st))
            n += 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        r = self.block(s.body, st)
        self.locks, self.lockids = self.locks[:-n], self.lockids[:-n]
        if r is not None:
            self.emit("exit", "with", r, recv=v, node=s)
        return r

    def s_Try(self, s, st):
        fr = self.frames[-1]
        self.ntry += 1
        tid = self.ntry
        names = []
        for h in s.handlers:
            names.append("BaseException" if h.type is None else ast.unparse(h.type))
        exc = mk("exc", tid)
        before = st.copy()
        nr = len(fr.raises)
        body = st.copy()
        if s.handlers:
            body.guards = st.guards + (guard(exc, False),)
        if s.handlers:
            self.tries = self.tries + ((tid, tuple(names)),)
        b = self.block(s.body, body)
        raised = fr.raises[nr:]
        if s.handlers:
            self.tries = self.tries[:-1]
        if b is not None and s.orelse:
            b = self.block(s.orelse, b)
        outs = []
        if s.handlers:
            # state seen by handlers: anything assigned in the body may or may not have happened
            src = [b] if b is not None else []
            hst = before.copy()
            amb = mk("part", tid)
            for x in src + [r[0] for r in raised]:
                hst = self.join2(amb, x, hst, before.guards)
            del fr.raises[nr:]
            for i, h in enumerate(s.handlers):
                hs = hst.copy()
                hs.guards = before.guards + (guard(exc, True),)
                if len(s.handlers) > 1:
                    hs.guards = hs.guards + ((mk("exctype", tid, names[i]), True),)
                if h.name:
                    hs.env[h.name] = mk("excval", tid)
                self.emit("handler", names[i], hs, node=h)
                r = self.block(h.body, hs)
                if r is not None:
                    outs.append(r)
            if b is not None:
                outs.append(b)
            res = None
            if outs:
                res = outs[0]
                if len(outs) > 1:
                    hs = outs[:-1] if b is not None else outs
                    hm = hs[0]
                    for x in hs[1:]:
                        hm = self.join2(mk("exctype", tid, "?"), hm, x, before.guards)
                    res = self.join2(exc, hm, b, before.guards) if b is not None else hm
                elif b is not None and outs[0] is b:
                    res = St(b.env, b.heap, before.guards + (guard(exc, False),))
        else:
            res = b
        if s.finalbody:
            if res is None:
                tmp = before.copy()
                self.block(s.finalbody, tmp)
                return None
            res = self.block(s.finalbody, res)
        return res

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        raw = self.ev(s.iter, st)
        it = self._keyed(s.target, s.iter, s.body, self.seqval(raw, st))
        f = self._fuse(s, it)
        if f is not None:
            return self.block([f], st)
        return self.loop(s, st, it, None, raw)

    def _fuse(self, s, it):
        """loop over a list collected by other loops: run the body inside these loops"""
        if not (it.op == "cat" and len(it.args) == 1 and it.args[0].op == "each") or s.orelse or self._has_break(s):
            return None
        e = it.args[0]
        if e.args[3] is TRUE and e.args[2].op == "list":
            return None         # one element per step: taken by index
        src = ast.dump(s.iter)
        for n in ast.walk(s):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and ast.dump(n.value) == src or isinstance(n, ast.Delete):
                return None

        def build(p, m):
            if p.op == "list" and len(p.args) == 1:
                return [ast.copy_location(ast.Assign(targets=[s.target], value=TermExpr(p.args[0], m)), s)] + s.body
            if p.op == "cat" and len(p.args) == 1:
                return build(p.args[0], m)
            if p.op != "each" or p.args[1].op in ("upto", "while"):
                return None
            idx, d, part, g = p.args
            self.nfuse += 1
            nm = "<fused%d>" % self.nfuse
            body = build(part, m + ((idx, nm),))
            if body is None:
                return None
            if g is not TRUE:
                body = [ast.copy_location(ast.If(test=TermExpr(g, m + ((idx, nm),)), body=body, orelse=[]), s)]
            return [ast.copy_location(ast.For(target=ast.copy_location(ast.Name(id=nm, ctx=ast.Store()), s), iter=TermExpr(mk("range", const(0), d, const(1)), m), body=body, orelse=[]), s)]
        out = build(e, ())
        if out is None:
            return None
        ast.fix_missing_locations(out[0])
        return out[0]

    def _fuse_gens(self, g, it):
        """the same for a comprehension over such a list"""
        if not (it.op == "cat" and len(it.args) == 1 and it.args[0].op == "each"):
            return None
        p, m, out = it.args[0], (), []
        if p.args[3] is TRUE and p.args[2].op == "list":
            return None
        while p.op == "each":
            idx, d, part, gd = p.args
            if d.op in ("upto", "while"):
                return None
            self.nfuse += 1
            nm = "<fused%d>" % self.nfuse
            it_ = TermExpr(mk("range", const(0), d, const(1)), m)
            m = m + ((idx, nm),)
            out.append(ast.comprehension(target=ast.copy_location(ast.Name(id=nm, ctx=ast.Store()), g.target), iter=ast.copy_location(it_, g.target),
                                         ifs=[] if gd is TRUE else [ast.copy_location(TermExpr(gd, m), g.target)], is_async=0))
            p = part
            while p.op == "cat" and len(p.args) == 1:
                p = p.args[0]
        if p.op != "list" or len(p.args) != 1:
            return None
        return out + [ast.comprehension(target=g.target, iter=ast.copy_location(TermExpr(p, m), g.target), ifs=g.ifs, is_async=0)]

    def e_TermExpr(self, e, st):
        m = {idx: st.env[n] for idx, n in e.m if n in st.env}
        return subst(e.t, m) if m else e.t

    def s_While(self, s, st):
        return self.loop(s, st, None, s.test)

    def _has_break(self, s):
        stack = list(s.body)
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Break):
                return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        return False

    def unroll(self, it):
        """Literal sequences are expanded element by element."""
        if it.op in ("tuple", "list") and len(it.args) <= 8 and not any(a.op in ("spread", "star") for a in it.args):
            return list(it.args)
        if it.op == "const" and isinstance(it.args[0], tuple) and len(it.args[0]) <= 8:
            return [const(x) for x in it.args[0]]
        if it.op == "range" and all(a.op == "const" for a in it.args):
            try:
                r = list(range(*[a.args[0] for a in it.args]))
            except Exception:
                return None
            return [const(x) for x in r] if len(r) <= self.max_unroll else None
        if it.op == "call" and it.args[0] == ".items" and it.args[1].op == "dict" and len(it.args[1].args) <= 24:
            d = it.args[1].args
            return [tup(k, v) for k, v in zip(d[::2], d[1::2])]
        if it.op == "dict" and 0 < len(it.args) <= 24:
            return list(it.args[::2])
        if it.op == "call" and it.args[0] in (".keys", ".values") and it.args[1].op == "dict" and len(it.args) == 2 and len(it.args[1].args) <= 24:
            return list(it.args[1].args[0 if it.args[0] == ".keys" else 1::2])
        if it.op == "call" and it.args[0] in ("builtins.zip",) and len(it.args) > 1:
            us = [self.unroll(a) for a in it.args[1:]]
            if all(u is not None for u in us):
                return [tup(*x) for x in zip(*us)]
        if it.op == "call" and it.args[0] == "builtins.enumerate" and len(it.args) == 2:
            u = self.unroll(it.args[1])
            if u is not None:
                return [tup(const(i), x) for i, x in enumerate(u)]
        return None

    def loop(self, s, st, it, test, raw=None):
        fr = self.frames[-1]
        brk = self._has_break(s)
        if it is not None:
            u = self.unroll(it)
            if u is not None:
                broken, g0 = [], st.guards
                for e in u:
                    L = {"breaks": [], "continues": [], "exits": False}
                    fr.loops.append(L)
                    self.assign(s.target, e, st)
                    r = self.block(s.body, st)
                    fr.loops.pop()
                    broken += L["breaks"]
                    outs = L["continues"] + ([r] if r is not None else [])
                    if not outs:
                        st = None
                        break
                    st = self.merge(outs)
                if s.orelse and st is not None:
                    st = self.block(s.orelse, st)
                if broken:
                    st = self.merge(broken + ([st] if st is not None else []))
                    st.guards = g0
                return st
        depth = len(self.loops)
        if it is not None:
            dom = dim(it)
            if brk:
                dom = mk("upto", dom, "break")
            idx = mk("idx", dom, depth)
        else:
            dom = mk("while", depth)
            idx = mk("idx", dom, depth)
        mus = {}
        counted = False
        self.nloop += 1
        inst = self.nloop
        self.iterraw[inst] = raw       # the object iterated over (before copies are resolved)
        outs = None
        for attempt in range(6):
            final = False
            start = st.copy()
            for k, m in mus.items():
                if k[0] == "e":
                    start.env[k[1]] = m
                else:
                    start.heap[k[1]] = m
            self.quiet += 1
            changed = self._loop_body(s, start.copy(), it, test, idx, dom, inst, fr, None)[0]
            self.quiet -= 1
            new = [k for k in changed if k not in mus and not (k[0] == "h" and isinstance(k[1][1], T) and contains(k[1][1], idx))]
            for k in new:
                mus[k] = mk("mu", "%s" % (k[1],) if k[0] == "e" else str(k[1][0]) + ":" + show(k[1][1], 3) + (("." + k[1][2]) if len(k[1]) > 2 else ""), idx,
                            inst if not isinstance(k[1], str) else 0)
            if not new:
                break
        if it is None and not brk and test is not None:
            cnt = self._count(s, st, mus, test, idx, dom, inst, fr)
            if cnt is not None:
                dom = cnt
                new_idx = mk("idx", dom, depth)
                mus = {k: mk("mu", m.args[0], new_idx, m.args[2]) for k, m in mus.items()}
                idx, counted = new_idx, True
        lag = self._lag(s, st, mus, it, test, idx, dom, inst, fr) if it is not None and not brk and mus else {}
        start = st.copy()
        for k, m in mus.items():
            if k in lag:
                start.env[k[1]] = lag[k]
            elif k[0] == "e":
                start.env[k[1]] = m
                init = st.env.get(k[1])
                if init is not None and init in self.types:
                    self.types[m] = self.types[init]
                if init is not None and self.kind.get(init):
                    self.kind[m] = self.kind[init] if self.kind[init] in ("array",) else self.kind[init]
            else:
                start.heap[k[1]] = m
        nobj0 = self.nobj
        _, end, cont_states, breaks, cguard = self._loop_body(s, start, it, test, idx, dom, inst, fr, st, counted)
        # values after the loop
        res = st.copy()
        touched = dict(mus)
        loop_exit = []
        for k, m in touched.items():
            init = st.env.get(k[1]) if k[0] == "e" else st.heap.get(k[1])
            if init is None:
                init = mk("undef", k[1]) if k[0] == "e" else self.initial(k[1])
            upd = None
            if end is not None:
                upd = end.env.get(k[1]) if k[0] == "e" else end.heap.get(k[1])
            if upd is None:
                upd = m
            if k[0] == "h" and len(k[1]) and k[1][0] == "c" or True:
                upd = self.snap_new(upd, end, nobj0) if end is not None else upd
            bv = []
            for bs in breaks:
                v = bs.env.get(k[1]) if k[0] == "e" else bs.heap.get(k[1])
                if v is not None:
                    bv.append(self.snap_new(v, bs, nobj0))
            v = self.close(init, m, upd, idx, dom, st)
            self.loopinfo[m] = (init, upd, idx, dom)
            if any(x is not upd for x in bv):
                v = mk("amb", v, *[subst(x, {}) for x in bv])
            if k[0] == "e":
                res.env[k[1]] = v
                if m in self.types:
                    self.types[v] = self.types[m]
            else:
                res.heap[k[1]] = v
        if it is None and not brk and test is not None:
            pass
        if any(True for e in fr.exits if e[0].guards[:len(st.guards)] == st.guards) and getattr(fr, "_lx", None) != inst:
            lx = mk("loopexit", dom, depth)
            marked = False
            for i, (es, v) in enumerate(fr.exits):
                if getattr(fr, "_loopdone", None) is None:
                    fr._loopdone = set()
                if id(es) not in fr._loopdone and (inst in getattr(fr, "_inloop", {}).get(id(es), ())):
                    es2 = St(es.env, es.heap, st.guards + (guard(lx, True),) + es.guards[len(st.guards):])
                    fr.exits[i] = (es2, v)
                    fr._loopdone.add(id(es2))
                    fr._keep = getattr(fr, "_keep", []) + [es, es2]
                    marked = True
            if marked:
                res.guards = st.guards + (guard(lx, False),)
        if s.orelse:
            return self.block(s.orelse, res)
        return res

    def snap_new(self, t, st, nobj0):
        """Inline contents of objects allocated inside the loop body."""
        m = {}
        for x in walk(t):
            if x.op == "obj" and isinstance(x.args[0], int) and x.args[0] > nobj0:
                m[x] = self.deref(x, st)
        return subst(t, m) if m else t

    def _trial(self, s, st, mus, it, test, idx, dom, inst, fr):
        """state at the end of one iteration started from the loop-carried values (nothing is recorded)"""
        start = st.copy()
        for k, m in mus.items():
            if k[0] == "e":
                start.env[k[1]] = m
            else:
                start.heap[k[1]] = m
        n0 = self.nobj
        self.quiet += 1
        try:
            c = None
            if test is not None:
                c = self.cond(test, start.copy())
            r = self._loop_body(s, start, it, test, idx, dom, inst, fr, None)
        finally:
            self.quiet -= 1
        return c, r[1], r[2], r[3], n0

    def _count(self, s, st, mus, test, idx, dom, inst, fr):
        """number of iterations of a while loop that counts up (or down) by one to a fixed bound"""
        if s.orelse:
            return None
        c, end, conts, breaks, n0 = self._trial(s, st, mus, None, test, idx, dom, inst, fr)
        if end is None or breaks or c is None or c.op != "cmp":
            return None
        ms = {m: k for k, m in mus.items()}
        o, a, b = c.args
        if o == ">":
            o, a, b = "<", b, a
        elif o == ">=":
            o, a, b = "<=", b, a
        if o not in ("<", "<="):
            return None
        up, val = {}, {}
        for m, k in ms.items():
            init = st.env.get(k[1]) if k[0] == "e" else st.heap.get(k[1])
            u = end.env.get(k[1]) if k[0] == "e" else end.heap.get(k[1])
            if init is None and k[0] == "h":
                init = self.initial(k[1])
            if init is None or u is None:
                continue
            up[m], val[m] = self.snap_new(u, end, n0), self.snap_new(init, st, -1) if False else init
        n = Norm()

        def moving(t):
            return contains(t, lambda x: x in ms)
        if moving(a) == moving(b):
            return None
        t = a if moving(a) else b
        if any(x in ms and x not in up for x in walk(t)):
            return None
        step = n(mk("bin", "-", subst(t, up), t))
        t0 = subst(t, val)
        if is_const(step, 1) and t is a:
            r = binop("-", b, t0) if not is_const(t0, 0) else b
        elif is_const(step, -1) and t is b:
            r = binop("-", t0, a) if not is_const(a, 0) else t0
        else:
            return None
        if o == "<=":
            r = binop("+", r, const(1))
        fixed = b if t is a else t0
        if not (fixed.op == "dim" or is_const(fixed) and isinstance(fixed.args[0], int) or fixed.op == "call" and fixed.args[0] in ("builtins.int", "builtins.len")):
            return None
        return r

    def _lag(self, s, st, mus, it, test, idx, dom, inst, fr):
        """variables holding a value selected in the previous iteration"""
        c, end, conts, breaks, n0 = self._trial(s, st, mus, it, test, idx, dom, inst, fr)
        if end is None or breaks or conts:
            return {}
        ms = set(mus.values())
        out = {}
        for k in mus:
            if k[0] != "e":
                continue
            u, init = end.env.get(k[1]), st.env.get(k[1])
            if u is None or init is None or u is mus[k]:
                continue
            if contains(u, lambda x: x in ms or x.op not in ("sub", "sym", "attr", "const", "idx", "bin", "tuple", "dim", "key", "range")):
                continue
            if not contains(u, idx):
                continue
            if init.op == "obj":
                init = self.deref(init, st)
            out[k] = ite(cmpop("==", idx, const(0)), init, subst(u, {idx: binop("-", idx, const(1))}))
        return out

    def _effects(self, gens, st, leaf):
        """does evaluating a comprehension change existing objects"""
        n0 = self.nobj
        s2 = st.copy()
        self.quiet += 1
        lp = self.loops
        try:
            self.comp(gens, s2, leaf, True)
        finally:
            self.quiet -= 1
            self.loops = lp
        for k, v in s2.heap.items():
            if st.heap.get(k) is not v:
                t = k[1]
                if k in st.heap or not (isinstance(t, T) and t.op == "obj" and isinstance(t.args[0], int) and t.args[0] > n0):
                    return True
        return False

    def _as_loop(self, e, st):
        """a comprehension whose items change objects, as a loop appending to a list"""
        name = "__comp%d" % (self.nloop + 1)
        st.env[name] = self.alloc("list", mk("list"), st)
        app = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "append", ast.Load()), [e.elt], []))
        body = [app]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [], None)]
        for x in ast.walk(body[0]):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, e)
        ast.fix_missing_locations(body[0])
        env = dict(st.env)
        r = self.block(body, st)
        if r is None:
            return None
        st.heap, st.guards = r.heap, r.guards
        v = r.env[name]
        st.env = {k: r.env.get(k, x) for k, x in env.items() if k != name}
        return v

    def _loop_body(self, s, start, it, test, idx, dom, inst, fr, outer, counted=False):
        L = {"breaks": [], "continues": [], "exits": False}
        fr.loops.append(L)
        self.loops = self.loops + ((idx, dom, inst),)
        ne = len(fr.exits)
        nr = len(fr.raises)
        body = start.copy()
        if it is not None:
            self.assign(s.target, self.elem(it, idx), body)
        else:
            c = self.cond(test, body)
            if not is_const(c, True) and not counted:
                body.guards = body.guards + (guard(c, True),)
        g0 = body.guards
        snapshot_env, snapshot_heap = dict(start.env), dict(start.heap)
        r = self.block(s.body, body)
        self.loops = self.loops[:-1]
        fr.loops.pop()
        if outer is None:
            del fr.exits[ne:]
            del fr.raises[nr:]
        else:
            d = fr.__dict__.setdefault("_inloop", {})
            for es, v in fr.exits[ne:]:
                d.setdefault(id(es), []).append(inst)
                fr.__dict__.setdefault("_keep", []).append(es)
        outs = L["continues"] + ([r] if r is not None else [])
        end = None
        if outs:
            end = self.merge(outs) if len(outs) > 1 else outs[0]
        changed = []
        tnames = set()
        for x in ([end] if end is not None else []) + L["breaks"]:
            for k, v in x.env.items():
                if snapshot_env.get(k) is not v and k in snapshot_env:
                    changed.append(("e", k))
            for k, v in x.heap.items():
                if snapshot_heap.get(k) is not v:
                    t = k[1]
                    if k in snapshot_heap or not (isinstance(t, T) and t.op == "obj"):
                        changed.append(("h", k))
        seen, out = set(), []
        for c in changed:
            if c not in seen:
                seen.add(c)
                out.append(c)
        # names first defined in the loop and possibly read after it
        if outer is not None and end is not None:
            for k, v in end.env.items():
                if k not in snapshot_env:
                    outer.env[k] = mk("last", idx, dom, v)
        return out, end, L["continues"], L["breaks"], g0

    def close(self, init, m, upd, idx, dom, st):
        """Value after the loop of a variable with start value `init` whose body maps m -> upd."""
        if upd is m:
            return init
        if not contains(upd, m):
            if upd.op == "ite" and False:
                pass
            return mk("last", idx, dom, upd, init)
        p = self._lin(upd, m)
        if p is not None:
            kind = p[0]
            if kind == "cat":
                return cat(spread(init), each(idx, dom, p[1], p[2]))
            if kind == "sum":
                e = p[1] if p[2] is TRUE else ite(p[2], p[1], const(0))
                b = mk("bsum", idx, dom, e)
                return b if is_const(init, 0) or is_const(init, 0.0) else binop("+", init, b)
            if kind == "store":
                r = init
                for (i, v, g) in p[1]:
                    r = mk("fstore", r, idx, dom, i, v, g)
                return r
            if kind == "same":
                return init
        return mk("fold", init, m, upd, idx, dom)

    def _lin(self, u, m, guard=TRUE):
        """Recognise m -> cat(m, P) | m + e | store(m, i, v) possibly under conditions."""
        if u is m:
            return ("same",)
        if u.op == "cat":
            h = u.args[0]
            if (h is m or (h.op == "spread" and h.args[0] is m)):
                rest = cat(*u.args[1:])
                if not contains(rest, m):
                    return ("cat", rest, guard)
            return None
        if u.op == "bin" and u.args[0] in "+-":
            o, a, b = u.args
            if a is m and not contains(b, m):
                return ("sum", b if o == "+" else mk("un", "-", b), guard)
            if o == "+" and b is m and not contains(a, m):
                return ("sum", a, guard)
            p = self._lin(a, m, guard)
            if p and p[0] == "sum" and not contains(b, m):
                return ("sum", binop(o, p[1], b), p[2])
            if o == "+":
                p = self._lin(b, m, guard)
                if p and p[0] == "sum" and not contains(a, m):
                    return ("sum", binop("+", a, p[1]), p[2])
            return None
        if u.op == "store":
            base, i, v = u.args
            if contains(i, m):
                return None
            if base is m:
                prev = []
            else:
                p = self._lin(base, m, guard)
                if p is None or p[0] != "store":
                    return None
                prev = p[1]
            if contains(v, m):
                # accumulate into a slot: m[i] + e
                if v.op == "bin" and v.args[0] == "+" and v.args[1].op == "sub" and v.args[1].args[0] is m and v.args[1].args[1] is i \
                        and not contains(v.args[2], m):
                    v = mk("accum", v.args[2])
                else:
                    return None
            return ("store", prev + [(i, v, guard)])
        if u.op == "ite":
            c, a, b = u.args
            if contains(c, m):
                # condition on the container itself (membership tests) tolerated for stores
                pass
            pa, pb = self._lin(a, m, _and(guard, c)), self._lin(b, m, _and(guard, neg(c)))
            if pa is None or pb is None:
                return None
            if contains(c, m):
                return None
            if pa[0] == "same" and pb[0] == "same":
                return ("same",)
            if pb[0] == "same":
                return pa
            if pa[0] == "same":
                return pb
            if pa[0] == pb[0] == "cat":
                ga, gb = pa[2], pb[2]
                if pa[1].op == "list" and pb[1].op == "list" and len(pa[1].args) == len(pb[1].args):
                    return ("cat", mk("list", *[ite(c, x, y) for x, y in zip(pa[1].args, pb[1].args)]), guard)
                return ("cat", ite(c, pa[1], pb[1]), guard)
            if pa[0] == pb[0] == "sum":
                return ("sum", ite(c, pa[1], pb[1]), guard)
            if pa[0] == pb[0] == "store":
                return ("store", pa[1] + pb[1])
        return None

    def elem(self, it, idx):
        r = sub(it, idx)
        return r

    # ------------------------------------------------------------ assignment
    def assign(self, target, v, st, aug=False):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    after = n - i - 1
                    self.assign(e.value, self.getitem(v, mk("slice", const(i), const(-after) if after else NONE, NONE), st), st)
                elif star and i > star[0]:
                    self.assign(e, self.getitem(v, const(i - n), st), st)
                else:
                    self.assign(e, self.getitem(v, const(i), st), st)
        elif isinstance(target, ast.Attribute):
            b = self.ev(target.value, st)
            self.setattr(b, target.attr, v, st, target)
        elif isinstance(target, ast.Subscript):
            b = self.ev(target.value, st)
            i = self.ev(target.slice, st)
            self.setitem(b, i, v, st, target)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st)

    def setattr(self, b, name, v, st, node=None):
        c = self.typeof(b)
        if c is not None:
            f = self.prog.setter(c, name)
            if f is not None and (b.op in ("obj",) or is_self(b) or c.name in self.inline_types):
                self.call_func(f, [b, v], {}, st, node, self_cls=c)
                return
        self.emit("setattr", name, st, recv=b, args=(v,), node=node)
        st.heap[("f", b, name)] = v

    def setitem(self, b, i, v, st, node=None):
        self.emit("setitem", "[]=", st, recv=b, args=(i, v), node=node, callee=b)
        self._store(b, i, v, st, TRUE)

    def _store(self, b, i, v, st, g):
        if b.op == "ite" and ("c", b) not in st.heap:
            self._store(b.args[1], i, v, st, _and(g, b.args[0]))
            self._store(b.args[2], i, v, st, _and(g, neg(b.args[0])))
            return
        c = self.content(b, st)
        n = store(c, i, v)
        st.heap[("c", b)] = n if g is TRUE else ite(g, n, c)
        # write-through to a parent held by value (x = d[k]; x[j] = v) is kept as content of the element term

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unresolved += 1
            return mk("unk", type(e).__name__, getattr(e, "lineno", 0))
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.lookup_name(e.id, st)

    def lookup_name(self, n, st):
        v = st.env.get(n)
        if v is not None:
            return v
        fr = self.frames[-1]
        p = fr.parent
        while p is not None:
            env, up = p
            if n in env:
                return env[n]
            p = up
        return self.module_name(n, fr.module)

    def module_name(self, n, m):
        if n in m.classes:
            return mk("cls", m.classes[n].full)
        if n in m.funcs:
            return mk("func", m.funcs[n].full)
        if n in m.imports:
            return self.named(m.imports[n])
        if n in m.consts:
            return self.const_expr(m.consts[n], m, n)
        if n in BUILTINS:
            return mk("ext", "builtins." + n)
        return sym("glob:" + n)

    def named(self, dotted):
        o = self.prog.lookup(dotted)
        if isinstance(o, Module):
            return mk("mod", o.name)
        if isinstance(o, Class):
            return mk("cls", o.full)
        if isinstance(o, Func):
            return mk("func", o.full)
        if o[0] == "const":
            return self.const_expr(o[1].consts[o[2]], o[1], o[2])
        d = o[1]
        if d in ("numpy.float", "numpy.float64", "numpy.double"):
            d = "builtins.float"
        if d in ("numpy.int",):
            d = "builtins.int"
        if d in ("numpy.bool", "numpy.bool_"):
            d = "builtins.bool"
        if d == "numpy.nan" or d == "numpy.NaN" or d == "numpy.NAN":
            d = "numpy.nan"
        return mk("ext", d)

    def const_expr(self, node, m, name):
        try:
            v = ast.literal_eval(node)
            if isinstance(v, (int, float, str, bool, type(None), bytes)) or (isinstance(v, tuple) and all(isinstance(x, (int, float, str)) for x in v)):
                return const(v)
        except Exception:
            pass
        key = (m.name, name)
        if key in self.cfacts:
            return self.cfacts[key]
        self.cfacts[key] = mk("global", m.name, name)
        if isinstance(node, (ast.Dict, ast.List, ast.Tuple, ast.Set)):
            fr = Frame(None, m, None)
            fr.self_cls = None
            self.frames.append(fr)
            self.quiet += 1
            st = St({}, {}, ())
            v = self.deref(self.ev(node, st), st)
            self.quiet -= 1
            self.frames.pop()
            self.cfacts[key] = v
        return self.cfacts[key]

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        if e.attr in self.track:
            self.emit("read", e.attr, st, recv=b, node=e)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, n, st, node=None):
        if n == "ndim" and b.op not in ("obj", "func", "class"):
            return dim(self.getattr(b, "shape", st, node))
        if b.op == "mod":
            m = self.prog.modules[b.args[0]]
            if m.name + "." + n in self.prog.modules:
                return mk("mod", m.name + "." + n)
            return self.module_name(n, m)
        if b.op == "ext":
            return self.named(b.args[0] + "." + n)
        if b.op == "super":
            return mk("bound", b.args[0], "super:" + b.args[1], n)
        if b.op == "cls":
            c = self.prog.lookup(b.args[0])
            f = self.prog.method(c, n)
            if f is not None:
                if f.classmethod:
                    return mk("bound", b, c.full, n)
                return mk("func", f.full)
            a = self.prog.class_attr(c, n)
            if a is not None:
                v = st.heap.get(("f", b, n))
                return v if v is not None else self.class_const(a, n)
            if n == "__name__":
                return const(c.name)
            v = st.heap.get(("f", b, n))
            return v if v is not None else attr(b, n)
        v = st.heap.get(("f", b, n))
        if v is not None:
            return v
        if n in ("shape", "size") and b.op == "obj":
            # a copy has the shape of its original; writing elements does not change it
            x = self.deref(b, st)
            while x.op in ("store", "fstore"):
                x = x.args[0]
            if x.op == "call" and x.args[0] in ("numpy.array", "numpy.copy", ".copy", "copy.copy", "copy.deepcopy") and len(x.args) == 2 \
                    and x.args[1].op in ("sym", "attr", "sub", "call") and self.kind.get(b) == "array":
                return self.getattr(x.args[1], n, st, node)
        if b.op == "ite" and not is_self(b):
            return ite(b.args[0], self.getattr(b.args[1], n, st, node), self.getattr(b.args[2], n, st, node))
        c = self.typeof(b)
        if c is not None:
            f = self.prog.method(c, n)
            if f is not None:
                if f.prop:
                    if (b.op == "obj" or is_self(b) or c.name in self.inline_types) and not self.is_opaque(f):
                        return self.call_func(f, [b], {}, st, node, self_cls=c)
                    return attr(b, n)
                return mk("bound", b, c.full, n)
            a = self.prog.class_attr(c, n)
            if a is not None and not self._instance_assigned(c, n):
                return self.class_const(a, n)
        if n == "__class__" and c is not None:
            return mk("cls", c.full)
        if n == "__dict__":
            return mk("vars", b)
        if n == "T" and b.op != "obj":
            return attr(self.deref(b, st), n)
        return attr(b, n)

    def _instance_assigned(self, c, n):
        for k in self.prog.mro(c):
            if any("attr.s" in ast.unparse(d) or "dataclass" in ast.unparse(d) or "attrs" in ast.unparse(d) for d in k.node.decorator_list):
                return True
            for f in list(k.methods.values()) + list(k.setters.values()):
                ps = f.params()
                if not ps:
                    continue
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == n \
                            and isinstance(x.value, ast.Name) and x.value.id == ps[0]:
                        return True
        return False

    def _class_assigned(self, k, n):
        """the class attribute is rebound somewhere by  Class.attr = …  / cls.attr = …"""
        if not hasattr(self.prog, "_cls_stores"):
            d = self.prog._cls_stores = set()
            for m in self.prog.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                        d.add((x.value.id, x.attr))
        return (k.name, n) in self.prog._cls_stores or ("cls", n) in self.prog._cls_stores

    def class_const(self, a, n):
        k, node = a
        if self._class_assigned(k, n):
            return mk("global", k.full, n)
        try:
            v = ast.literal_eval(node)
            if isinstance(v, (int, float, str, bool, type(None))):
                return const(v)
        except Exception:
            pass
        key = (k.full, n)
        if key not in self.cfacts:
            self.cfacts[key] = mk("global", k.full, n)
            fr = Frame(None, k.module, k)
            fr.self_cls = k
            self.frames.append(fr)
            self.quiet += 1
            st = St({x: self.class_const((k, y), x) for x, y in k.attrs.items() if y is not None and x != n}, {}, ())
            v = self.deref(self.ev(node, st), st)
            self.quiet -= 1
            self.frames.pop()
            self.cfacts[key] = v
        return self.cfacts[key]

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        i = self.ev(e.slice, st)
        if i.op == "obj" and self.kind.get(i) in ("list", "array"):
            i = self.deref(i, st)       # index by the list's present content
        return self.getitem(b, i, st)

    def getitem(self, b, i, st):
        c = self.content(b, st)
        if c is not b:
            r = sub(c, i)
            if r.op == "sub" and r.args[0] is c:
                # unresolved: keep reference form if nothing is known to differ
                if not self._may_hit(c, i):
                    return sub(self._root(c), i)
            return r
        return sub(b, i)

    def _may_hit(self, c, i):
        return True

    def _root(self, c):
        while c.op in ("store",):
            c = c.args[0]
        return c

    def e_Slice(self, e, st):
        g = lambda x: NONE if x is None else self.ev(x, st)
        lo, up, by = g(e.lower), g(e.upper), g(e.step)
        if by is NONE and lo.op == "const" and lo.args[0] == 0 and type(lo.args[0]) is int:
            lo = NONE
        return mk("slice", lo, up, by)

    def e_Index(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        return tup(*self._elts(e.elts, st))

    def e_List(self, e, st):
        return self.alloc("list", self._seq(e.elts, st), st)

    def e_Set(self, e, st):
        return self.alloc("set", self._seq(e.elts, st), st)

    def _elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.seqval(self.ev(x.value, st), st)
                if v.op in ("tuple", "list"):
                    out.extend(v.args)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(x, st))
        return out

    def _seq(self, elts, st):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts.append(spread(self.seqval(self.ev(x.value, st), st)))
            else:
                parts.append(mk("list", self.ev(x, st)))
        return cat(*parts)

    def e_Dict(self, e, st):
        c = mk("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                c = mk("call", "dict.update", c, self.ev(v, st))
            else:
                c = store(c, self.ev(k, st), self.ev(v, st))
        return self.alloc("dict", c, st)

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        return self.binop(BINOPS[type(e.op)], a, b, st)

    def binop(self, o, a, b, st):
        ca, cb = self.opval(a, st), self.opval(b, st)
        if a.op == "ext" or b.op == "ext":
            pass
        if o == "%" and ca.op == "const" and isinstance(ca.args[0], str):
            r = percent(ca.args[0], cb)
            if r is not None:
                return r
        if o == "+" and ca.op in ("list", "cat") or cb.op in ("list", "cat") and o == "+":
            k = self.kind.get(a) == "list" or self.kind.get(b) == "list"
            if ca.op in ("list", "cat") and cb.op in ("list", "cat") or k and not (self.kind.get(a) == "array" or self.kind.get(b) == "array"):
                return self.alloc("list", cat(spread(ca), spread(cb)), st)
        if o == "*" and (self.kind.get(a) == "list" and cb.op not in ("list", "cat") or self.kind.get(b) == "list" and ca.op not in ("list", "cat")) and \
                not (self.kind.get(a) == "array" or self.kind.get(b) == "array"):
            return self.alloc("list", binop(o, ca, cb), st)
        # repo operator overloads on typed receivers
        c = self.typeof(a)
        if c is not None:
            dn = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}.get(o)
            f = dn and self.prog.method(c, dn)
            if f is not None and (c.name in self.inline_types):
                return self.call_func(f, [a, b], {}, st, None, self_cls=c)
        r = binop(o, ca, cb)
        return r

    def opval(self, t, st):
        """Operand value: contents for containers/arrays."""
        return self.deref(t, st) if t.op in ("obj", "ite", "mu") or ("c", t) in st.heap else t

    def seqval(self, t, st):
        return self.deref(t, st) if (t.op == "obj" or t.op == "ite" or ("c", t) in st.heap) else \
            (self.deref(t, st) if t.op == "call" and any(isinstance(a, T) and a.op == "obj" for a in t.args) else t)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return neg(self.truth(v, st))
        o = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        if o == "-" and v.op == "const" and isinstance(v.args[0], (int, float)) and not isinstance(v.args[0], bool):
            return const(-v.args[0])
        return mk("un", o, self.opval(v, st))

    def e_BoolOp(self, e, st):
        vs = []
        isand = isinstance(e.op, ast.And)
        g0 = st.guards
        for x in e.values:
            v = self.ev(x, st)
            vs.append(v)
        st.guards = g0
        if all(_boolish(v) for v in vs):
            out = []
            for v in vs:
                v = self.truth(v, st)
                if v.op == "const":
                    if bool(v.args[0]) != isand:
                        return const(not isand)
                    continue
                if v.op == "bool" and v.args[0] == ("and" if isand else "or"):
                    out.extend(v.args[1:])
                else:
                    out.append(v)
            if not out:
                return const(isand)
            if len(out) == 1:
                return out[0]
            return mk("bool", "and" if isand else "or", *out)
        # value form:  a or b  ==  a if a else b
        r = vs[-1]
        for v in reversed(vs[:-1]):
            c = self.truth(v, st)
            r = ite(c, r, v) if isand else ite(c, v, r)
        return r

    def cond(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return neg(self.cond(e.operand, st))
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out = []
            g0 = st.guards
            for x in e.values:
                v = self.cond(x, st)
                st.guards = st.guards + (guard(v, isand),)
                if v.op == "const":
                    if bool(v.args[0]) != isand:
                        st.guards = g0
                        return const(not isand)
                    continue
                if v.op == "bool" and v.args[0] == ("and" if isand else "or"):
                    out.extend(v.args[1:])
                elif v not in out:
                    out.append(v)
            st.guards = g0
            if not out:
                return const(isand)
            return out[0] if len(out) == 1 else mk("bool", "and" if isand else "or", *out)
        return self.truth(self.ev(e, st), st)

    def truth(self, v, st=None):
        """Canonical truth condition of a value."""
        if st is not None and v.op == "obj":
            v = self.deref(v, st)
            if v.op == "list" or v.op == "asset" and v.args[0].op == "list" and not any(x.op in ("spread", "star") for x in v.args[0].args):
                return const(bool((v.args[0] if v.op == "asset" else v).args))
        if v.op == "call" and v.args[0] == "builtins.bool" and len(v.args) == 2:
            return self.truth(v.args[1], st)
        if v.op == "cmp":
            o, a, b = v.args
            if a.op == "dim" and b.op == "const" and b.args[0] in (0, 1) and not isinstance(b.args[0], bool):
                z = b.args[0]
                x = a.args[0]
                if (o, z) in (("!=", 0),) or (o, z) == (">=", 1):
                    return x
                if (o, z) == ("==", 0) or (o, z) == ("<", 1):
                    return neg(x)
            if b.op == "dim" and a.op == "const" and a.args[0] in (0, 1) and not isinstance(a.args[0], bool):
                z, x = a.args[0], b.args[0]
                if (o, z) in (("<", 0), ("<=", 1), ("!=", 0)):
                    return x
                if (o, z) in (("==", 0),):
                    return neg(x)
        if v.op == "dim":
            return self.truth(v.args[0], st) if v.args[0].op == "ite" else v.args[0]
        if v.op == "ite" and any(x.op in ("list", "tuple") for x in v.args[1:]):
            a, b = ((const(bool(x.args)) if x.op in ("list", "tuple") else self.truth(x)) for x in v.args[1:])
            if a.op == "const" or b.op == "const":
                return ite(v.args[0], a, b)
        if v.op == "ite":
            # value form of a conjunction or disjunction
            c = v.args[0]
            x, y = under(self.truth(v.args[1]), c, True), under(self.truth(v.args[2]), c, False)
            if x.op == "const" and y.op == "const":
                return const(True) if x.args[0] and y.args[0] else const(False) if not x.args[0] and not y.args[0] else c if x.args[0] else neg(c)
            if x.op == "const":
                return boolop("or", c, y) if x.args[0] else boolop("and", neg(c), y)
            if y.op == "const":
                return boolop("or", neg(c), x) if y.args[0] else boolop("and", c, x)
        return v

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, st)
            out.append(self.cmp(CMPOPS[type(op)], l, rv, st))
            l = rv
        if len(out) == 1:
            return out[0]
        return mk("bool", "and", *out)

    def cmp(self, o, a, b, st):
        a, b = self.opval(a, st), self.opval(b, st)
        if o == ">":
            o, a, b = "<", b, a
        elif o == ">=":
            o, a, b = "<=", b, a
        if o in ("is", "isnot") and (a.op == "ite" and b is NONE or b.op == "ite" and a is NONE):
            x = a if a.op == "ite" else b
            l, r = self.cmp(o, x.args[1], NONE, st), self.cmp(o, x.args[2], NONE, st)
            if is_const(l) or is_const(r):
                if is_const(l) and is_const(r):
                    return l if l is r else (x.args[0] if l.args[0] else neg(x.args[0]))
                return ite(x.args[0], l, r)
        if o in ("is", "isnot", "==", "!="):
            if b is NONE and not_none(a) or a is NONE and not_none(b):
                return const(o in ("isnot", "!="))
            if a.op == "const" and b.op == "const":
                try:
                    eq = a.args[0] == b.args[0]
                    return const(eq if o in ("is", "==") else not eq)
                except Exception:
                    pass
            if a.op == "cls" and b.op == "cls":
                return const((a is b) == (o in ("is", "==")))
            if a._h > b._h and o in ("==", "!="):
                a, b = b, a
        if a.op == "const" and b.op == "const" and o in ("<", "<="):
            try:
                return const(a.args[0] < b.args[0] if o == "<" else a.args[0] <= b.args[0])
            except Exception:
                pass
        if o in ("in", "notin") and b.op == "call" and b.args[0] == ".keys":
            b = b.args[1]
        if o in ("in", "notin") and b.op == "dict" and not b.args:
            return const(o == "notin")
        if o in ("in", "notin") and b.op == "dict" and a.op == "const" and all(k.op == "const" for k in b.args[::2]):
            return const(any(k is a or k.args[0] == a.args[0] for k in b.args[::2]) == (o == "in"))
        return mk("cmp", o, a, b)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        k = self.decide(c, st)
        if k is not None:
            return self.ev(e.body if k else e.orelse, st)
        a, b = st.copy(), st.copy()
        a.guards = st.guards + (guard(c, True),)
        b.guards = st.guards + (guard(c, False),)
        x = self.ev(e.body, a)
        y = self.ev(e.orelse, b)
        j = self.join2(c, a, b, st.guards)
        st.env.clear(); st.env.update(j.env)
        st.heap.clear(); st.heap.update(j.heap)
        return ite(c, x, y)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def closure(self, node, st):
        fr = self.frames[-1]
        key = mk("fn", len(self.closures))
        self.closures[key] = Closure(node, fr.module, fr.cls, (st.env, fr.parent), fr, fr.self_cls)
        return key

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st)
                    spec = sp.args[0] if sp.op == "const" else show(sp)
                conv = chr(v.conversion) if v.conversion and v.conversion > 0 else ""
                parts.append(fpart(self.deref(self.ev(v.value, st), st), spec, conv))
        return fmt(parts)

    def e_ListComp(self, e, st):
        if any(isinstance(x, ast.Call) for x in ast.walk(e.elt)) and not any(g.is_async for g in e.generators):
            if self._effects(e.generators, st, lambda s: mk("list", self.ev(e.elt, s))):
                r = self._as_loop(e, st)
                if r is not None:
                    return r
        return self.alloc("list", self.comp(e.generators, st, lambda s: mk("list", self.ev(e.elt, s)), body=[e.elt]), st)

    def e_GeneratorExp(self, e, st):
        if any(isinstance(x, ast.Call) for x in ast.walk(e.elt)) and not any(g.is_async for g in e.generators):
            if self._effects(e.generators, st, lambda s: mk("list", self.ev(e.elt, s))):
                r = self._as_loop(e, st)
                if r is not None:
                    return r
        return self.alloc("list", self.comp(e.generators, st, lambda s: mk("list", self.ev(e.elt, s)), body=[e.elt]), st)

    def e_SetComp(self, e, st):
        return self.alloc("set", self.comp(e.generators, st, lambda s: mk("list", self.ev(e.elt, s)), body=[e.elt]), st)

    def e_DictComp(self, e, st):
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.seqval(self.ev(g.iter, st), st)
            u = self.unroll(it)
            if u is not None and not g.ifs:
                c = mk("dict")
                for x in u:
                    s2 = St(dict(st.env), st.heap, st.guards)
                    self.assign(g.target, x, s2)
                    c = store(c, self.ev(e.key, s2), self.ev(e.value, s2))
                return self.alloc("dict", c, st)
            idx, dom, s2, guard = self._gen(g, st, it)
            k, v = self.ev(e.key, s2), self.ev(e.value, s2)
            self.loops = self.loops[:-1]
            k, v = self.deref(k, s2), self.deref(v, s2)
            return self.alloc("dict", mk("fstore", mk("dict"), idx, dom, k, v, guard), st)
        return self.alloc("dict", self.comp(e.generators, st, lambda s: mk("list", tup(self.ev(e.key, s), self.ev(e.value, s)))), st)

    def _gen(self, g, st, it):
        depth = len(self.loops)
        dom = dim(it)
        idx = mk("idx", dom, depth)
        self.nloop += 1
        self.loops = self.loops + ((idx, dom, self.nloop),)
        s2 = St(dict(st.env), st.heap, st.guards)
        self.assign(g.target, sub(it, idx), s2)
        gd = TRUE
        for c in g.ifs:
            t = self.cond(c, s2)
            gd = _and(gd, t)
            s2.guards = s2.guards + (guard(t, True),)
        return idx, dom, s2, gd

    def comp(self, gens, st, leaf, trial=False, body=None):
        if not gens:
            n0 = self.nobj
            r = leaf(st)
            return self.snap_new(r, st, n0)
        g = gens[0]
        it = self.seqval(self.ev(g.iter, st), st)
        if body is not None:
            it = self._keyed(g.target, g.iter, body, it)
        f = self._fuse_gens(g, it)
        if f is not None:
            return self.comp(f + gens[1:], st, leaf, body=body)
        u = self.unroll(it)
        if u is not None and not g.ifs:
            parts = []
            for x in u:
                s2 = St(dict(st.env), st.heap, st.guards)
                self.assign(g.target, x, s2)
                parts.append(self.comp(gens[1:], s2, leaf, body=body))
            return cat(*parts)
        if u is not None and len(u) <= 4:
            return self._filtered(g, u, gens, st, leaf, body)
        idx, dom, s2, guard = self._gen(g, st, it)
        part = self.comp(gens[1:], s2, leaf, body=body)
        self.loops = self.loops[:-1]
        return cat(each(idx, dom, part, guard))

    def _filtered(self, g, u, gens, st, leaf, body):
        """comprehension with conditions over a literal sequence: one literal list per outcome of the conditions"""
        alts = []
        for x in u:
            s2 = St(dict(st.env), st.heap, st.guards)
            self.assign(g.target, x, s2)
            gd = TRUE
            for c in g.ifs:
                t = self.cond(c, s2)
                gd = _and(gd, t)
                s2.guards = s2.guards + (guard(t, True),)
            k = self.decide(gd, s2) if gd.op == "const" else None
            alts.append((gd if k is None else const(k), self.comp(gens[1:], s2, leaf, body=body) if k is not False else mk("list")))

        def go(i, acc):
            if i == len(alts):
                return cat(*acc)
            c, p = alts[i]
            if c.op == "const":
                return go(i + 1, acc + [p] if c.args[0] else acc)
            return ite(c, go(i + 1, acc + [p]), go(i + 1, acc))
        return go(0, [])

    def _dict_field(self, c):
        """content of a field that the class sets to a dictionary"""
        a = c
        while a.op in ("store", "fstore"):
            a = a.args[0]
        name = None
        if a.op == "mu" and isinstance(a.args[0], str) and a.args[0].startswith("c:self."):
            name = a.args[0][7:]
        elif a.op == "attr" and is_self(a.args[0]):
            name = a.args[1]
        if name is None or not self.frames:
            return False
        k = self.frames[-1].cls
        if k is None:
            return False
        cache = self.__dict__.setdefault("_dict_fields", {})
        if k not in cache:
            cache[k] = set()
            for b in self.prog.mro(k):
                for mth in b.methods.values():
                    for x in ast.walk(mth.node):
                        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Dict) and not x.value.keys:
                            cache[k] |= {t.attr for t in x.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}
        return name in cache[k]

    def _by_key(self, target, it, body):
        """`for k in D` whose body reads D[k]: iteration over the keys of a dictionary"""
        if not isinstance(target, ast.Name) or not isinstance(it, (ast.Name, ast.Attribute)):
            return False
        d = ast.dump(_load(it))
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == target.id and ast.dump(_load(x.value)) == d:
                    return True
        return False

    def _keyed(self, target, it, body, v):
        if v.op in ("sym", "attr", "mu", "sub") and self._by_key(target, it, body):
            return mk("call", ".keys", v)
        return v

    def e_Starred(self, e, st):
        return mk("star", self.ev(e.value, st))

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        y = st.env.get("<yields>")
        self.emit("yield", "yield", st, args=(v,), node=e)
        if y is not None:
            st.heap[("c", y)] = cat(spread(self.content(y, st)), mk("list", self.deref(v, st)))
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.seqval(self.ev(e.value, st), st)
        y = st.env.get("<yields>")
        self.emit("yield", "yield_from", st, args=(v,), node=e)
        if y is not None:
            st.heap[("c", y)] = cat(spread(self.content(y, st)), spread(v))
        return NONE

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            if e.args:
                c = self.ev(e.args[0], st)
                slf = self.ev(e.args[1], st) if len(e.args) > 1 else None
                return mk("super", slf, c.args[0] if c.op == "cls" else fr.cls.full)
            ps = fr.func.params() if fr.func else []
            slf = st.env.get(ps[0]) if ps else None
            if slf is None or fr.cls is None:
                return mk("unk", "super", 0)
            return mk("super", slf, fr.cls.full)
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, st)
            if recv.op in ("mod", "ext", "cls", "super"):
                callee = self.getattr(recv, f.attr, st, e)
                recv = None
            else:
                # bound or field
                callee = None
                fv = st.heap.get(("f", recv, f.attr))
                if fv is not None:
                    callee = fv
        else:
            callee = self.ev(f, st)
            recv = None
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.seqval(self.ev(a.value, st), st)
                if v.op in ("tuple", "list"):
                    args.extend(v.args)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                d = self.deref(v, st)
                flat = dict_items(d)
                if flat is not None and all(x.op == "const" for x, _ in flat):
                    kw.update({x.args[0]: y for x, y in flat})
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        if any(a.op == "never" for a in args):
            return mk("never")
        if recv is not None and callee is None:
            return self.call_method(recv, f.attr, args, kw, st, e)
        return self.call(callee, args, kw, st, e)

    def is_opaque(self, f):
        return f.qual in self.opaque or f.full in self.opaque or f.name in self.opaque

    def call(self, callee, args, kw, st, node):
        if callee.op == "func":
            f = self.prog.lookup(callee.args[0])
            return self.call_func(f, args, kw, st, node)
        if callee.op == "cls":
            return self.construct(self.prog.lookup(callee.args[0]), args, kw, st, node)
        if callee.op == "bound":
            recv, cn, n = callee.args
            if cn.startswith("super:"):
                c = self.typeof(recv)
                after = self.prog.lookup(cn[6:])
                m = self.prog.method(c if c is not None else after, n, after=after)
                if m is None:
                    return NONE if n == "__init__" else self.opaque_call("super." + n, args, kw, st, node)
                return self.call_func(m, ([] if m.static else [recv]) + list(args), kw, st, node, self_cls=c)
            return self.call_method(recv, n, args, kw, st, node)
        if callee.op == "fn":
            return self.apply(callee, args, kw, st, node)
        if callee.op == "partial":
            return self.call(callee.args[0], list(callee.args[1].args) + list(args), {**{k.args[0]: k.args[1] for k in callee.args[2:]}, **kw}, st, node)
        if callee.op == "ext":
            return self.call_ext(callee.args[0], args, kw, st, node)
        if callee.op == "ite":
            a, b = st.copy(), st.copy()
            a.guards = st.guards + (guard(callee.args[0], True),)
            b.guards = st.guards + (guard(callee.args[0], False),)
            x = self.call(callee.args[1], args, kw, a, node)
            y = self.call(callee.args[2], args, kw, b, node)
            j = self.join2(callee.args[0], a, b, st.guards)
            st.heap.clear(); st.heap.update(j.heap)
            return ite(callee.args[0], x, y)
        # unknown callable value
        args = [self.deref(a, st) for a in args]
        kws = [mk("kw", k, self.deref(v, st)) for k, v in sorted(kw.items())]
        r = mk("call", "apply", callee, *args, *kws)
        nm = callee.args[1] if callee.op == "attr" else "apply"
        self.emit("call", "apply:" + str(nm), st, recv=callee, args=args, kw=kw, result=r, callee=callee, node=node)
        return r

    def apply(self, fn, args, kw, st, node=None):
        """Expand a closure / lambda."""
        c = self.closures.get(fn)
        if c is None or len(self.stack) > MAXDEPTH or sum(1 for s in self.stack if s[0] == id(c.node)) > 1:
            return mk("call", "apply", fn, *args)
        env = self.bind(c.node.args, args, kw, st, defaults_env=(c.module, c.env))
        self.stack.append((id(c.node), "<lambda>", getattr(node, "lineno", 0)))
        f = None
        if isinstance(c.node, ast.FunctionDef):
            f = Func(c.node, c.module, None)
            f.name = c.node.name
        fr, out, v = self.exec_function(c.node, f, c.module, c.cls, env, st, c.self_cls, parent=c.env)
        self.stack.pop()
        self._leave(fr, out, st)
        return v

    def _leave(self, fr, out, st):
        """Adopt callee's exit state into the caller's state (in place)."""
        if self.frames and fr.raises:
            self.frames[-1].raises.extend((St(st.env, r[0].heap, r[0].guards), r[1]) for r in fr.raises)
        if out is None:
            return
        st.heap.clear() if st.heap is not out.heap else None
        if st.heap is not out.heap:
            st.heap.update(out.heap)
        st.guards = out.guards

    def bind(self, a, args, kw, st, defaults_env=None):
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        # expand a trailing unknown star using the parameter count
        out = []
        for i, x in enumerate(args):
            if x.op == "star":
                rest = len(args) - i - 1
                n = max(0, len(params) - len(out) - rest)
                if a.vararg and not rest:
                    out.append(x)
                else:
                    out.extend(self.getitem(x.args[0], const(j), st) for j in range(n))
            else:
                out.append(x)
        args = out
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg:
            env[a.vararg.arg] = tup(*args[len(params):])
        kw = dict(kw)
        for k in list(kw):
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                env[k] = kw.pop(k)
        if a.kwarg:
            c = mk("dict")
            for k, v in kw.items():
                c = store(c, const(k), v)
            env[a.kwarg.arg] = self.alloc("dict", c, st)
        nd = len(a.defaults)
        for p, d in zip(params[len(params) - nd:], a.defaults):
            if p not in env:
                env[p] = self.default(d, defaults_env, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.default(d, defaults_env, st)
        for p in params:
            if p not in env:
                env[p] = sym("missing:" + p)
        return env

    def default(self, d, defaults_env, st):
        module, penv = defaults_env
        fr = Frame(None, module, None, penv)
        fr.self_cls = None
        cls = getattr(self, "_dcls", None)
        self.frames.append(fr)
        try:
            env = {}
            if cls is not None:
                for k, v in cls.attrs.items():
                    if isinstance(d, ast.Name) and d.id == k and v is not None:
                        env[k] = self.class_const((cls, v), k)
            return self.ev(d, St(env, st.heap, ()))
        finally:
            self.frames.pop()

    def call_func(self, f, args, kw, st, node, self_cls=None):
        if f.static and args and False:
            pass
        if self.is_opaque(f) or f.abstract or len(self.stack) > MAXDEPTH or any(s[0] == id(f.node) for s in self.stack):
            return self.repo_opaque(f, args, kw, st, node)
        self._dcls = f.cls
        env = self.bind(f.node.args, args, kw, st, defaults_env=(f.module, None))
        self._dcls = None
        if f.cls is not None and not f.static and f.params() and self_cls is None:
            self_cls = self.typeof(env[f.params()[0]]) or f.cls
        if f.cls is not None and not f.static and f.params():
            s0 = env[f.params()[0]]
            if s0 not in self.types and s0.op != "cls":
                self.types[s0] = self_cls
        for x in f.node.args.args:
            if x.annotation is not None and env[x.arg].op in ("sym", "attr", "sub") and env[x.arg] not in self.types:
                self.annotate(env[x.arg], f, x.arg)
        self.stack.append((id(f.node), f.full, getattr(node, "lineno", 0)))
        saved = self.loops
        fr, out, v = self.exec_function(f.node, f, f.module, f.cls, env, st, self_cls)
        self.stack.pop()
        g0 = st.guards
        self._leave(fr, out, st)
        if out is None:
            st.guards = g0
            return mk("never")
        return v

    def repo_opaque(self, f, args, kw, st, node):
        """A repo function kept symbolic: arguments bound to its parameter names."""
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        recv = None
        args = list(args)
        if f.cls is not None and not f.static and params:
            if args:
                recv = args[0]
                args = args[1:]
            params = params[1:]
        bound, i = {}, 0
        extra = []
        for x in args:
            if x.op == "star":
                rest = len(params) - i
                for j in range(rest):
                    bound[params[i]] = self.getitem(x.args[0], const(j), st)
                    i += 1
            elif i < len(params):
                bound[params[i]] = x
                i += 1
            else:
                extra.append(x)
        kws = {k: v for k, v in kw.items()}
        for k, v in kws.items():
            bound[k] = v
        nd = len(a.defaults)
        allp = [x.arg for x in a.posonlyargs + a.args]
        for p, d in zip(allp[len(allp) - nd:], a.defaults):
            if p not in bound and p in params:
                self._dcls = f.cls
                bound[p] = self.default(d, (f.module, None), st)
                self._dcls = None
        bound = {k: self.deref(v, st) for k, v in bound.items()}
        order = [p for p in params if p in bound] + sorted(k for k in bound if k not in params)
        targs = [mk("kw", p, bound[p]) for p in order] + [self.deref(x, st) for x in extra]
        r = mk("call", f.qual, *([recv] if recv is not None else []), *targs)
        r = self._occ(f.name if recv is None else "." + f.name, r)
        self.emit("call", f.qual, st, recv=recv, args=[bound[p] for p in params if p in bound] + extra, kw=bound, result=r, node=node)
        rt = f.node.returns
        if rt is not None:
            o = self.prog.resolve_expr(rt, f.module)
            if isinstance(o, Class):
                self.types[r] = o
        return r

    def _occ(self, name, r):
        if IMPURE.match(name):
            if self.quiet:
                return mk("occ", r, self.occ.get(r, 0))
            n = self.occ.get(r, 0)
            self.occ[r] = n + 1
            return mk("occ", r, n)
        return r

    def construct(self, c, args, kw, st, node):
        init = self.prog.method(c, "__init__")
        if c.name in self.inline_types and init is not None:
            self.nobj += 1
            o = mk("obj", self.nobj, c.name)
            self.kind[o] = "inst"
            self.types[o] = c
            self.emit("new", c.name, st, args=args, kw=kw, result=o, node=node)
            self.call_func(init, [o] + list(args), kw, st, node, self_cls=c)
            return o
        bound = {}
        if init is not None:
            env = self.bind(init.node.args, [NONE] + list(args), kw, st, defaults_env=(init.module, None))
            ps = init.params()[1:] + [x.arg for x in init.node.args.kwonlyargs]
            if init.node.args.vararg:
                ps.append(init.node.args.vararg.arg)
            if init.node.args.kwarg:
                ps.append(init.node.args.kwarg.arg)
            bound = {p: env[p] for p in ps if p in env}
        else:
            fields = [k for k in c.node.body if isinstance(k, ast.AnnAssign) and isinstance(k.target, ast.Name)]
            names = []
            for k in reversed(self.prog.mro(c)):
                for s in k.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id not in names:
                        names.append(s.target.id)
            for n_, v in zip(names, args):
                bound[n_] = v
            bound.update(kw)
            for n_ in names:
                if n_ not in bound:
                    a = self.prog.class_attr(c, n_)
                    if a is not None:
                        bound[n_] = self.class_const(a, n_)
            # attrs / dataclass style
        b2 = {k: self.deref(v, st) for k, v in bound.items()}
        r = mk("new", c.full, *[mk("kw", k, b2[k]) for k in b2])
        self.types[r] = c
        self.emit("new", c.name, st, args=list(b2.values()), kw=b2, result=r, node=node)
        for k, v in bound.items():
            if init is None:
                st.heap[("f", r, k)] = b2[k]
        return r

    def call_method(self, recv, n, args, kw, st, node):
        if (recv, n) in self.given:
            return self.given[(recv, n)]
        if recv.op == "ite" and ("c", recv) not in st.heap and self.typeof(recv) is None:
            # distribute over alternatives
            c, x, y = recv.args
            a, b = st.copy(), st.copy()
            a.guards = st.guards + (guard(c, True),)
            b.guards = st.guards + (guard(c, False),)
            rx = self.call_method(x, n, args, kw, a, node)
            ry = self.call_method(y, n, args, kw, b, node)
            j = self.join2(c, a, b, st.guards)
            st.heap.clear(); st.heap.update(j.heap)
            return ite(c, rx, ry)
        if recv.op == "cls":
            c = self.prog.lookup(recv.args[0])
            f = self.prog.method(c, n) if c is not None else None
            if f is not None and f.classmethod:
                if not f.abstract and not self.is_opaque(f):
                    return self.call_func(f, [recv] + list(args), kw, st, node, self_cls=c)
                return self.repo_opaque(f, [recv] + list(args), kw, st, node)
        c = self.typeof(recv)
        if c is not None:
            fv = st.heap.get(("f", recv, n))
            if fv is not None:
                return self.call(fv, args, kw, st, node)
            f = self.prog.method(c, n)
            if f is not None:
                expand = is_self(recv) or recv.op == "obj" or c.name in self.inline_types
                if f.prop:
                    return self.call(self.getattr(recv, n, st, node), args, kw, st, node)
                if expand and not f.abstract:
                    return self.call_func(f, ([] if f.static else [recv]) + list(args), kw, st, node, self_cls=c)
                return self.repo_opaque(f, ([] if f.static else [recv]) + list(args), kw, st, node)
        if n == "acquire":
            self.push_lock(self.deref(recv, st))
        elif n == "release":
            self.pop_lock(self.deref(recv, st))
        r = self.container_method(recv, n, args, kw, st, node)
        if r is not None:
            return r
        # unknown receiver: bind keywords with a repo signature if all candidates agree
        if c is None and kw and n in self.prog.method_index:
            cands = self.prog.method_index[n]
            sigs = {tuple(f.params()[0 if f.static else 1:]) for f in cands}
            if len(sigs) == 1:
                ps = list(sigs)[0]
                full = list(args) + [None] * max(0, len(ps) - len(args))
                ok = True
                for k, v in kw.items():
                    if k in ps and ps.index(k) >= len(args):
                        full[ps.index(k)] = v
                    else:
                        ok = False
                if ok:
                    while full and full[-1] is None:
                        full.pop()
                    if None not in full:
                        args, kw = full, {}
        dargs = [self.deref(a, st) for a in args]
        dkw = {k: self.deref(v, st) for k, v in kw.items()}
        drecv = self.deref(recv, st)
        r = self.pure_method(drecv, n, dargs, dkw)
        if r is not None:
            return r
        r = mk("call", "." + n, drecv, *dargs, *[mk("kw", k, v) for k, v in sorted(dkw.items())])
        r = self._occ("." + n, r)
        self.emit("call", "." + n, st, recv=recv, args=dargs, kw=dkw, result=r, callee=recv, node=node)
        return r

    # ------------------------------------------------------------ container methods
    def container_method(self, recv, n, args, kw, st, node):
        k = self.kind.get(recv)
        c = self.content(recv, st)
        known = k in ("list", "dict", "set", "array")
        if n == "append" and len(args) == 1:
            self.emit("call", ".append", st, recv=recv, args=args, node=node)
            st.heap[("c", recv)] = cat(spread(c), mk("list", args[0]))
            return NONE
        if n == "extend" and len(args) == 1:
            self.emit("call", ".extend", st, recv=recv, args=args, node=node)
            st.heap[("c", recv)] = cat(spread(c), spread(self.seqval(args[0], st)))
            return NONE
        if n == "add" and k == "set" and len(args) == 1:
            self.emit("call", ".add", st, recv=recv, args=args, node=node)
            st.heap[("c", recv)] = cat(spread(c), mk("list", args[0]))
            return NONE
        if n == "update" and k == "dict" and len(args) == 1:
            self.emit("call", ".update", st, recv=recv, args=args, node=node)
            d = self.deref(args[0], st)
            fl = dict_items(d)
            if fl is not None:
                for kk, v in fl:
                    c = store(c, kk, v)
            elif d.op == "fstore" and d.args[0].op == "dict":
                c = mk("fstore", c, *d.args[1:])
            else:
                c = mk("call", "dict.update", c, d)
            st.heap[("c", recv)] = c
            return NONE
        if n == "setdefault" and len(args) == 2:
            key, dv = args
            isin = self.cmp("in", key, c, st)
            have = self.getitem(recv, key, st)
            self.emit("call", ".setdefault", st, recv=recv, args=args, node=node)
            st.heap[("c", recv)] = ite(isin, c, store(c, key, dv))
            return ite(isin, have, dv)
        if n == "get" and (len(args) in (1, 2)) and (k == "dict" or c.op in ("store", "dict", "fstore") or self._dict_field(c)):
            key = args[0]
            dv = args[1] if len(args) > 1 else NONE
            fl = dict_items(self.deref(recv, st))
            if fl is not None and key.op == "const":
                for kk, v in fl:
                    if kk is key:
                        return v
                if all(kk.op == "const" for kk, _ in fl):
                    return dv
            isin = self.cmp("in", key, c, st)
            return ite(isin, self.getitem(recv, key, st), dv)
        if n == "copy" and not args and known:
            return self.alloc(k, c, st)
        if n == "reverse" and not args and c.op == "list" and not any(y.op in ("spread", "star") for y in c.args):
            self.emit("call", ".reverse", st, recv=recv, args=args, node=node)
            st.heap[("c", recv)] = mk("list", *reversed(c.args))
            return NONE
        if n in ("discard", "remove") and k == "set" and len(args) == 1 and c.op == "list" and all(y.op == "const" for y in c.args + (args[0],)):
            self.emit("call", "." + n, st, recv=recv, args=args, node=node)
            st.heap[("c", recv)] = mk("list", *[y for y in c.args if y is not args[0]])
            return NONE
        if n == "pop" and k == "set" and not args and c.op == "list" and c.args and len(set(c.args)) == 1:
            self.emit("call", ".pop", st, recv=recv, args=args, node=node)
            st.heap[("c", recv)] = mk("list")
            return c.args[0]
        if n == "insert" and len(args) == 2 and c.op == "list" and is_const(args[0], 0):
            self.emit("call", ".insert", st, recv=recv, args=args, node=node)
            st.heap[("c", recv)] = cat(mk("list", args[1]), c)
            return NONE
        if n in ("insert", "remove", "clear", "sort", "reverse", "discard", "difference_update", "fill", "update", "resize") or (n == "pop" and known):
            self.emit("call", "." + n, st, recv=recv, args=args, kw=kw, node=node)
            da = [self.deref(a, st) for a in args]
            r = mk("call", "." + n, self.deref(recv, st), *da, *[mk("kw", x, self.deref(v, st)) for x, v in sorted(kw.items())])
            if n == "clear" and k in ("list", "set"):
                st.heap[("c", recv)] = mk("list")
            elif n == "clear" and k == "dict":
                st.heap[("c", recv)] = mk("dict")
            elif n in ("resize",) and not known:
                pass
            elif n == "fill":
                st.heap[("c", recv)] = mk("call", "numpy.full", mk("dim", self.deref(recv, st)), *da)
            else:
                st.heap[("c", recv)] = mk("mut", r)
            return r
        return None

    def pure_method(self, recv, n, args, kw):
        """Methods folded into canonical function forms."""
        if n == "format" and recv.op == "const" and isinstance(recv.args[0], str):
            return format_str(recv.args[0], args, kw)
        if n == "index" and recv.op in ("list", "tuple") and len(args) == 1 and not kw and args[0] in recv.args and args[0].op == "const" and all(y.op == "const" for y in recv.args):
            return const(recv.args.index(args[0]))
        if n == "join" and recv.op == "const" and len(args) == 1 and args[0].op in ("list", "tuple"):
            parts = []
            for i, a in enumerate(args[0].args):
                if i:
                    parts.append(recv)
                parts.append(a if is_str(a) else fpart(a))
            return fmt(parts)
        if n == "encode" and False:
            return None
        fn = {"sum": "numpy.sum", "mean": "numpy.mean", "max": "numpy.max", "min": "numpy.min", "dot": None,
              "any": "numpy.any", "all": "numpy.all", "prod": "numpy.prod", "transpose": "numpy.transpose",
              "reshape": "numpy.reshape", "argsort": "numpy.argsort", "cumsum": "numpy.cumsum"}.get(n)
        if n == "dot" and len(args) == 1:
            return mk("bin", "@", recv, args[0])
        if fn and n in ("sum", "mean", "max", "min", "any", "all", "prod", "cumsum"):
            if fn == "numpy.sum" and not args and not kw:
                return sum_of(recv)
            return mk("call", fn, recv, *norm_axis(args, kw))
        if n == "transpose":
            if len(args) == 1:
                return mk("call", "numpy.transpose", recv, args[0])
            if not args and not kw:
                return attr(recv, "T")
            return mk("call", "numpy.transpose", recv, tup(*args))
        if n == "reshape" and not kw:
            return mk("call", "numpy.reshape", recv, args[0] if len(args) == 1 else tup(*args))
        if n in ("items", "keys", "values") and not args:
            return mk("call", "." + n, recv)
        if n in ("startswith", "endswith", "lower", "upper", "strip", "split", "replace", "rstrip", "lstrip", "decode", "encode",
                 "flatten", "ravel", "astype", "copy", "tolist", "isdigit", "digest", "hexdigest", "squeeze", "item"):
            return mk("call", "." + n, recv, *args, *[mk("kw", k, v) for k, v in sorted(kw.items())])
        if n in ("difference", "union", "intersection") and len(args) == 1:
            return mk("bin", {"difference": "-", "union": "|", "intersection": "&"}[n], recv, asset(args[0]))
        return None

    # ------------------------------------------------------------ external functions
    def opaque_call(self, name, args, kw, st, node):
        dargs = [self.deref(a, st) for a in args]
        dkw = {k: self.deref(v, st) for k, v in kw.items()}
        r = mk("call", name, *dargs, *[mk("kw", k, v) for k, v in sorted(dkw.items())])
        r = self._occ(name, r)
        self.emit("call", name, st, args=dargs, kw=dkw, result=r, node=node)
        return r

    def _quant(self, b, x):
        """any / all of literal lists"""
        if x.op == "ite":
            p, q = self._quant(b, x.args[1]), self._quant(b, x.args[2])
            return ite(x.args[0], p, q) if p is not None and q is not None else None
        if x.op not in ("list", "tuple") or any(y.op in ("spread", "star") for y in x.args):
            return None
        out = []
        for y in x.args:
            y = self.truth(y)
            if y.op == "const":
                if bool(y.args[0]) == (b == "any"):
                    return const(b == "any")
            elif y not in out:
                out.append(y)
        if not out:
            return const(b == "all")
        return out[0] if len(out) == 1 else mk("bool", "or" if b == "any" else "and", *out)

    def call_ext(self, name, args, kw, st, node):
        if name == "numpy.append" and len(args) == 2 and "axis" in kw:
            name, args = "numpy.concatenate", [tup(*args)]
        ps = EXT_PARAMS.get(name)
        if ps and kw:
            args, kw = list(args), dict(kw)
            while len(args) < len(ps) and ps[len(args)] in kw:
                args.append(kw.pop(ps[len(args)]))
        d = [self.deref(a, st) for a in args]
        nk = not kw
        b = name[9:] if name.startswith("builtins.") else None
        if b == "len" and len(d) == 1:
            return dim(d[0])
        if b == "range" and nk and 1 <= len(d) <= 3:
            lo, hi, stp = (const(0), d[0], const(1)) if len(d) == 1 else (d[0], d[1], d[2] if len(d) > 2 else const(1))
            return mk("range", lo, hi, stp)
        if b in ("list", "tuple", "set", "dict", "frozenset"):
            if not d and nk:
                return tup() if b == "tuple" else self.alloc(b if b != "frozenset" else "set", mk("dict") if b == "dict" else mk("list"), st)
            if len(d) == 1 and nk:
                x = d[0]
                if b != "dict":
                    x = literal_seq(x)
                if b == "list":
                    if x.op == "asset" or x.op == "bin":
                        return self.alloc("list", mk("cat", mk("spread", x)), st)
                    return self.alloc("list", cat(spread(x)), st)
                if b == "tuple":
                    if x.op in ("list", "tuple"):
                        return tup(*x.args)
                    return mk("call", name, x)
                if b in ("set", "frozenset"):
                    return self.alloc("set", cat(spread(x.args[0] if x.op == "asset" else x)), st)
                if b == "dict":
                    if x.op == "call" and x.args[0] == "builtins.zip" and len(x.args) == 3:
                        i = mk("idx", dim(x.args[1]), len(self.loops))
                        return self.alloc("dict", mk("fstore", mk("dict"), i, dim(x.args[1]), sub(x.args[1], i), sub(x.args[2], i), TRUE), st)
                    if x.op in ("store", "fstore", "dict"):
                        return self.alloc("dict", x, st)
                    if x.op in ("list", "tuple") and x.args and all(y.op in ("tuple", "list") and len(y.args) == 2 and y.args[0].op in ("const", "sym") for y in x.args):
                        c = mk("dict")
                        for y in x.args:
                            c = store(c, *y.args)
                        return self.alloc("dict", c, st)
            if b == "dict" and not d:
                c = mk("dict")
                for k, v in kw.items():
                    c = store(c, const(k), v)
                return self.alloc("dict", c, st)
        if b == "sum" and nk and len(d) == 1:
            return sum_of(d[0])
        if b in ("int", "float", "str", "bool") and len(d) == 1 and nk:
            if b == "str":
                return fmt([fpart(d[0])]) if not is_str(d[0]) else d[0]
            if b == "int" and d[0].op == "const" and isinstance(d[0].args[0], str) and d[0].args[0].isdigit():
                return const(int(d[0].args[0]))
            if d[0].op == "const" and isinstance(d[0].args[0], (int, float)) and b in ("int", "float"):
                try:
                    return const(int(d[0].args[0]) if b == "int" else float(d[0].args[0]))
                except Exception:
                    pass
            return mk("call", name, d[0])
        if b == "getattr" and len(d) >= 2 and d[1].op == "const":
            return self.getattr(args[0], d[1].args[0], st, node)
        if b == "setattr" and len(d) == 3 and d[1].op == "const":
            self.setattr(args[0], d[1].args[0], args[2], st, node)
            return NONE
        if b in ("isinstance", "hasattr", "callable", "issubclass", "type", "id", "abs", "enumerate", "zip", "max", "min",
                 "reversed", "any", "all", "iter", "slice", "repr", "ord", "chr", "round", "divmod", "hash"):
            if b == "slice":
                lo, hi, stp = (NONE, d[0], NONE) if len(d) == 1 else (d[0], d[1], d[2] if len(d) > 2 else NONE)
                return mk("slice", lo, hi, stp)
            if b == "type" and len(d) == 1 and d[0].op == "new":
                return mk("cls", d[0].args[0])
            if b == "isinstance" and len(d) == 2:
                t = self.isinst(args[0], d[1], st)
                if t is not None:
                    return const(t)
            if b in ("any", "all") and len(d) == 1 and nk:
                q = self._quant(b, d[0])
                if q is not None:
                    return q
            if b in ("max", "min") and len(d) == 2 and nk:
                d = sorted(d, key=lambda x: x._h)
            return mk("call", name, *d, *[mk("kw", k, self.deref(v, st)) for k, v in sorted(kw.items())])
        if b == "next" and len(d) in (1, 2) and nk and args[0].op == "obj":
            h = head_of(d[0], d[1] if len(d) == 2 else None)
            if h is not None:
                st.heap[("c", args[0])] = h[1]
                return h[0]
        if name == "functools.reduce" and len(d) in (2, 3) and nk:
            u = self.unroll(self.seqval(d[1], st))
            if u and len(d) == 2 or u is not None and len(d) == 3:
                acc, rest = (u[0], u[1:]) if len(d) == 2 else (args[2], u)
                for x in rest:
                    acc = self.call(args[0], [acc, x], {}, st, node)
                return acc
        if name == "itertools.takewhile" and len(d) == 2 and nk:
            u = self.unroll(self.seqval(d[1], st))
            if u is not None:
                out = []
                for x in u:
                    c = self.truth(self.deref(self.call(args[0], [x], {}, st, node), st), st)
                    k = self.decide(c, st)
                    if k is None:
                        out = None
                        break
                    if not k:
                        break
                    out.append(x)
                if out is not None:
                    return self.alloc("list", mk("list", *out), st)
        if b == "sorted" and len(d) == 1 and (nk or set(kw) == {"reverse"} and kw["reverse"].op == "const"):
            x = literal_seq(d[0])
            if x.op in ("list", "tuple") and len(x.args) <= 8 and all(y.op == "const" for y in x.args):
                try:
                    return self.alloc("list", mk("list", *sorted(x.args, key=lambda y: y.args[0], reverse=bool(kw and kw["reverse"].args[0]))), st)
                except TypeError:
                    pass
        if b in ("sorted", "map", "filter"):
            if b == "map" and len(args) == 2:
                it = d[1]
                u = self.unroll(self.seqval(it, st))
                if u is not None:
                    return self.alloc("list", mk("list", *[self.deref(self.call(args[0], [x], {}, st, node), st) for x in u]), st)
                depth = len(self.loops)
                dom = dim(it)
                idx = mk("idx", dom, depth)
                self.nloop += 1
                self.loops = self.loops + ((idx, dom, self.nloop),)
                v = self.call(args[0], [sub(it, idx)], {}, st, node)
                v = self.deref(v, st)
                self.loops = self.loops[:-1]
                return self.alloc("list", cat(each(idx, dom, mk("list", v))), st)
            kws = [mk("kw", k, self.deref(v, st)) for k, v in sorted(kw.items())]
            return mk("call", name, *d, *kws)
        if name == "functools.partial" and args:
            return mk("partial", args[0], tup(*args[1:]), *[mk("kw", k, v) for k, v in sorted(kw.items())])
        if name == "os.path.join":
            out = []
            for x in d:
                if x.op == "path":
                    out.extend(x.args)
                elif not is_const(x, ""):
                    out.append(x)
            return mk("path", *out)
        if name in ("numpy.shape", "numpy.ndim", "numpy.size") and nk and len(d) == 1 and d[0].op not in ("list", "tuple", "const"):
            return self.getattr(args[0], name[6:], st, node)
        if name in ("numpy.sum",) and nk and len(d) == 1:
            return sum_of(d[0])
        if name == "numpy.atleast_1d" and len(d) == 1 and nk and d[0].op in ("list", "tuple") and d[0].args and not any(x.op in ("list", "tuple", "star", "spread") for x in d[0].args):
            name = "numpy.array"
        if name in ALLOC:
            dk = [mk("kw", k, self.deref(v, st)) for k, v in sorted(kw.items())]
            k = "array"
            if name in ("copy.copy", "copy.deepcopy"):
                if args[0].op == "obj" and self.kind.get(args[0]) in ("list", "dict", "set", "array"):
                    return self.alloc(self.kind[args[0]], d[0], st)
                r = mk("call", name, *d)
                c = self.typeof(args[0])
                if c is not None:
                    self.types[r] = c
                    # field copies
                    for key, v in list(st.heap.items()):
                        if key[0] == "f" and key[1] is args[0]:
                            st.heap[("f", r, key[2])] = v
                self.emit("call", name, st, args=d, result=r, node=node)
                return r
            if name in ("collections.OrderedDict",) and not d:
                return self.alloc("dict", mk("dict"), st)
            if name == "numpy.array" and d and not dk and d[0].op in ("list", "cat", "tuple") and False:
                return self.alloc("array", d[0], st)
            if name in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full") and "shape" in kw:
                d = [self.deref(kw["shape"], st)] + d
                dk = [x for x in dk if x.args[0] != "shape"]
            if name in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full") and d and d[0].op == "tuple" and len(d[0].args) == 1:
                d = [d[0].args[0]] + d[1:]
            c = mk("call", name, *d, *dk)
            r = self.alloc(k, c, st)
            self.emit("call", name, st, args=d, kw={x.args[0]: x.args[1] for x in dk}, result=r, node=node)
            return r
        if name.startswith("numpy.") and name.split(".")[1] in ("mean", "max", "min", "any", "all", "prod", "sum", "amax", "amin", "cumsum", "nansum", "nanmean", "nanmax", "nanmin"):
            nm = {"amax": "max", "amin": "min"}.get(name.split(".")[1], name.split(".")[1])
            return mk("call", "numpy." + nm, d[0] if d else NONE, *norm_axis(d[1:], {k: self.deref(v, st) for k, v in kw.items()}))
        if name == "numpy.dot" and len(d) == 2 and nk or name == "numpy.matmul" and len(d) == 2:
            return mk("bin", "@", d[0], d[1])
        if name == "numpy.where" and len(d) == 3:
            return mk("where", *d)
        if name == "itertools.chain":
            parts = []
            for x in d:
                parts.append(spread(x.args[0]) if x.op == "star" else spread(x))
            if len(d) == 1 and d[0].op == "star":
                return mk("call", "itertools.chain", d[0])
            return self.alloc("list", cat(*parts), st)
        if name == "itertools.chain.from_iterable" and len(d) == 1:
            return mk("call", "itertools.chain", mk("star", d[0]))
        return self.opaque_call(name, args, kw, st, node)

    def isinst(self, a, cls, st):
        ks = cls.args if cls.op == "tuple" else (cls,)
        if (a, "isinstance") in self.given and all(k.op == "cls" for k in ks):
            return any(last_name(k.args[0]) in self.given[(a, "isinstance")] for k in ks)
        if a.op == "new" and all(k.op == "cls" for k in ks) and self.typeof(a) is not None:
            mro = {k.full for k in self.prog.mro(self.typeof(a))}
            return any(k.args[0] in mro for k in ks)
        t = self.typeof(a)
        if t is not None:
            mro = {k.full for k in self.prog.mro(t)}
            if any(k.op == "cls" and k.args[0] in mro for k in ks):
                return True
            return None
        k = self.kind.get(a)
        if k in ("list", "dict", "set"):
            names = {x.args[0] for x in ks if x.op == "ext"}
            if "builtins." + k in names:
                return True
        return None


def last_name(n):
    return n.rsplit(".", 1)[-1]


def guard(c, pol):
    """Canonical (condition, polarity)."""
    while True:
        if c.op == "not":
            c, pol = c.args[0], not pol
        elif c.op == "cmp" and c.args[0] in ("!=", "isnot", "notin"):
            c, pol = neg(c), not pol
        else:
            return (c, pol)


def under(t, c, pol):
    """truth of t where condition c is pol"""
    if t.op == "const":
        return const(bool(t.args[0]))
    (a, p), (b, q) = guard(t, True), guard(c, True)
    if a is b:
        return const((q == pol) == p)
    return t


def flat_guards(gs):
    """Conjuncts of a guard list: and/True and or/False are split."""
    out = []
    st = list(gs)[::-1]
    while st:
        c, p = guard(*st.pop())
        if c.op == "bool" and (c.args[0] == "and") == p:
            st.extend((x, p) for x in reversed(c.args[1:]))
        elif (c, p) not in out:
            out.append((c, p))
    return out


def is_self(t):
    return t.op == "sym" and t.args[0] in ("self", "other_self") or t.op == "obj"


def asset(x):
    return x if x.op in ("asset", "bin") else mk("asset", cat(spread(x)))


def _and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    xs = list(a.args[1:]) if a.op == "bool" and a.args[0] == "and" else [a]
    ys = list(b.args[1:]) if b.op == "bool" and b.args[0] == "and" else [b]
    for y in ys:
        if y not in xs:
            xs.append(y)
    return mk("bool", "and", *xs) if len(xs) > 1 else xs[0]


def store(c, i, v):
    if c.op == "list" and i.op == "const" and isinstance(i.args[0], int) and not isinstance(i.args[0], bool) and -len(c.args) <= i.args[0] < len(c.args):
        a = list(c.args)
        a[i.args[0]] = v
        return mk("list", *a)
    if c.op == "dict" and i.op == "const":
        items = list(zip(c.args[::2], c.args[1::2]))
        for n, (k, _) in enumerate(items):
            if k is i:
                items[n] = (i, v)
                break
        else:
            items.append((i, v))
        return mk("dict", *[x for kv in items for x in kv])
    if c.op == "store" and c.args[1] is i:
        return store(c.args[0], i, v)
    return mk("store", c, i, v)


def dict_items(d):
    if d.op == "dict":
        return list(zip(d.args[::2], d.args[1::2]))
    if d.op == "store":
        b = dict_items(d.args[0])
        if b is None:
            return None
        return [x for x in b if x[0] is not d.args[1]] + [(d.args[1], d.args[2])]
    return None


def sum_of(x):
    if x.op == "cat" and len(x.args) == 1 and x.args[0].op == "each":
        i, dom, part, g = x.args[0].args
        if part.op == "list" and len(part.args) == 1:
            e = part.args[0] if g is TRUE else ite(g, part.args[0], const(0))
            return mk("bsum", i, dom, e)
    if x.op in ("list", "tuple") and not x.args:
        return const(0)
    if x.op in ("list", "tuple") and x.args:
        r = x.args[0]
        for y in x.args[1:]:
            r = binop("+", r, y)
        return r
    return mk("call", "numpy.sum", x)


def norm_axis(args, kw):
    out = []
    kw = dict(kw)
    if args:
        kw.setdefault("axis", args[0])
    for k in sorted(kw):
        if k == "axis" and kw[k] is NONE:
            continue
        out.append(mk("kw", k, kw[k]))
    return out


def format_str(s, args, kw):
    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == "":
                t = args[auto]
                auto += 1
            elif field.isdigit():
                t = args[int(field)]
            elif field in kw:
                t = kw[field]
            else:
                return None
            parts.append(fpart(t, spec or "", conv or ""))
    except Exception:
        return None
    return fmt(parts)


def percent(s, v):
    vals = list(v.args) if v.op == "tuple" else [v]
    parts, pos, k = [], 0, 0
    for m in re.finditer(r"%(?P<spec>[-+ #0]*\d*(?:\.\d+)?)(?P<c>[sdifgeExr%])", s):
        if m.start() > pos:
            parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group("c") == "%":
            parts.append(const("%"))
            continue
        if k >= len(vals):
            return None
        spec = m.group("spec")
        c = m.group("c")
        if c == "s" and not spec:
            parts.append(fpart(vals[k]))
        else:
            if c == "i":
                c = "d"
            if c == "d" and not spec:
                parts.append(fpart(vals[k], "d"))
            else:
                parts.append(fpart(vals[k], spec + c))
        k += 1
    if pos < len(s):
        parts.append(const(s[pos:]))
    return fmt(parts)


def _boolish(v):
    return v.op in ("cmp", "not", "bool") or (v.op == "const" and isinstance(v.args[0], bool)) or \
        (v.op == "call" and v.args[0] in ("builtins.isinstance", "builtins.callable", "builtins.hasattr", "os.path.exists", "os.path.isdir", "builtins.any", "builtins.all", "numpy.any", "numpy.all", ".endswith", ".startswith"))


def _load(t):
    n = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields}), t)
    n.ctx = ast.Load()
    return n


def head_of(x, default):
    """(first item, remaining items) of literal lists"""
    if x.op in ("list", "tuple") and not any(y.op in ("spread", "star") for y in x.args):
        if x.args:
            return x.args[0], mk("list", *x.args[1:])
        return (default if default is not None else mk("undef", "StopIteration")), mk("list")
    if x.op == "ite":
        a, b = head_of(x.args[1], default), head_of(x.args[2], default)
        if a is None or b is None:
            return None
        return ite(x.args[0], a[0], b[0]), ite(x.args[0], a[1], b[1])
    return None


def literal_seq(x):
    """items of a literal dictionary (keys, or .keys() / .values() / .items()) as a literal list"""
    if x.op == "dict" and x.args:
        return mk("list", *x.args[::2])
    if x.op == "call" and x.args[0] in (".keys", ".values", ".items") and len(x.args) == 2 and x.args[1].op == "dict":
        k, v = x.args[1].args[::2], x.args[1].args[1::2]
        return mk("list", *(k if x.args[0] == ".keys" else v if x.args[0] == ".values" else [tup(*y) for y in zip(k, v)]))
    return x


def distinct(r):
    """a set given by constants has each of them once"""
    if r.op == "list" and len(r.args) > 1 and all(y.op == "const" for y in r.args):
        return mk("list", *dict.fromkeys(r.args))
    return r
