"""Program loader: modules, classes, MRO and name resolution for /repo (pure AST, nothing is imported or executed)."""
import ast
import os
import warnings

warnings.simplefilter("ignore", SyntaxWarning)

from sa.rewrite import counting


class AnchorError(Exception):
    """A construct the rule is anchored on no longer exists (tool error, not a verdict)."""


class Func:
    def __init__(self, node, module, cls=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = node.name
        self.decos = [_deco(d) for d in node.decorator_list]
        self.static = "staticmethod" in self.decos
        self.classmethod = "classmethod" in self.decos
        self.prop = "property" in self.decos
        self.setter = any(d.endswith(".setter") for d in self.decos)
        self.abstract = any(d.split(".")[-1] == "abstractmethod" for d in self.decos)
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    @property
    def full(self):
        return self.module.name + "." + self.qual

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def is_trivial(self):
        body = [s for s in self.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return not body or all(isinstance(s, ast.Pass) for s in body)


def own_nodes(fn):
    """AST nodes of a function body without nested function/lambda bodies."""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def _deco(d):
    if isinstance(d, ast.Call):
        d = d.func
    try:
        return ast.unparse(d)
    except Exception:
        return ""


class Class:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods, self.setters, self.attrs = {}, {}, {}
        self.base_nodes = node.bases
        for s in node.body:
            self._add(s)

    def _add(self, s):
        if isinstance(s, ast.FunctionDef):
            f = Func(s, self.module, self)
            (self.setters if f.setter else self.methods)[s.name] = f
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.attrs[s.target.id] = s.value  # may be None
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body:
                self._add(x)

    @property
    def full(self):
        return self.module.name + "." + self.name


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.imports, self.funcs, self.classes, self.consts = {}, {}, {}, {}
        self._scan(tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.imports.update(import_map(s, self))
            elif isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = Func(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                for h in getattr(s, "handlers", []):
                    self._scan(h.body)
                self._scan(s.orelse)


def import_map(s, module):
    out = {}
    if isinstance(s, ast.Import):
        for a in s.names:
            if a.asname:
                out[a.asname] = a.name
            else:
                out[a.name.split(".")[0]] = a.name.split(".")[0]
    else:
        base = s.module or ""
        if s.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            out[a.asname or a.name] = base + "." + a.name
    return out


class Program:
    def __init__(self, root="/repo", packages=("mlmc",)):
        self.root = root
        self.modules = {}
        self.errors = []
        for p in packages:
            for d, dirs, files in os.walk(os.path.join(root, p)):
                dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x != "__pycache__")
                for f in sorted(files):
                    if not f.endswith(".py"):
                        continue
                    path = os.path.join(d, f)
                    rel = os.path.relpath(path, root)
                    name = rel[:-3].replace(os.sep, ".")
                    pkg = name.endswith(".__init__")
                    if pkg:
                        name = name[:-9]
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                    try:
                        tree = counting(ast.parse(src, path))
                    except SyntaxError as e:
                        self.errors.append((rel, str(e)))
                        continue
                    m = Module(name, rel, tree, pkg)
                    m.src = src
                    self.modules[name] = m
        self.method_index = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.method_index.setdefault(n, []).append(f)

    # -- lookup
    def lookup(self, dotted, _depth=0):
        """dotted -> Module | Class | Func | ('ext', dotted)"""
        if dotted in self.modules:
            return self.modules[dotted]
        if "." in dotted and _depth < 8:
            head, tail = dotted.rsplit(".", 1)
            o = self.lookup(head, _depth + 1)
            if isinstance(o, Module):
                if tail in o.classes:
                    return o.classes[tail]
                if tail in o.funcs:
                    return o.funcs[tail]
                if tail in o.imports:
                    tgt = o.imports[tail]
                    if tgt != dotted:
                        return self.lookup(tgt, _depth + 1)
                if tail in o.consts:
                    return ("const", o, tail)
            if isinstance(o, Class):
                f = self.method(o, tail)
                if f:
                    return f
        return ("ext", dotted)

    def cls(self, full):
        o = self.lookup(full)
        if not isinstance(o, Class):
            raise AnchorError("class %s not found" % full)
        return o

    def func(self, full):
        o = self.lookup(full)
        if not isinstance(o, Func):
            raise AnchorError("function %s not found" % full)
        return o

    def bases(self, c):
        out = []
        for b in c.base_nodes:
            o = self.resolve_expr(b, c.module)
            if isinstance(o, Class):
                out.append(o)
        return out

    def mro(self, c):
        """C3 where possible, depth-first otherwise."""
        def lin(c, stack):
            if c in stack:
                return [c]
            bs = self.bases(c)
            seqs = [lin(b, stack + [c]) for b in bs] + [list(bs)]
            out = [c]
            while any(seqs):
                for s in seqs:
                    if s and not any(s[0] in o[1:] for o in seqs):
                        h = s[0]
                        break
                else:
                    h = next(s for s in seqs if s)[0]
                out.append(h)
                for s in seqs:
                    if s and s[0] is h:
                        s.pop(0)
            return out
        return lin(c, [])

    def method(self, c, name, after=None):
        m = self.mro(c)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for k in m:
            if name in k.methods:
                return k.methods[name]
        return None

    def setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs and k.attrs[name] is not None:
                return k, k.attrs[name]
        return None

    def subclasses(self, c, proper=False):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if c in self.mro(k) and (not proper or k is not c):
                    out.append(k)
        return out

    def resolve_expr(self, e, module):
        d = dotted(e)
        if d is None:
            return None
        head, *rest = d.split(".")
        if head in module.classes and not rest:
            return module.classes[head]
        if head in module.funcs and not rest:
            return module.funcs[head]
        if head in module.classes:
            return self.lookup(module.name + "." + d)
        if head in module.imports:
            return self.lookup(".".join([module.imports[head]] + rest))
        return None


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + "." + e.attr
    return None
