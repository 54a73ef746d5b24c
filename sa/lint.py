"""Well-formedness of names, attributes and calls, decided from the syntax trees of the whole package.

Types are sets of possible classes inferred from constructor calls, annotations, property getters and
attribute assignments; a use is reported only when it is wrong for every class its receiver may have."""
import ast
import builtins
import glob
import os
import re

from .program import ClassInfo, FuncInfo, PropInfo

OBJ = set(dir(object)) | {"__dict__", "__name__", "__module__", "__annotations__", "__qualname__", "__wrapped__"}
BUILT = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__"}


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def walk_scope(node):
    """nodes of one function or module scope, nested scopes excluded (comprehensions included)"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))


def stores(node):
    """names bound in a scope"""
    out = set()
    for x in walk_scope(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.MatchMapping) and x.rest:
            out.add(x.rest)
    return out


def bound(fn):
    """names bound in a function scope itself: the targets of its comprehensions live in scopes of their own"""
    inner = [z for x in walk_scope(fn) if isinstance(x, ast.comprehension) for z in ast.walk(x.target)]
    inner = {id(z) for z in inner}
    free = {x.id for x in walk_scope(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and id(x) not in inner}
    comp = {x.id for x in walk_scope(fn) if isinstance(x, ast.Name) and id(x) in inner}
    other = stores(fn)
    nonname = {x.name for x in walk_scope(fn) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and x.name} | \
        {(a.asname or a.name).split(".")[0] for x in walk_scope(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names} | \
        {x.rest for x in walk_scope(fn) if isinstance(x, ast.MatchMapping) and x.rest}
    return other - (comp - free - nonname)


class Lint:
    def __init__(self, program):
        self.p = program
        self.subs = {}
        for c in program.classes():
            for b in c.mro():
                self.subs.setdefault(b, set()).add(c)
        self.own = {}            # class -> attribute names stored on self
        self.vals = {}           # (class, attr) -> [(expr, FuncInfo)]
        self.foreign = set()     # attribute names stored on anything that is not self
        self.dyn = set()
        for f in program.functions():
            me = self.selfname(f)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    if isinstance(x.value, ast.Name) and x.value.id == me and f.cls:
                        self.own.setdefault(f.cls, set()).add(x.attr)
                    else:
                        self.foreign.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and f.cls:
                    self.dyn.add(f.cls)
                if isinstance(x, ast.Attribute) and x.attr == "__dict__" and f.cls:
                    self.dyn.add(f.cls)
            if f.cls:
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                self.vals.setdefault((f.cls, t.attr), []).append((x.value, f))
                            elif isinstance(t, (ast.Tuple, ast.List)):
                                for e in t.elts:
                                    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me:
                                        self.vals.setdefault((f.cls, e.attr), []).append((None, f))
                    elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and isinstance(x.target, ast.Attribute) and \
                            isinstance(x.target.value, ast.Name) and x.target.value.id == me:
                        self.vals.setdefault((f.cls, x.target.attr), []).append((getattr(x, "value", None) if isinstance(x, ast.AnnAssign) else None, f))
                    elif isinstance(x, (ast.For, ast.withitem, ast.NamedExpr)):
                        t = getattr(x, "target", None) or getattr(x, "optional_vars", None)
                        for y in ast.walk(t) if t is not None else ():
                            if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me:
                                self.vals.setdefault((f.cls, y.attr), []).append((None, f))
        self._open = {}
        self._names = {}
        self._body = {}
        self._busy = set()
        self._ext = {}
        self._ret = {}
        self._loc = {}

    @staticmethod
    def selfname(f):
        a = f.node.args.posonlyargs + f.node.args.args
        return a[0].arg if f.cls is not None and f.kind in ("method", "classm") and a else None

    # ---- types: frozenset of ("inst", class, bounded) | ("cls", class) | ("ext", dotted) | ("extinst", dotted), or None ----
    def annot(self, m, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.p._dotted(m, a)
            if r and r[0] == "class":
                return frozenset([("inst", r[1], True)])
        return None

    def locals_of(self, f):
        """name -> list of value expressions of the assignments to it, None when bound some other way"""
        key = id(f.node)
        if key in self._loc:
            return self._loc[key]
        out = {}
        for x in walk_scope(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).append(x.value)
        n = {}
        for x in walk_scope(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                n[x.id] = n.get(x.id, 0) + 1
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "issubclass", "hasattr", "getattr") and x.args:
                for y in ast.walk(x.args[0]):
                    if isinstance(y, ast.Name):
                        out.setdefault("#tested", set()).add(y.id)
        for k in list(n):
            if n[k] != len(out.get(k, [])):
                out[k] = None
        for x in walk_scope(f.node):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.ExceptHandler)):
                nm = [x.name] if hasattr(x, "name") and x.name else [(a.asname or a.name).split(".")[0] for a in getattr(x, "names", [])]
                for k in nm:
                    out[k] = None
        self._loc[key] = out
        return out

    def type(self, e, f, depth=0):
        if depth > 12 or e is None:
            return None
        k = (id(e), id(f.node))
        if k in self._busy:
            return frozenset()
        self._busy.add(k)
        try:
            return self._type(e, f, depth + 1)
        finally:
            self._busy.discard(k)

    def union(self, ts):
        out = frozenset()
        for t in ts:
            if t is None:
                return None
            out |= t
        return out

    def _type(self, e, f, d):
        m = f.module
        if isinstance(e, ast.Constant):
            return frozenset() if e.value is None else None
        if isinstance(e, ast.IfExp):
            return self.union([self.type(e.body, f, d), self.type(e.orelse, f, d)])
        if isinstance(e, ast.Name):
            loc = self.locals_of(f)
            if e.id in loc.get("#tested", ()):
                return None
            me = self.selfname(f)
            a = f.node.args
            if e.id == me:
                if e.id in loc:
                    return None
                return frozenset([("inst", f.cls, True) if f.kind == "method" else ("cls", f.cls)])
            ps = {x.arg: x for x in a.posonlyargs + a.args + a.kwonlyargs}
            if e.id in ps:
                t = self.annot(m, ps[e.id].annotation) if ps[e.id].annotation is not None else None
                if e.id in loc:
                    v = loc[e.id]
                    return None if v is None else self.union([t] + [self.type(x, f, d) for x in v])
                return t
            if e.id in params(f.node):
                return None
            if e.id in loc:
                v = loc[e.id]
                return None if v is None else self.union([self.type(x, f, d) for x in v])
            r = self.p.resolve(m, e.id)
            if r and r[0] == "class":
                return frozenset([("cls", r[1])])
            if r and r[0] == "ext":
                return frozenset([("ext", r[1])])
            return None
        if isinstance(e, ast.Attribute):
            t = self.type(e.value, f, d)
            if t is None:
                return None
            out = []
            for x in t:
                if x[0] == "ext":
                    out.append(frozenset([("ext", x[1] + "." + e.attr)]))
                elif x[0] == "inst":
                    out.append(self.attr_type(x[1], e.attr, d))
                else:
                    return None
            return self.union(out)
        if isinstance(e, ast.Call):
            t = self.type(e.func, f, d)
            if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and f.cls:
                nx = set()
                for k in self.subs.get(f.cls, {f.cls}):
                    after = k.mro()[k.mro().index(f.cls) + 1:]
                    if not after:
                        return None
                    nx.add(("inst", after[0], False))
                return frozenset(nx) or None
            if t:
                out = []
                for x in t:
                    if x[0] == "cls" and self.opaque_new(x[1]):
                        return None
                    elif x[0] == "cls":
                        out.append(frozenset([("inst", x[1], isinstance(e.func, ast.Name) and e.func.id == "cls")]))
                    elif x[0] == "ext" and x[1].split(".")[-1][:1].isupper():
                        out.append(frozenset([("extinst", x[1])]))
                    else:
                        return None
                return self.union(out)
            if isinstance(e.func, ast.Attribute):
                t = self.type(e.func.value, f, d)
                if t and all(x[0] in ("inst", "cls") for x in t):
                    out = []
                    for x in t:
                        for g in self.methods(x, e.func.attr):
                            out.append(self.returns(g, x, d))
                    return self.union(out) if out else None
            if isinstance(e.func, ast.Name):
                r = self.p.resolve(m, e.func.id)
                if r and r[0] == "func" and e.func.id not in self.locals_of(f):
                    return self.returns(r[1], None, d)
            return None
        return None

    def methods(self, x, name):
        """every function a method call may reach"""
        cs = [x[1]] if not (x[0] == "inst" and x[2]) else list(self.subs.get(x[1], {x[1]}))
        out = []
        for c in cs:
            v, _ = c.lookup(name)
            if isinstance(v, FuncInfo) and v not in out:
                out.append(v)
        return out

    def returns(self, g, recv, d):
        if id(g) in self._ret:
            return self._ret[id(g)]
        if any("abstract" in ast.unparse(q) for q in g.node.decorator_list):
            return frozenset()
        rs = [x.value for x in walk_scope(g.node) if isinstance(x, ast.Return)]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(g.node)):
            return None
        t = self.union([self.type(v, g, d) for v in rs if v is not None])
        if not self._busy:
            self._ret[id(g)] = t
        return t

    def attr_type(self, c, name, d):
        v, _ = c.lookup(name)
        if isinstance(v, PropInfo):
            gs = {id(w.getter): w.getter for s in self.subs.get(c, {c}) for w in [s.lookup(name)[0]] if isinstance(w, PropInfo) and w.getter}
            return self.union([self.returns(g, None, d) for g in gs.values()])
        if v is not None:
            return None
        out = []
        fam = set(c.mro()) | self.subs.get(c, set()) | {b for s in self.subs.get(c, set()) for b in s.mro()}
        for k in fam:
            for x, g in self.vals.get((k, name), ()):
                out.append(self.type(x, g, d))
        if not out or name in self.foreign:
            return None
        return self.union(out)

    # ---- checks --------------------------------------------------------------
    def has_attr(self, c, name, bounded):
        cs = self.subs.get(c, {c}) if bounded else {c}
        for k in cs:
            if k.has_external_base() or k.lookup("__getattr__")[0] is not None or k.lookup("__getattribute__")[0] is not None:
                return True
            if any(x in self.dyn for x in k.mro()):
                return True
            if k.lookup(name)[0] is not None or any(name in self.body(x) for x in k.mro()) or any(name in self.own.get(x, ()) for x in k.mro()):
                return True
            if any(s.node.decorator_list or s.node.keywords and any(q.arg == "metaclass" and "ABC" not in ast.unparse(q.value) for q in s.node.keywords) for s in k.mro()):
                return True
        return name in OBJ or name in self.foreign

    def body(self, c):
        """every name the body of a class binds"""
        if c not in self._body:
            self._body[c] = {n for z in c.node.body for n in stores(ast.Module(body=[z], type_ignores=[]))}
        return self._body[c]

    @staticmethod
    def opaque_new(c):
        return any(s.node.decorator_list or s.node.keywords and any(q.arg == "metaclass" and "ABC" not in ast.unparse(q.value) for q in s.node.keywords)
                   for s in c.mro()) or c.lookup("__new__")[0] is not None

    def mismatch(self, g, call, bound):
        """why a call does not fit the signature of a function, or None"""
        a = g.node.args if isinstance(g, FuncInfo) else g.args
        deco = [ast.unparse(q) for q in (g.node if isinstance(g, FuncInfo) else g).decorator_list] if hasattr(g, "node") else []
        if any(x.split("(")[0].split(".")[-1] not in ("classmethod", "staticmethod", "abstractmethod", "property") and ".setter" not in x for x in deco):
            return None
        pos = [x.arg for x in a.posonlyargs + a.args]
        if bound and pos:
            pos = pos[1:]
        elif bound and not a.vararg:
            return "it takes no self"
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        n = len([x for x in call.args if not isinstance(x, ast.Starred)])
        if n > len(pos) and not a.vararg:
            return "it takes %d positional arguments, %d are given" % (len(pos), n)
        ponly = {x.arg for x in a.posonlyargs}
        kwo = [x.arg for x in a.kwonlyargs]
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg not in pos + kwo and not a.kwarg or k.arg in ponly and not a.kwarg:
                return "it has no parameter named %s" % k.arg
            if k.arg in pos[:n]:
                return "parameter %s is given twice" % k.arg
        if not star and not dstar:
            nd = len(a.defaults)
            need = pos[:len(pos) - nd] if nd <= len(pos) else []
            given = set(pos[:n]) | {k.arg for k in call.keywords}
            miss = [x for x in need if x not in given] + [x for x, dv in zip(kwo, a.kw_defaults) if dv is None and x not in given]
            if miss:
                return "no value for %s" % ", ".join(miss)
        return None

    def targets(self, call, f):
        """-> [(callee, bound, label)] for calls whose callee is a function of the package for certain, or None"""
        fn = call.func
        m = f.module
        if isinstance(fn, ast.Name):
            if fn.id in self.locals_of(f) or fn.id in params(f.node):
                t = self.type(fn, f)
                if not t or any(x[0] != "cls" for x in t):
                    return None
                return [y for x in t for y in self.ctor(x[1])]
            r = self.p.resolve(m, fn.id)
            if r and r[0] == "func":
                return [(r[1], False, r[1].qual)]
            if r and r[0] == "class":
                return self.ctor(r[1])
            return None
        if isinstance(fn, ast.Attribute):
            r = self.p._dotted(m, fn) if not (isinstance(fn.value, ast.Name) and fn.value.id in set(params(f.node)) | set(self.locals_of(f))) else None
            if r and r[0] == "func":
                return [(r[1], False, r[1].qual)]
            if r and r[0] == "class":
                return self.ctor(r[1])
            t = self.type(fn.value, f)
            if not t:
                return None
            out = []
            for x in t:
                if x[0] not in ("inst", "cls"):
                    return None
                cs = self.subs.get(x[1], {x[1]}) if x[0] == "inst" and x[2] or x[0] == "cls" and isinstance(fn.value, ast.Name) and fn.value.id == self.selfname(f) else {x[1]}
                for c in cs:
                    if c.has_external_base():
                        return None
                    v, k = c.lookup(fn.attr)
                    if any(fn.attr in self.own.get(z, ()) for z in c.mro()) or fn.attr in self.foreign:
                        return None
                    if not isinstance(v, FuncInfo):
                        if any(fn.attr in self.body(z) for z in c.mro()):
                            return None
                        if v is None and not any(fn.attr in self.own.get(z, ()) for z in c.mro()):
                            continue    # an attribute check reports it
                        return None
                    out.append((v, v.kind == "classm" or v.kind == "method" and x[0] == "inst", v.qual))
            return out
        return None

    def ctor(self, c):
        if c.has_external_base() or any(isinstance(b, str) and b.split(".")[-1] == "NamedTuple" for s in c.mro() for b in s.bases) or any(s.node.decorator_list for s in c.mro()) or c.lookup("__new__")[0] is not None or c.node.keywords:
            return [(None, True, c.name)]
        v, _ = c.lookup("__init__")
        if v is None:
            return [(ast.parse("def __init__(self): pass").body[0], True, c.name)]
        return [(v, True, c.name)]

    def ext_source(self, dotted):
        """text of the installed library a dotted name comes from"""
        top = dotted.split(".")[0]
        if top not in self._ext:
            txt = None
            for base in sorted(glob.glob("/opt/venv/lib/python3*/site-packages") + glob.glob("/opt/venv/lib64/python3*/site-packages")):
                p = os.path.join(base, top)
                if os.path.isdir(p):
                    out = []
                    for dd, dn, fs in os.walk(p):
                        dn[:] = [x for x in dn if x not in ("tests", "__pycache__")]
                        if any(x.endswith((".so", ".pyd")) for x in fs) and top != "numpy":
                            out = None
                            break
                        for x in fs:
                            if x.endswith((".py", ".pyi")):
                                with open(os.path.join(dd, x), encoding="utf-8", errors="ignore") as fh:
                                    out.append(fh.read())
                    txt = set(re.findall(r"[A-Za-z_]\w*", "\n".join(out))) if out is not None else None
                    break
            self._ext[top] = txt
        return self._ext[top]

    EXT = ("numpy", "wulffpack")

    def function(self, f):
        """-> [(kind, line, message)]"""
        out = []
        seen = []
        stack = [(f.node, [])]
        # attributes and calls: nested functions share the enclosing analysis for names they do not bind
        for x in walk_scope(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                t = self.type(x.value, f)
                if t:
                    seen.append(x)
                    if all(q[0] in ("inst", "cls") and not self.has_attr(q[1], x.attr, q[0] == "cls" or q[2]) for q in t):
                        out.append(("attribute", x.lineno, "%s has no attribute %s" % ("/".join(sorted({q[1].name for q in t})), x.attr)))
                    for q in t:
                        if q[0] in ("ext", "extinst") and q[1].split(".")[0] in self.EXT:
                            w = self.ext_source(q[1])
                            if w is not None and x.attr not in w and x.attr not in OBJ and len(t) == 1:
                                out.append(("attribute", x.lineno, "%s has no attribute %s" % (q[1], x.attr)))
                r = self.p._dotted(f.module, x.value) if not isinstance(x.value, ast.Call) else None
                if r and r[0] == "module" and not self.shadowed(x.value, f):
                    if not self.defines(r[1], x.attr):
                        out.append(("attribute", x.lineno, "module %s has no attribute %s" % (r[1].name, x.attr)))
            elif isinstance(x, ast.Call):
                w = self.value_called(x, f)
                if w:
                    out.append(("call", x.lineno, w))
                ts = self.targets(x, f)
                if ts:
                    seen.append(x)
                    why = [self.mismatch(g, x, b) if g is not None else None for g, b, _ in ts]
                    if all(why):
                        out.append(("call", x.lineno, "call of %s: %s" % (ts[0][2], why[0])))
            elif isinstance(x, ast.ImportFrom):
                mod = self.p._absmod(f.module, x.level, x.module)
                out += self.imports(mod, x)
        out += self.names(f)
        return out, len(seen)

    def plain(self, e, f):
        """an expression that cannot be a callable"""
        if isinstance(e, ast.Call):
            r = self.p._dotted(f.module, e.func) if not self.shadowed(e.func, f) else None
            return bool(r) and r[0] == "ext" and r[1].startswith("numpy.") and r[1].split(".")[-1] in (
                "sqrt", "array", "sum", "abs", "min", "max", "dot", "cos", "sin", "mean", "eye", "zeros", "ones", "linspace", "floor", "ceil", "round")
        return isinstance(e, (ast.BinOp, ast.Compare, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.JoinedStr, ast.ListComp)) or \
            isinstance(e, ast.Constant) and e.value is not None or isinstance(e, ast.UnaryOp)

    def value_called(self, x, f):
        """a property whose getter only returns plain values is called like a method"""
        if not isinstance(x.func, ast.Attribute):
            return None
        t = self.type(x.func.value, f)
        if not t or any(q[0] != "inst" for q in t):
            return None
        gs = []
        for q in t:
            for c in (self.subs.get(q[1], {q[1]}) if q[2] else {q[1]}):
                v, _ = c.lookup(x.func.attr)
                if not isinstance(v, PropInfo) or v.getter is None:
                    return None
                gs.append(v.getter)
        for g in gs:
            rs = [y.value for y in walk_scope(g.node) if isinstance(y, ast.Return)]
            if not rs or not all(self.plain(r, g) for r in rs if r is not None):
                return None
        return "property %s returns a plain value and is called" % x.func.attr if gs else None

    def imports(self, mod, x):
        out = []
        M = self.p.modules.get(mod)
        if M is None:
            d = os.path.join(self.p.root, *mod.split(".")) if mod else ""
            if mod and mod.split(".")[0] == self.p.package and not os.path.isdir(d) and not glob.glob(glob.escape(d) + ".*"):
                out.append(("import", x.lineno, "no module %s" % mod))
            return out
        for a in x.names:
            if a.name == "*":
                continue
            if not self.defines(M, a.name):
                out.append(("import", x.lineno, "module %s defines no %s" % (mod, a.name)))
        return out

    def is_open(self, M, seen=()):
        """names of a module that its own statements do not settle: outside star imports, a computed __all__, __getattr__"""
        if M.name in self._open:
            return self._open[M.name]
        if M.name in seen:
            return False
        r = "__getattr__" in M.symbols
        for x in ast.walk(M.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("globals", "locals", "vars", "exec", "setattr"):
                r = True
            if isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names):
                S = self.p.modules.get(self.p._absmod(M, x.level, x.module))
                if S is None or self.is_open(S, seen + (M.name,)) or self.computed_all(S):
                    r = True
        if not seen:
            self._open[M.name] = r
        return r

    @staticmethod
    def computed_all(M):
        n = 0
        for x in ast.walk(M.tree):
            if isinstance(x, ast.Name) and x.id == "__all__":
                n += 1
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in x.targets):
                if not (isinstance(x.value, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in x.value.elts)):
                    return True
        return n > 1

    def defines(self, M, name):
        """whether a module may have an attribute of that name"""
        q = self.p.resolve(M, name)
        if q is not None and q[0] != "missing":
            return True
        if name in BUILT or name in OBJ or self.is_open(M) or M.name + "." + name in self.p.modules:
            return True
        if q is not None and q[0] == "missing":
            s = M.symbols[name]
            while s[0] == "from" and s[1] in self.p.modules and s[2] in self.p.modules[s[1]].symbols:
                s = self.p.modules[s[1]].symbols[s[2]]
            return s[0] != "from" or s[1] not in self.p.modules or s[1] == M.name or self.defines(self.p.modules[s[1]], s[2])
        if M.name not in self._names:
            self._names[M.name] = stores(M.tree)
            for x in ast.walk(M.tree):
                if isinstance(x, ast.Global):
                    self._names[M.name] |= set(x.names)
        if name in self._names[M.name]:
            return True
        d = os.path.join(self.p.root, os.path.dirname(M.path)) if M.is_pkg else None
        return d is not None and (os.path.isdir(os.path.join(d, name)) or any(
            x.split(".")[0] == name and not x.endswith((".py", ".pyc")) for x in os.listdir(d)))

    def shadowed(self, e, f):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and (e.id in params(f.node) or e.id in self.locals_of(f))

    # ---- names ----------------------------------------------------------------
    def names(self, f):
        m = f.module
        out = []
        mod = set(m.symbols) | stores(m.tree)
        open_star = self.is_open(m)
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Global):
                mod |= set(s.names)

        def classbody(c, env):
            for z in walk_scope(ast.Module(body=c.body, type_ignores=[])):
                if isinstance(z, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    scope(z, env)
                elif isinstance(z, ast.ClassDef):
                    classbody(z, env)

        def scope(fn, env):
            loc = set(params(fn)) | (stores(fn) if not isinstance(fn, ast.Lambda) else {z.id for z in ast.walk(fn.body) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store)})
            gl = {n for s in walk_scope(fn) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
            loc -= gl
            inner = env | loc
            body = ast.Module(body=fn.body if isinstance(fn.body, list) else [ast.Expr(value=fn.body)], type_ignores=[])
            for y in walk_scope(body):
                if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    scope(y, inner)
                elif isinstance(y, ast.ClassDef):
                    classbody(y, inner)
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                    if y.id not in inner and y.id not in mod and y.id not in BUILT and not open_star:
                        if not self.in_annotation(fn, y):
                            out.append(("name", y.lineno, "name %s is not defined" % y.id))
        scope(f.node, {"__class__"})
        out += self.unassigned(f.node)
        return out

    @staticmethod
    def in_annotation(fn, y):
        if isinstance(fn, ast.Lambda):
            return False
        ann = [a.annotation for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs + [z for z in (fn.args.vararg, fn.args.kwarg) if z] if a.annotation is not None]
        if fn.returns is not None:
            ann.append(fn.returns)
        ann += [z.annotation for z in walk_scope(fn) if isinstance(z, ast.AnnAssign)]
        return any(y is z for a in ann for z in ast.walk(a))

    def unassigned(self, fn):
        """reads of locals that no path has assigned"""
        loc = bound(fn) - {n for s in walk_scope(fn) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
        out = []

        def reads(e, have, hidden=frozenset()):
            if e is None:
                return
            if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                return
            if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                h = set(hidden)
                for g in e.generators:
                    reads(g.iter, have, frozenset(h))
                    h |= {z.id for z in ast.walk(g.target) if isinstance(z, ast.Name)}
                    for c in g.ifs:
                        reads(c, have, frozenset(h))
                for c in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    reads(c, have, frozenset(h))
                return
            if isinstance(e, ast.NamedExpr):
                reads(e.value, have, hidden)
                have.add(e.target.id)
                return
            if isinstance(e, ast.Name):
                if isinstance(e.ctx, ast.Load) and e.id in loc and e.id not in have and e.id not in hidden:
                    out.append(("unassigned", e.lineno, "local %s is read before it is assigned" % e.id))
                return
            for c in ast.iter_child_nodes(e):
                reads(c, have, hidden)

        def bind(t, have):
            if isinstance(t, ast.Name):
                have.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for z in t.elts:
                    bind(z, have)
            elif isinstance(t, ast.Starred):
                bind(t.value, have)
            else:
                reads(t, have)

        def block(ss, have):
            """-> names possibly assigned at the end, or None when the end is not reached"""
            for s in ss:
                if have is None:
                    return None
                have = stmt(s, have)
            return have

        def join(*hs):
            hs = [h for h in hs if h is not None]
            return set().union(*hs) if hs else None

        def stmt(s, have):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                for q in s.decorator_list:
                    reads(q, have)
                have.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    have.add((a.asname or a.name).split(".")[0])
            elif isinstance(s, ast.Assign):
                reads(s.value, have)
                for t in s.targets:
                    bind(t, have)
            elif isinstance(s, ast.AugAssign):
                reads(s.value, have)
                if isinstance(s.target, ast.Name):
                    reads(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), have)
                else:
                    reads(s.target, have)
                bind(s.target, have)
            elif isinstance(s, ast.AnnAssign):
                reads(s.value, have)
                if s.value is not None:
                    bind(s.target, have)
            elif isinstance(s, ast.If):
                reads(s.test, have)
                return join(block(s.body, set(have)), block(s.orelse, set(have)))
            elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
                if isinstance(s, ast.While):
                    pre = set(have) | {n for z in s.body for n in stores(ast.Module(body=[z], type_ignores=[]))}
                    reads(s.test, pre)
                else:
                    reads(s.iter, have)
                    pre = set(have) | {n for z in s.body for n in stores(ast.Module(body=[z], type_ignores=[]))}
                    bind(s.target, pre)
                block(s.body, set(pre))
                block(s.orelse, set(pre))
                return pre | {n for z in s.orelse for n in stores(ast.Module(body=[z], type_ignores=[]))}
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    reads(i.context_expr, have)
                    if i.optional_vars is not None:
                        bind(i.optional_vars, have)
                return block(s.body, have)
            elif isinstance(s, ast.Try):
                h0 = set(have)
                len_out = len(out)
                a = block(s.body, set(have))
                if any(y.id in ("NameError", "UnboundLocalError") for h in s.handlers if h.type is not None for y in ast.walk(h.type) if isinstance(y, ast.Name)):
                    a = set(have)
                    del out[len_out:]
                    a = a | {n for z in s.body for n in stores(ast.Module(body=[z], type_ignores=[]))}
                part = h0 | {n for z in s.body for n in stores(ast.Module(body=[z], type_ignores=[]))}
                hs = []
                for h in s.handlers:
                    q = set(part)
                    if h.name:
                        q.add(h.name)
                    hs.append(block(h.body, q))
                if a is not None:
                    a = block(s.orelse, a)
                r = join(a, *hs)
                if s.finalbody:
                    fin = block(s.finalbody, set(part) | (r or set()))
                    r = None if r is None or fin is None else r | fin
                return r
            elif isinstance(s, ast.Delete):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        have.discard(t.id)
                    else:
                        reads(t, have)
            elif isinstance(s, (ast.Return, ast.Raise)):
                for c in ast.iter_child_nodes(s):
                    reads(c, have)
                return None
            elif isinstance(s, (ast.Break, ast.Continue)):
                return None
            elif isinstance(s, ast.Match):
                reads(s.subject, have)
                hs = [set(have)]
                for c in s.cases:
                    q = set(have) | stores(ast.Module(body=[ast.Expr(value=ast.Constant(value=0))], type_ignores=[])) | \
                        {z.name for z in ast.walk(c.pattern) if isinstance(z, (ast.MatchAs, ast.MatchStar)) and z.name}
                    reads(c.guard, q)
                    hs.append(block(c.body, q))
                return join(*hs)
            else:
                for c in ast.iter_child_nodes(s):
                    reads(c, have)
            return have
        if isinstance(fn, ast.Lambda):
            return out
        block(fn.body, set(params(fn)))
        return out

    def module(self, m):
        out = []
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                out += self.imports(self.p._absmod(m, x.level, x.module), x)
        return out
