"""Whole-program model: parses every module of the package and resolves names,
imports (including star imports), classes, base classes, methods and properties.

Nothing here (or anywhere in /verif/sa) imports or executes the analysed code.
"""
import ast
import hashlib
import os


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished, or the sources cannot be parsed."""


class FuncInfo:
    __slots__ = ("node", "module", "cls", "name", "kind", "decorators", "qual")

    def __init__(self, node, module, cls=None, kind="function"):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.kind = kind
        self.qual = (cls.name + "." if cls else "") + self.name

    def __repr__(self):
        return "<%s:%s>" % (self.module.name, self.qual)


class PropInfo:
    __slots__ = ("getter", "setter", "name", "cached")

    def __init__(self, name, getter=None, setter=None, cached=False):
        self.name, self.getter, self.setter, self.cached = name, getter, setter, cached


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.members = {}      # name -> FuncInfo | PropInfo | ast expr
        self.bases = []        # ClassInfo or dotted str
        self._mro = None

    def __repr__(self):
        return "<class %s>" % self.name

    def mro(self):
        if self._mro is None:
            seqs = [b.mro() for b in self.bases if isinstance(b, ClassInfo)]
            seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
            out = [self]
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def lookup(self, name, after=None):
        chain = self.mro()
        if after is not None:
            chain = chain[chain.index(after) + 1:] if after in chain else []
        for c in chain:
            if name in c.members:
                return c.members[name], c
        return None, None

    def issub(self, other):
        return other in self.mro()

    def has_external_base(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, str) and b.split(".")[-1] not in (
                        "ABC", "object", "Protocol", "Generic", "NamedTuple"):
                    return True
        return False


class ModuleInfo:
    def __init__(self, name, path, src, is_pkg):
        self.name = name
        self.path = path
        self.src = src
        self.is_pkg = is_pkg
        self.tree = ast.parse(src, path)
        self.symbols = {}      # name -> ("func",FuncInfo)|("class",ClassInfo)|("ext",dotted)|("mod",name)|("expr",ast)
        self.imports = []      # (internal module, names or '*')
        self.globals_cache = {}

    def relpath(self):
        return self.path


class Program:
    def __init__(self, root="/repo", package="czone", overlay=None):
        self.root = root
        self.package = package
        self.modules = {}
        self.overlay = overlay or {}
        pk = os.path.join(root, package)
        if not os.path.isdir(pk):
            raise AnalysisBroken("package directory %s is missing" % pk)
        files = []
        for d, dn, fn in os.walk(pk):
            dn[:] = sorted(x for x in dn if x != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    files.append(os.path.join(d, f))
        self.digest = hashlib.sha256()
        for f in files:
            rel = os.path.relpath(f, root)
            with open(f, encoding="utf-8") as fh:
                src = fh.read()
            self.digest.update(src.encode())
            parts = rel[:-3].split(os.sep)
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            name = ".".join(parts)
            try:
                self.modules[name] = ModuleInfo(name, rel, src, is_pkg)
                self.modules[name].program = self
            except SyntaxError as e:
                raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
        for m in self.modules.values():
            self._collect(m)
        for _ in range(6):
            self._resolve_stars()
        for m in self.modules.values():
            self._resolve_bases(m)
        for m in self.modules.values():
            for s in list(m.symbols.values()):
                if s[0] == "class":
                    self._members(s[1])

    # -- collection -------------------------------------------------------
    def _absmod(self, m, level, target):
        if level == 0:
            return target
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)] if level > 1 else parts
        return ".".join(parts + ([target] if target else []))

    def _collect(self, m):
        def visit(stmts, cond=False):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if cond and s.name in m.symbols:
                        m.symbols[s.name] = ("opaque", s.name)    # which definition holds depends on a condition
                    elif isinstance(s, ast.ClassDef):
                        m.symbols[s.name] = ("class", ClassInfo(s, m))
                    else:
                        m.symbols[s.name] = ("func", FuncInfo(s, m))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.symbols[a.asname] = ("mod", a.name)
                        else:
                            m.symbols[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    mod = self._absmod(m, s.level, s.module)
                    for a in s.names:
                        if a.name == "*":
                            m.imports.append((mod, "*"))
                        else:
                            m.symbols[a.asname or a.name] = ("from", mod, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.symbols[t.id] = ("expr", s.value)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    m.symbols[e.id] = ("opaque", e.id)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                    m.symbols[s.target.id] = ("expr", s.value)
                elif isinstance(s, ast.Try):
                    visit(s.body, cond)
                    for h in s.handlers:
                        visit(h.body, True)
                    visit(s.orelse, cond)
                    visit(s.finalbody, cond)
                elif isinstance(s, ast.If):
                    visit(s.body, cond)
                    visit(s.orelse, True)
                elif isinstance(s, ast.With):
                    visit(s.body, cond)
        visit(m.tree.body)

    def _resolve_stars(self):
        for m in self.modules.values():
            for mod, _ in m.imports:
                src = self.modules.get(mod)
                if src is None:
                    continue
                allv = src.symbols.get("__all__")
                allowed = None
                if allv and allv[0] == "expr" and isinstance(allv[1], (ast.List, ast.Tuple)):
                    allowed = {e.value for e in allv[1].elts if isinstance(e, ast.Constant)}
                for k, v in src.symbols.items():
                    if allowed is not None and k not in allowed:
                        continue
                    if allowed is None and k.startswith("_"):
                        continue
                    if k not in m.symbols:
                        m.symbols[k] = ("from", mod, k)

    def resolve(self, m, name, seen=None):
        """-> ("func",FuncInfo) | ("class",ClassInfo) | ("ext",dotted) | ("expr",ast,module) | None"""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        s = m.symbols.get(name)
        if s is None:
            sub = self.modules.get(m.name + "." + name) if m.is_pkg else None
            if sub is not None:
                return ("module", sub)
            return None
        if s[0] in ("func", "class"):
            return s
        if s[0] == "mod":
            if s[1] in self.modules:
                return ("module", self.modules[s[1]])
            return ("ext", s[1])
        if s[0] == "from":
            mod = self.modules.get(s[1])
            if mod is not None:
                r = self.resolve(mod, s[2], seen)
                if r is not None:
                    return r
                sub = self.modules.get(s[1] + "." + s[2])
                if sub is not None:
                    return ("module", sub)
                return ("missing", s[1] + "." + s[2])
            return ("ext", s[1] + "." + s[2])
        if s[0] == "expr":
            return ("expr", s[1], m)
        if s[0] == "opaque":
            return ("opaque", name)
        return None

    def _dotted(self, m, node):
        if isinstance(node, ast.Name):
            r = self.resolve(m, node.id)
            return r
        if isinstance(node, ast.Attribute):
            b = self._dotted(m, node.value)
            if b and b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
            if b and b[0] == "module":
                return self.resolve(b[1], node.attr)
            if b and b[0] == "class":
                return ("member", b[1], node.attr)
        return None

    def _resolve_bases(self, m):
        for s in m.symbols.values():
            if s[0] == "class" and s[1].module is m:
                c = s[1]
                c.bases = []
                for b in c.node.bases:
                    r = self._dotted(m, b)
                    if r and r[0] == "class":
                        c.bases.append(r[1])
                    elif r and r[0] == "ext":
                        c.bases.append(r[1])
                    else:
                        c.bases.append(ast.unparse(b))

    def _members(self, c):
        if c.members:
            return
        for b in c.bases:
            if isinstance(b, ClassInfo):
                self._members(b)
        m = c.module

        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    kind, prop, cached = "method", None, False
                    for d in s.decorator_list:
                        tx = ast.unparse(d)
                        if tx in ("property", "builtins.property", "abc.abstractproperty",
                                  "abstractproperty"):
                            prop = "getter"
                        elif tx.split(".")[-1] == "cached_property":
                            prop, cached = "getter", True
                        elif isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                            prop = (d.attr, d.value)
                        elif tx == "staticmethod":
                            kind = "static"
                        elif tx == "classmethod":
                            kind = "classm"
                    f = FuncInfo(s, m, c, kind)
                    if prop == "getter":
                        c.members[s.name] = PropInfo(s.name, getter=f, cached=cached)
                    elif prop:
                        which, val = prop
                        old = None
                        if isinstance(val, ast.Name):
                            old = c.members.get(val.id)
                        else:
                            r = self._dotted(m, val)
                            if r and r[0] == "member":
                                old, _ = r[1].lookup(r[2])
                        p = PropInfo(s.name)
                        if isinstance(old, PropInfo):
                            p.getter, p.setter, p.cached = old.getter, old.setter, old.cached
                        if which == "setter":
                            p.setter = f
                        elif which == "getter":
                            p.getter = f
                        c.members[s.name] = p
                    else:
                        c.members[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            v = s.value
                            # x = property(fget, fset)
                            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                                    and v.func.id == "property":
                                a = [x.id if isinstance(x, ast.Name) else None for x in v.args]
                                kw = {k.arg: k.value.id for k in v.keywords
                                      if isinstance(k.value, ast.Name)}
                                fg = a[0] if a else kw.get("fget")
                                fs = a[1] if len(a) > 1 else kw.get("fset")
                                c.members[t.id] = PropInfo(t.id, c.members.get(fg), c.members.get(fs))
                            elif isinstance(v, ast.Name) and v.id in c.members:
                                c.members[t.id] = c.members[v.id]
                            else:
                                c.members[t.id] = v
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value:
                    c.members[s.target.id] = s.value
                elif isinstance(s, ast.If):
                    visit(s.body)
                    visit(s.orelse)
        visit(c.node.body)

    # -- lookups used by the checks ---------------------------------------
    def cls(self, name):
        for m in self.modules.values():
            s = m.symbols.get(name)
            if s and s[0] == "class" and s[1].module is m:
                return s[1]
        raise AnalysisBroken("class %s is no longer defined in the package" % name)

    def func(self, name):
        for m in self.modules.values():
            s = m.symbols.get(name)
            if s and s[0] == "func" and s[1].module is m:
                return s[1]
        raise AnalysisBroken("function %s is no longer defined in the package" % name)

    def classes(self):
        out = []
        for m in self.modules.values():
            for s in m.symbols.values():
                if s[0] == "class" and s[1].module is m:
                    out.append(s[1])
        return out

    def functions(self):
        """every function and method definition of the package (nested excluded)"""
        out = []
        for m in self.modules.values():
            for s in m.symbols.values():
                if s[0] == "func" and s[1].module is m:
                    out.append(s[1])
                elif s[0] == "class" and s[1].module is m:
                    seen = set()
                    for v in s[1].members.values():
                        fs = [v] if isinstance(v, FuncInfo) else \
                            [v.getter, v.setter] if isinstance(v, PropInfo) else []
                        for f in fs:
                            if f is not None and f.cls is s[1] and id(f) not in seen:
                                seen.add(id(f))
                                out.append(f)
        return out
