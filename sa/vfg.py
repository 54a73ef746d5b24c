"""Gated-SSA value-flow analysis of the package's syntax trees.

A flow-sensitive, context-sensitive (call-inlining, bounded) abstract
interpretation.  Every expression is mapped to a hash-consed *value node*; at
control-flow joins values are merged with gated phi nodes (no path is forked
or enumerated), loops are summarised by fold / map nodes over a generic
iteration, object state is an abstract heap.  No constraint solver and no
execution of the analysed code is involved: conditions stay syntactic and are
only folded when they are constants or known branch facts.
"""
import ast
from fractions import Fraction

from .program import AnalysisBroken, ClassInfo, FuncInfo, ModuleInfo, PropInfo

# --------------------------------------------------------------------------
# Nodes
# --------------------------------------------------------------------------


class Node:
    __slots__ = ("op", "args", "nid", "_fv")
    _tab = {}
    _ctr = [0]

    def __repr__(self):
        return show(self, 4)

    def __lt__(self, other):
        return self.nid < other.nid


def _key(a):
    if isinstance(a, Node):
        return ("n", a.nid)
    if isinstance(a, tuple):
        return ("t",) + tuple(_key(x) for x in a)
    if isinstance(a, (bool, int, float, str, type(None), complex, bytes)):
        return (type(a).__name__, repr(a))
    return ("o", id(a))


def N(op, *args):
    k = (op,) + tuple(_key(a) for a in args)
    n = Node._tab.get(k)
    if n is None:
        n = Node()
        n.op, n.args = op, args
        Node._ctr[0] += 1
        n.nid = Node._ctr[0]
        n._fv = None
        Node._tab[k] = n
    return n


def K(v):
    return N("k", v)


NONE, TRUE, FALSE = K(None), K(True), K(False)
UNBOUND = N("unbound")


PARENT = {"QhullError": "RuntimeError", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError", "KeyError": "LookupError", "IndexError": "LookupError",
          "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError", "LinAlgError": "ValueError",
          "UnicodeError": "ValueError", "AxisError": "ValueError", "ModuleNotFoundError": "ImportError", "FileNotFoundError": "OSError", "UnboundLocalError": "NameError"}


def ancestors(exc):
    """a built-in exception and the classes it derives from"""
    out = [exc]
    while out[-1] in PARENT:
        out.append(PARENT[out[-1]])
    return out


def is_k(n, *vals):
    return n.op == "k" and (not vals or any(type(n.args[0]) is type(v) and n.args[0] == v for v in vals))


def kids(n):
    for a in n.args:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            yield from _tk(a)


def _tk(t):
    for a in t:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            yield from _tk(a)


def walk(n, seen=None):
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x.nid in seen:
            continue
        seen.add(x.nid)
        yield x
        st.extend(kids(x))


def contains(n, target):
    if isinstance(target, Node):
        return any(x is target for x in walk(n))
    return any(x in target for x in walk(n))


def subst(n, mp, memo=None):
    """capture-free substitution of nodes"""
    memo = {} if memo is None else memo

    def go(x):
        if x in mp:
            return mp[x]
        r = memo.get(x.nid)
        if r is not None:
            return r
        na = tuple(ga(a) for a in x.args)
        r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
        memo[x.nid] = r
        return r

    def ga(a):
        if isinstance(a, Node):
            return go(a)
        if isinstance(a, tuple):
            t = tuple(ga(y) for y in a)
            return a if all(p is q for p, q in zip(t, a)) else t
        return a
    return go(n)


def rebuild(op, args):
    if op == "phi":
        return phi(*args)
    if op == "not":
        return lnot(args[0])
    if op == "and":
        return land(*args)
    if op == "or":
        return lor(*args)
    if op == "idx":
        return idx(*args)
    return N(op, *args)


def show(n, depth=6):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ", ".join(show(x, depth) for x in n) + ")"
        return getattr(n, "name", None) or repr(n)
    if depth <= 0:
        return "…"
    o, a = n.op, n.args
    d = depth - 1
    if o == "k":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "ext":
        return a[0].replace("numpy", "np")
    if o == "attr":
        return show(a[0], d) + "." + a[1]
    if o == "call":
        return show(a[0], d) + "(" + ", ".join([show(x, d) for x in a[1]] + [k + "=" + show(v, d) for k, v in a[2]]) + ")"
    if o == "mc":
        return show(a[0], d) + "." + a[1] + "(" + ", ".join([show(x, d) for x in a[2]] + [k + "=" + show(v, d) for k, v in a[3]]) + ")"
    if o == "bin":
        return "(" + show(a[1], d) + " " + a[0] + " " + show(a[2], d) + ")"
    if o == "cmp":
        return "(" + show(a[1], d) + " " + a[0] + " " + show(a[2], d) + ")"
    if o == "idx":
        return show(a[0], d) + "[" + show(a[1], d) + "]"
    if o == "phi":
        return "(" + show(a[1], d) + " if " + show(a[0], d) + " else " + show(a[2], d) + ")"
    if o == "lv":
        return "i%d" % (n.nid % 1000)
    if o == "mu":
        return "mu%d" % (n.nid % 1000)
    if o == "obj":
        return "<%s#%s>" % (getattr(a[1], "name", a[1]), n.nid)
    return o + "(" + ", ".join(show(x, d) for x in a) + ")"


# -- boolean constructors --------------------------------------------------

def lnot(a):
    if a.op == "k":
        try:
            return K(not a.args[0])
        except Exception:
            pass
    if a.op == "not":
        return a.args[0]
    if a.op == "cmp":
        inv = {"is": "is not", "is not": "is", "==": "!=", "!=": "==", "in": "not in",
               "not in": "in"}
        if a.args[0] in inv:
            return N("cmp", inv[a.args[0]], a.args[1], a.args[2])
    return N("not", a)


def land(*xs):
    out = []
    for x in xs:
        if x.op == "k":
            if not x.args[0]:
                return FALSE
            continue
        for y in (x.args if x.op == "and" else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if lnot(y) in out:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else N("and", *out)


def lor(*xs):
    out = []
    for x in xs:
        if x.op == "k":
            if x.args[0]:
                return TRUE
            continue
        for y in (x.args if x.op == "or" else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if lnot(y) in out:
            return TRUE
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else N("or", *out)


def phi(c, a, b):
    if c.op == "k":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if c.op == "cmp" and c.args[0] in ("is not", "!=", "not in"):
        return phi(lnot(c), b, a)
    if is_k(a, True) and is_k(b, False):
        return c
    if is_k(a, False) and is_k(b, True):
        return lnot(c)
    # absorb nested phis on the same condition
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return N("phi", c, a, b)


def idx(b, i):
    if b.op in ("tup", "listc") and i.op == "k" and isinstance(i.args[0], int) \
            and not isinstance(i.args[0], bool):
        its = b.args
        if -len(its) <= i.args[0] < len(its):
            return its[i.args[0]]
    if b.op in ("tup", "listc") and i.op == "slice" and all(is_k(x) for x in i.args):
        try:
            return N(b.op, *b.args[slice(*[x.args[0] for x in i.args])])
        except Exception:
            pass
    if b.op == "phi" and b.args[1].op in ("tup", "listc") and b.args[2].op in ("tup", "listc") and i.op == "k":
        return phi(b.args[0], idx(b.args[1], i), idx(b.args[2], i))
    if b.op == "map" and is_k(b.args[3], True):
        lv, it, el = b.args[0], b.args[1], b.args[2]
        if i.op == "lv" or (i.op == "k" and isinstance(i.args[0], int)):
            return subst(el, {lv: i})
    return N("idx", b, i)


# --------------------------------------------------------------------------
# Types of symbolic values
# --------------------------------------------------------------------------
# ty: None | ("inst",cls) | ("opq",cls) | ("arr",shape) | "num" | "int" | "float" | "bool"
#     | "str" | "fn" | ("list",elemty) | ("ext",dotted)

def SYM(name, ty=None):
    return N("sym", name, ty)


def LISTC(*items):
    return N("listc", *items)


class FuncVal:
    """a user function value: FuncInfo (+ closure environment)"""

    def __init__(self, info, env=None, cls=None):
        self.info, self.env, self.cls = info, env, cls
        self.name = info.qual


class State:
    __slots__ = ("env", "heap", "facts", "path")

    def __init__(self, env=None, heap=None, facts=None, path=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.path = path

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.path)


class Frame:
    def __init__(self, func, module, cls=None, selfn=None):
        self.func, self.module, self.cls, self.selfn = func, module, cls, selfn
        self.returns = []      # (State, value)
        self.loops = []        # dict(cont=[], brk=[])
        self.globals = set()


RNGS = {"numpy.random.default_rng", "numpy.random.RandomState", "random.Random"}
DRAWS = {"random", "uniform", "integers", "normal", "choice", "permutation", "standard_normal", "shuffle", "random_sample", "exponential", "poisson",
         "randint", "rand", "randn", "binomial", "permuted", "bytes", "beta", "gamma", "triangular", "vonmises", "sample", "randrange", "choices"}


class Event:
    __slots__ = ("kind", "data", "path", "loc", "ctx", "caught", "stack")

    def __init__(self, kind, data, path, loc, ctx, caught=False, stack=()):
        self.kind, self.data, self.path, self.loc, self.ctx = kind, data, path, loc, ctx
        self.caught, self.stack = caught, stack

    def __repr__(self):
        return "Event(%s %s @%s)" % (self.kind, self.data, self.loc)


class Bailout(Exception):
    """the analysis exceeded its inlining / size bounds: result undecided"""


BUILTINS = {"len", "range", "enumerate", "zip", "sorted", "list", "tuple", "set", "dict", "isinstance",
            "issubclass", "hasattr", "getattr", "setattr", "any", "all", "sum", "min", "max", "map", "filter", "reversed",
            "abs", "int", "float", "bool", "str", "print", "super", "type", "round", "iter", "next", "callable",
            "object", "repr", "frozenset", "divmod", "pow", "id", "vars", "slice", "complex", "bytes", "hash",
            "property", "staticmethod", "classmethod", "open", "format", "ord", "chr", "globals", "locals", "delattr", "dir", "input",
            "NotImplemented", "Ellipsis", "__name__", "__file__", "__debug__", "memoryview", "bytearray", "exec", "eval", "compile",
            "hex", "oct", "bin", "ascii", "breakpoint", "help", "__import__", "exit", "quit"}
EXCEPTIONS = {x for x in dir(__builtins__ if not isinstance(__builtins__, dict) else object)
              if x.endswith(("Error", "Exception", "Warning", "Exit", "Interrupt", "Iteration"))} | {
    "ValueError", "TypeError", "AssertionError", "IndexError", "KeyError", "AttributeError", "RuntimeError",
    "NotImplementedError", "Exception", "BaseException", "StopIteration", "ZeroDivisionError", "ArithmeticError",
    "OSError", "IOError", "ImportError", "ModuleNotFoundError", "NameError", "UnboundLocalError", "LookupError",
    "OverflowError", "FloatingPointError", "RecursionError", "UserWarning", "RuntimeWarning", "DeprecationWarning",
    "FutureWarning", "Warning", "MemoryError", "KeyboardInterrupt", "SystemExit", "FileNotFoundError", "EOFError",
    "UnicodeError", "PermissionError", "FileExistsError", "TimeoutError", "StopAsyncIteration", "GeneratorExit",
    "SyntaxWarning", "PendingDeprecationWarning", "ResourceWarning", "BufferError", "ConnectionError"}

LIST_METHODS = {"append", "extend", "insert", "sort", "reverse", "pop", "remove", "clear", "copy", "index", "count"}
DICT_METHODS = {"get", "items", "keys", "values", "update", "setdefault", "pop", "copy", "clear"}
MAXUNROLL = 40


def sure_key(k):
    """two such keys are equal exactly when they are the same node"""
    return k.op in ("k", "cls", "ext", "func", "lambda") or k.op == "tup" and all(sure_key(x) for x in k.args)


def dict_seq(c, xs):
    """the sequence xs (one item for each entry of c): as long as c only when its keys are distinct"""
    if len(c.args) < 2 or sum(not sure_key(k) for k, v in c.args) == 0:
        return LISTC(*xs)
    return N("distinct", N("tup", *[k for k, v in c.args]), LISTC(*xs))


def dict_of(items):
    out = {}
    for k, v in items:
        out[id(k)] = (k, v)
    return N("dictc", *out.values())


class Engine:
    def __init__(self, program, max_depth=28, max_steps=400000):
        self.p = program
        self.events = []
        self.max_depth = max_depth
        self.steps = 0
        self.max_steps = max_steps
        self.stack = []          # FuncInfo being inlined
        self.ctx = ()            # call/unroll context for allocation identity
        self.frames = []
        self.loopinfo = {}       # lv -> dict(iter, mus={mu:(init,next)}, brk)
        self.lctx = []           # active generic loops
        self.analysed = {}       # qual -> set of call sites  (evidence)
        self.opaque_funcs = set()  # FuncInfo to leave opaque
        self.loc = None
        self.ahooks = {}         # attribute name -> fn(engine, obj, st): attribute of an opaque object
        self.storage = False       # follow which arrays share storage
        self.nstored = 0
        self.excworld = None       # whether calls fail in ways not modelled (None: either)
        self.mhooks = {}         # method name -> fn(engine, obj, pos, kw, st, e): effect of a method of an opaque object
        self.ihooks = {}         # package function -> fn(engine, pos, kw, st, e)
        self.fhooks = {}         # external function -> fn(engine, pos, kw, st, e)
        self.oracle = None       # constant folding of conditions and lengths by an evaluator

    # ---- events ----------------------------------------------------------
    def emit(self, kind, st, data, node=None):
        fr = self.frames[-1] if self.frames else None
        if node is not None and fr is not None:
            loc = "%s:%d %s" % (fr.module.path, getattr(node, "lineno", 0),
                                fr.func.qual if fr.func else "<module>")
        else:
            loc = self.loc
        self.events.append(Event(kind, data, st.path, loc, tuple(self.lctx), bool(getattr(self, "tries", None)),
                                 tuple(f.func.qual for f in self.frames if f.func)))

    # ---- types -----------------------------------------------------------
    def type_of(self, n, st=None):
        o = n.op
        if o == "k":
            v = n.args[0]
            return {bool: "bool", int: "int", float: "float", str: "str", type(None): "none"}.get(type(v))
        if o == "sym":
            return n.args[1]
        if o == "obj":
            return ("inst", n.args[1]) if isinstance(n.args[1], ClassInfo) else n.args[1]
        if o == "tup":
            return "tuple"
        if o in ("listc", "map", "app", "cat", "sorted"):
            return "list"
        if o == "copy":
            return self.type_of(n.args[0])
        if o == "phi":
            a, b = self.type_of(n.args[1]), self.type_of(n.args[2])
            return a if a == b else None
        if o == "idx":
            b = n.args[0]
            if n.args[1].op != "slice":
                e = self.elem_type(b)
                if e is not None:
                    return e
            t = self.type_of(b)
            if isinstance(t, tuple) and t[0] == "arr":
                return ("arr", None)
            return None
        if o in ("func", "bm", "lmeth"):
            return "fn"
        if o == "cls":
            return "type"
        if o == "call":
            f = n.args[0]
            if f.op == "ext":
                nm = f.args[0]
                if nm.startswith("numpy.") and nm.split(".")[-1] in (
                        "array", "zeros", "ones", "eye", "copy", "asarray", "empty", "arange", "full", "stack", "vstack",
                        "hstack", "concatenate", "append", "logical_and", "logical_or", "logical_not", "zeros_like",
                        "ones_like", "expand_dims", "reshape", "squeeze", "cross", "identity", "dstack", "clip",
                        "delete", "diag", "linspace", "where", "maximum", "minimum", "inv", "floor", "ceil", "round",
                        "fix", "rint", "abs", "sqrt", "atleast_2d", "atleast_1d"):
                    return ("arr", None)
                if nm in ("builtins.len", "builtins.int", "numpy.searchsorted", "numpy.count_nonzero", "numpy.argmin", "numpy.argmax") \
                        and (nm.startswith("builtins.") or not dict(n.args[2]).get("axis") and len(n.args[1]) < 3
                             and (nm != "numpy.searchsorted" or self.type_of(n.args[1][-1]) in ("int", "float", "num"))):
                    return "int"
                if nm in ("builtins.float",):
                    return "float"
                if nm in ("builtins.str", "builtins.repr"):
                    return "str"
                if nm in ("builtins.range", "builtins.enumerate", "builtins.zip"):
                    return nm
                return ("ext", nm + "()")
        if o == "bin":
            a, b = self.type_of(n.args[1]), self.type_of(n.args[2])
            for t in (a, b):
                if isinstance(t, tuple) and t[0] == "arr":
                    return ("arr", None)
            if a == b and a in ("int", "float", "str", "list"):
                return a
            if a in ("int", "float", "num") and b in ("int", "float", "num"):
                return "num"
            return None
        if o == "un":
            return self.type_of(n.args[1])
        if o == "store":
            return self.type_of(n.args[0])
        if o in ("cmp", "not", "and", "or", "isinst"):
            return "bool" if o in ("not", "isinst") else None
        if o in ("mu",):
            return self.type_of(n.args[2])
        if o == "fold":
            a, b = self.type_of(n.args[4]), self.type_of(n.args[3])
            return a if a == b else None
        if o == "mc" and n.args[1] in ("copy", "astype", "reshape", "ravel", "squeeze", "flatten", "transpose"):
            t = self.type_of(n.args[0])
            return t if isinstance(t, tuple) and t[0] == "arr" else None
        if o == "attr" and n.args[1] == "T":
            t = self.type_of(n.args[0])
            return t if isinstance(t, tuple) and t[0] == "arr" else None
        return None

    def elem_type(self, coll):
        o = coll.op
        if o == "sym":
            t = coll.args[1]
            if isinstance(t, tuple) and t[0] == "list":
                return t[1]
            return None
        if o in ("listc", "tup"):
            ts = {repr(self.type_of(x)): self.type_of(x) for x in coll.args}
            return list(ts.values())[0] if len(ts) == 1 else None
        if o in ("sorted", "copy", "rev"):
            return self.elem_type(coll.args[0])
        if o == "map":
            return self.type_of(coll.args[2])
        if o == "app":
            a, b = self.elem_type(coll.args[0]), self.type_of(coll.args[1])
            return b if a is None or a == b else None
        if o == "phi":
            a, b = self.elem_type(coll.args[1]), self.elem_type(coll.args[2])
            return a if a == b else None
        if o == "idx" and coll.args[1].op == "slice":
            return self.elem_type(coll.args[0])
        return None

    def known_class(self, n):
        """class of an object value, if it is known exactly or by bound"""
        t = self.type_of(n)
        if isinstance(t, tuple) and t[0] in ("inst", "opq"):
            return t
        return None

    # ---- shapes ----------------------------------------------------------
    def shape_of(self, n):
        o = n.op
        if o == "sym":
            t = n.args[1]
            if isinstance(t, tuple) and t[0] == "arr":
                return t[1]
            return None
        if o == "copy":
            return self.shape_of(n.args[0])
        if o == "phi":
            a, b = self.shape_of(n.args[1]), self.shape_of(n.args[2])
            return a if a == b else None
        if o in ("tup", "listc"):
            inner = [self.shape_of(x) for x in n.args]
            inner = [() if (s is None and self.type_of(x) in ("int", "float", "num", "bool")) else s for s, x in zip(inner, n.args)]
            if inner and all(s == inner[0] for s in inner) and inner[0] is not None:
                return (len(n.args),) + inner[0]
            return None
        if o == "call" and n.args[0].op == "ext":
            f = n.args[0].args[0]
            a = n.args[1]
            if f in ("numpy.array", "numpy.copy", "numpy.asarray", "numpy.abs", "numpy.sign", "numpy.floor",
                     "numpy.ceil", "numpy.logical_not", "numpy.round", "numpy.fix", "numpy.asfarray",
                     "numpy.ascontiguousarray", "numpy.zeros_like", "numpy.ones_like", "numpy.rint", "numpy.sqrt") and a:
                return self.shape_of(a[0])
            if f == "numpy.random.rand" and all(is_k(x) for x in a):
                return tuple(x.args[0] for x in a)
            if f in ("numpy.random.random", "numpy.random.standard_normal") and len(a) == 1 and a[0].op in ("tup", "listc"):
                return self._reshape(a)
            if f in ("numpy.random.normal", "numpy.random.uniform") and len(a) == 3 and a[2].op in ("tup", "listc"):
                return self._reshape(a[2:])
            if f in ("numpy.eye", "numpy.identity") and a and is_k(a[0]):
                return (a[0].args[0], a[0].args[0])
            if f == "numpy.arange" and a and all(x.op == "k" and isinstance(x.args[0], int) for x in a):
                return (len(range(*[x.args[0] for x in a])),)
            if f in ("numpy.zeros", "numpy.ones", "numpy.empty") and a:
                s = a[0]
                if s.op == "k" and isinstance(s.args[0], int):
                    return (s.args[0],)
                if s.op in ("tup", "listc"):
                    return tuple(x.args[0] if x.op == "k" else x for x in s.args)
                return None
            if f == "numpy.squeeze" and len(a) == 1:
                s = self.shape_of(a[0])
                if s is not None and all(isinstance(x, int) for x in s):
                    return tuple(x for x in s if x != 1)
                return None
            if f == "numpy.reshape" and len(a) == 2:
                return self._reshape(a[1:], self.shape_of(a[0]))
            if f == "numpy.linalg.inv" and a:
                return self.shape_of(a[0])
            if f == "numpy.expand_dims" and a:
                s = self.shape_of(a[0])
                ax = a[1] if len(a) > 1 else dict(n.args[2]).get("axis")
                if s is not None and ax is not None and is_k(ax) and isinstance(ax.args[0], int):
                    i = ax.args[0]
                    i = i if i >= 0 else len(s) + 1 + i
                    return s[:i] + (1,) + s[i:]
                return None
            if f == "numpy.cross" and len(a) == 2:
                x, y = self.shape_of(a[0]), self.shape_of(a[1])
                if x is None or y is None or len(x) == len(y):
                    return x
                return x if len(x) > len(y) else y
            return None
        if o == "attr" and n.args[1] == "T":
            s = self.shape_of(n.args[0])
            return tuple(reversed(s)) if s is not None else None
        if o == "mc":
            if n.args[1] in ("copy", "astype", "round"):
                return self.shape_of(n.args[0])
            if n.args[1] == "reshape":
                return self._reshape(n.args[2], self.shape_of(n.args[0]))
            if n.args[1] in ("ravel", "flatten"):
                s = self.shape_of(n.args[0])
                if s is not None and all(isinstance(x, int) for x in s):
                    t = 1
                    for x in s:
                        t *= x
                    return (t,)
            if n.args[1] in ("sum", "mean", "prod", "min", "max", "std", "any", "all"):
                s, kw = self.shape_of(n.args[0]), dict(n.args[3])
                ax = n.args[2][0] if n.args[2] else kw.get("axis")
                if s is not None and ax is not None and is_k(ax) and type(ax.args[0]) is int and -len(s) <= ax.args[0] < len(s) and not set(kw) - {"axis"}:
                    return tuple(x for i, x in enumerate(s) if i != ax.args[0] % len(s))
                return None
            if n.args[1] == "squeeze" and not n.args[2]:
                s = self.shape_of(n.args[0])
                if s is not None and all(isinstance(x, int) for x in s):
                    return tuple(x for x in s if x != 1)
            return None
        if o == "bin":
            op, x, y = n.args
            a, b = self.shape_of(x), self.shape_of(y)
            ta, tb = self.type_of(x), self.type_of(y)
            if op == "@":
                if a is None or b is None:
                    return None
                if len(a) == 2 and len(b) == 2:
                    return (a[0], b[1])
                if len(a) == 2 and len(b) == 1:
                    return (a[0],)
                if len(a) == 1 and len(b) == 2:
                    return (b[1],)
                return ()
            if a is None and ta in ("int", "float", "num"):
                a = ()
            if b is None and tb in ("int", "float", "num"):
                b = ()
            if a is None or b is None:
                return None
            if len(a) < len(b):
                a, b = b, a
            if len(b) == len(a):
                return tuple(p if p != 1 else q for p, q in zip(a, b))
            return a
        if o == "un":
            return self.shape_of(n.args[1])
        if o == "store":
            return self.shape_of(n.args[0])
        if o == "idx":
            s = self.shape_of(n.args[0])
            i = n.args[1]
            if s is None:
                return None
            parts = i.args if i.op == "tup" else (i,)
            out, k = [], 0
            for q in parts:
                if is_k(q, None):
                    out.append(1)
                    continue
                if q.op == "ellipsis":
                    return None
                if k >= len(s):
                    return None
                if q.op == "slice":
                    if all(is_k(z, None) for z in q.args):
                        out.append(s[k])
                    elif isinstance(s[k], int) and all(is_k(z) for z in q.args):
                        out.append(len(range(*slice(*[z.args[0] for z in q.args]).indices(s[k]))))
                    else:
                        out.append(q)
                    k += 1
                elif (q.op == "k" and isinstance(q.args[0], int)) or q.op == "lv" or \
                        (self.type_of(q) == "int" and self.shape_of(q) in (None, ())):
                    k += 1
                elif q.op in ("listc",) and q.args and all(is_k(z) and type(z.args[0]) is int for z in q.args) and \
                        sum(z.op not in ("slice", "k") for z in parts) == 1:
                    out.append(len(q.args))
                    k += 1
                else:
                    return None
            return tuple(out) + tuple(s[k:])
        return None

    @staticmethod
    def _reshape(a, src=None):
        if len(a) == 1:
            s = a[0]
            if s.op in ("tup", "listc"):
                a = s.args
        if all(x.op == "k" and isinstance(x.args[0], int) for x in a):
            t = tuple(x.args[0] for x in a)
            if -1 in t:
                if src is None:
                    return None
                u = 1
                if all(isinstance(x, int) for x in src):
                    for x in src:
                        u *= x
                    for x in t:
                        u = u if x == -1 else u // max(x, 1)
                    return tuple(x if x != -1 else u for x in t)
                kn = [x for x in t if x != -1]
                un = [x for x in src if not isinstance(x, int)]
                # (n, 3) to (-1, 3): the leading dimension is kept
                if len(un) == 1 and sorted(kn) == sorted(x for x in src if isinstance(x, int) and x != 1 or x == 1 and 1 in kn):
                    return tuple(x if x != -1 else un[0] for x in t)
                return None
            return t
        return None

    # ---- truth and facts -------------------------------------------------
    def truth(self, n, st):
        """node -> condition node, folded with branch facts"""
        f = st.facts
        if n in f:
            return K(f[n])
        o = n.op
        if o == "k":
            try:
                return K(bool(n.args[0]))
            except Exception:
                return n
        if o in ("func", "bm", "cls", "ext"):
            return TRUE
        if o == "obj":
            if isinstance(n.args[1], ClassInfo):
                m, _ = n.args[1].lookup("__len__")
                b, _ = n.args[1].lookup("__bool__")
                return TRUE if m is None and b is None else n
            c = st.heap.get((n, "#c"))
            if c is not None:
                return self.nonempty(c)
            return n
        if o in ("tup", "listc"):
            return K(len(n.args) > 0)
        if o == "not":
            return lnot(self.truth(n.args[0], st))
        if o == "and":
            return land(*[self.truth(x, st) for x in n.args])
        if o == "or":
            return lor(*[self.truth(x, st) for x in n.args])
        if o == "phi":
            c = self.truth(n.args[0], st)
            if c.op == "k":
                return self.truth(n.args[1 if c.args[0] else 2], st)
            a, b = self.truth(n.args[1], st), self.truth(n.args[2], st)
            if a is b:
                return a
            if is_k(a, True) and is_k(b, False):
                return c
            if is_k(a, False) and is_k(b, True):
                return lnot(c)
            if is_k(b, False):
                return land(c, a)
            if is_k(a, False):
                return land(lnot(c), b)
            if is_k(a, True):
                return lor(c, b)
            if is_k(b, True):
                return lor(lnot(c), a)
            return N("phi", c, a, b)
        if o == "cmp":
            m = lnot(n)
            if m.op == "cmp" and m in f:
                return K(not f[m])
            if self.oracle is not None:
                v = self.oracle.truth(n, st)
                if v is not None:
                    return K(v)
            return n
        t = self.type_of(n)
        if isinstance(t, tuple) and t[0] in ("inst", "opq"):
            m, _ = t[1].lookup("__len__")
            return TRUE if m is None else n
        if self.oracle is not None and o in ("call", "mc", "idx", "bin", "attr"):
            v = self.oracle.truth(n, st)
            if v is not None:
                return K(v)
        return n

    @staticmethod
    def nonempty(c):
        if c.op == "listc":
            return K(len(c.args) > 0)
        if c.op == "app" or c.op == "while" and is_k(c.args[0], True):
            return TRUE
        return N("nonempty", c)

    def add_fact(self, st, c, val):
        if c.op == "k":
            return
        if c.op == "not":
            return self.add_fact(st, c.args[0], not val)
        st.facts[c] = val
        n = lnot(c)
        if n.op != "not":
            st.facts[n] = not val
        if c.op == "and" and val:
            for x in c.args:
                self.add_fact(st, x, True)
        if c.op == "or" and not val:
            for x in c.args:
                self.add_fact(st, x, False)
        st.path = st.path + ((c, val),)

    def simp(self, n, st):
        """resolve phis under branch facts (shallow)"""
        k = 0
        while n.op == "phi" and k < 50:
            k += 1
            c = self.truth(n.args[0], st)
            if c.op == "k":
                n = n.args[1 if c.args[0] else 2]
            else:
                a, b = n.args[1], n.args[2]
                if a is UNBOUND or b is UNBOUND:
                    return n
                if a.op == "phi" or b.op == "phi":
                    st1 = State(st.env, st.heap, dict(st.facts), st.path)
                    self.add_fact(st1, c, True)
                    a2 = self.simp(a, st1)
                    st2 = State(st.env, st.heap, dict(st.facts), st.path)
                    self.add_fact(st2, c, False)
                    b2 = self.simp(b, st2)
                    return phi(c, a2, b2)
                return n
        return n

    # ---- state merging ---------------------------------------------------
    @staticmethod
    def cond_of(lits):
        return land(*[c if v else lnot(c) for c, v in lits]) if lits else TRUE

    def merge_states(self, alts, base_path):
        """alts: list of (State, value) alternatives, disjoint by path -> (State, value)"""
        if not alts:
            return None, None
        if len(alts) == 1:
            return alts[0]
        pl = len(base_path)
        # common prefix
        paths = [a[0].path for a in alts]
        k = pl
        while all(len(p) > k for p in paths) and all(p[k] == paths[0][k] for p in paths):
            k += 1
        acc_s, acc_v = alts[-1]
        acc = acc_s.copy()
        for s, v in reversed(alts[:-1]):
            c = self.cond_of(s.path[k:])
            acc = self._merge2(c, s, acc)
            acc_v = None if v is None or acc_v is None else phi(c, v, acc_v)
        acc.path = paths[0][:k]
        # facts common to all alternatives
        facts = dict(paths and alts[0][0].facts or {})
        for s, _ in alts[1:]:
            facts = {kk: vv for kk, vv in facts.items() if s.facts.get(kk, None) is vv}
        acc.facts = facts
        return acc, acc_v

    def _merge2(self, c, s1, s2):
        if c.op == "k":
            return (s1 if c.args[0] else s2).copy()
        out = State({}, {}, {}, s2.path)
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, UNBOUND), s2.env.get(k, UNBOUND)
            out.env[k] = a if a is b else phi(c, a, b)
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b:
                out.heap[k] = a
                continue
            if a is None or b is None:
                o = k[0]
                if k[1].startswith("#"):
                    out.heap[k] = a if a is not None else b
                    continue
                if o.op == "obj":
                    # allocated on one side only, or field first set on one side
                    alloc1 = (o, "#alive") in s1.heap
                    alloc2 = (o, "#alive") in s2.heap
                    if alloc1 and alloc2:
                        u = UNBOUND
                        out.heap[k] = phi(c, a if a is not None else u, b if b is not None else u)
                    else:
                        out.heap[k] = a if a is not None else b
                else:
                    init = N("attr", o, k[1])
                    out.heap[k] = phi(c, a if a is not None else init, b if b is not None else init)
                continue
            out.heap[k] = phi(c, a, b)
        return out

    # ---- running ---------------------------------------------------------
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Bailout("step bound exceeded")

    def run_driver(self, src, env, module=None, name="<driver>", heap=None):
        """analyse a synthetic caller of the public API; returns (value, State)"""
        tree = ast.parse(src)
        mod = ModuleInfo.__new__(ModuleInfo)
        mod.name, mod.path, mod.src, mod.is_pkg, mod.tree = "<driver>", "<driver>", src, False, tree
        mod.symbols, mod.imports, mod.globals_cache = {}, [], {}
        # every public name of the package is visible in drivers
        for m in self.p.modules.values():
            for k, s in m.symbols.items():
                if s[0] in ("func", "class") and s[1].module is m:
                    mod.symbols.setdefault(k, s)
        mod.symbols["np"] = ("mod", "numpy")
        fd = ast.FunctionDef(name="driver", args=ast.arguments([], [], None, [], [], None, []),
                             body=tree.body, decorator_list=[], lineno=0)
        fi = FuncInfo(fd, mod)
        st = State(dict(env))
        if heap:
            st.heap.update(heap)
        fr = Frame(fi, mod)
        self.frames.append(fr)
        try:
            s = self.exec_block(tree.body, st)
        finally:
            self.frames.pop()
        alts = list(fr.returns)
        if s is not None:
            alts.append((s, NONE))
        return_s, val = self.merge_states(alts, ())
        if return_s is not None:
            self.final = return_s
        return val, return_s

    # ---- statements ------------------------------------------------------
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st)
        return st

    def exec_stmt(self, s, st):
        self.tick()
        fr = self.frames[-1]
        self.loc = "%s:%d %s" % (fr.module.path, getattr(s, "lineno", 0), fr.func.qual if fr.func else "")
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.emit("unsupported", st, type(s).__name__, s)
            return st
        return m(s, st)

    def st_Pass(self, s, st):
        return st

    st_Global = st_Nonlocal = st_Import = st_Pass

    def st_Global(self, s, st):
        self.emit("global", st, tuple(s.names), s)
        return st

    def st_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = N("ext", a.name if a.asname else a.name.split(".")[0])
        return st

    def st_ImportFrom(self, s, st):
        m = self.frames[-1].module
        mod = self.p._absmod(m, s.level, s.module) if m.name != "<driver>" else s.module
        for a in s.names:
            im = self.p.modules.get(mod)
            nm = a.asname or a.name
            if im is not None:
                r = self.p.resolve(im, a.name)
                st.env[nm] = self.resolved(r, im, st) if r else N("ext", mod + "." + a.name)
            else:
                st.env[nm] = N("ext", mod + "." + a.name)
        return st

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        v = self.eval(s.value, st)
        if v is None:
            return None
        return st

    def st_Assign(self, s, st):
        v = self.eval(s.value, st)
        if v is None:
            return None
        for t in s.targets:
            self.assign(t, v, st)
        self.same_array(s, v, st)
        return st

    # ---- arrays with several names --------------------------------------------
    # env["@x"] says where else the array named x is kept; an update in place is written there as well
    MAKES = {"numpy." + x for x in ("ones", "zeros", "empty", "full", "repeat", "tile", "ones_like", "zeros_like", "full_like", "logical_and", "logical_or",
                                     "logical_not", "logical_xor", "isin", "vstack", "hstack", "concatenate", "append", "array", "copy", "arange",
                                     "isclose", "greater", "less", "less_equal", "greater_equal", "equal", "not_equal", "invert")}

    def updatable(self, v):
        """an array whose update in place is seen under its other names"""
        m = self.__dict__.setdefault("_upd", {})
        if v not in m:
            m[v] = False
            m[v] = self.is_array(v) or (
                v.args[0].args[0] in self.MAKES if v.op == "call" and v.args[0].op == "ext" else
                v.args[1] in ("astype", "reshape", "copy", "ravel", "flatten", "checkIfInterior") and (
                    self.updatable(v.args[0]) or v.args[1] == "checkIfInterior") if v.op == "mc" else
                any(isinstance(x, Node) and x.op not in ("k", "obj") and self.updatable(x) for x in v.args[1:]) if v.op in ("bin", "un", "cmp") else
                self.updatable(v.args[0]) if v.op in ("store", "copy") else False)
        return m[v]

    def same_array(self, s, v, st):
        names = [t.id for t in s.targets if isinstance(t, ast.Name)]
        src = s.value
        if not (names and (len(names) > 1 or isinstance(src, (ast.Name, ast.Attribute, ast.Subscript)))) and not (
                isinstance(src, ast.Name) and any(isinstance(t, ast.Attribute) for t in s.targets)):
            return
        if v.op in ("k", "obj", "tup", "func", "cls", "ext", "top") or not self.updatable(v):
            return
        for n in names[1:]:
            st.env["@" + n] = N("loc", "name", names[0])
        if isinstance(src, ast.Name):
            if names and src.id != names[0] and st.env.get(src.id) is v:
                st.env["@" + names[0]] = N("loc", "name", src.id)
            elif not names and "@" + src.id not in st.env and st.env.get(src.id) is v:
                for t in s.targets:
                    f = self.plain_field(t, st) if isinstance(t, ast.Attribute) else None
                    if f is not None and st.heap.get(f) is v:
                        st.env["@" + src.id] = N("loc", "field", *f)
        elif names and isinstance(src, ast.Attribute):
            f = self.plain_field(src, st)
            if f is not None and st.heap.get(f) is v:
                st.env["@" + names[0]] = N("loc", "field", *f)
        elif names and isinstance(src, ast.Subscript) and isinstance(src.value, (ast.Name, ast.Attribute)):
            b, i = self.quietly(src.value, st), self.quietly(src.slice, st)
            if b is not None and i is not None and b.op == "obj" and b.args[1] == "list":
                self.item_of(names[0], b, self.const_of(i, st), v, st)

    def item_of(self, name, lst, k, v, st):
        c = st.heap.get((lst, "#c"))
        if c is not None and c.op == "listc" and isinstance(k, int) and -len(c.args) <= k < len(c.args) and c.args[k] is v:
            st.env["@" + name] = N("loc", "item", lst, K(k % len(c.args)))

    def plain_field(self, t, st):
        """(object, field) of an attribute that is stored as it is given"""
        if not isinstance(t.value, ast.Name):
            return None
        o = st.env.get(t.value.id)
        if o is None or not isinstance(o.args[1] if o.op == "obj" else None, ClassInfo):
            return None
        m, _ = o.args[1].lookup(t.attr)
        if m is not None:
            return None
        return (o, self.mangle(t.attr))

    def quietly(self, e, st):
        n = len(self.events)
        v = self.eval(e, st.copy())
        del self.events[n:]
        return v

    def loop_sources(self, t, e, k, st):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords and isinstance(t, (ast.Tuple, ast.List)):
            if e.func.id == "zip" and len(e.args) == len(t.elts):
                for x, y in zip(t.elts, e.args):
                    self.loop_sources(x, y, k, st)
            elif e.func.id == "enumerate" and len(e.args) == 1 and len(t.elts) == 2:
                self.loop_sources(t.elts[1], e.args[0], k, st)
        elif isinstance(t, ast.Name) and isinstance(e, (ast.Name, ast.Attribute)):
            v = st.env.get(t.id)
            if v is not None and v.op not in ("k", "obj", "tup", "func", "cls", "ext", "top") and self.updatable(v):
                b = self.quietly(e, st)
                if b is not None and b.op == "obj" and b.args[1] == "list":
                    self.item_of(t.id, b, k, v, st)

    def updated(self, name, old, new, st, seen=()):
        """the array named so was changed in place"""
        l = st.env.get("@" + name)
        if l is not None and l.op == "loc":
            kind, a = l.args[0], l.args[1:]
            if kind == "name":
                if a[0] not in seen and st.env.get(a[0]) is old:
                    st.env[a[0]] = new
                    self.updated(a[0], old, new, st, seen + (name,))
            elif kind == "item":
                c = st.heap.get((a[0], "#c"))
                if c is not None and c.op == "listc" and a[1].args[0] < len(c.args) and c.args[a[1].args[0]] is old:
                    L = list(c.args)
                    L[a[1].args[0]] = new
                    st.heap[(a[0], "#c")] = N("listc", *L)
            elif kind == "field":
                if st.heap.get((a[0], a[1])) is old:
                    st.heap[(a[0], a[1])] = new
            elif kind == "param":
                st.heap[(l, "#v")] = new
        back = N("loc", "name", name)
        for n in [n for n, x in st.env.items() if n[:1] == "@" and x is back]:
            if n[1:] not in seen and st.env.get(n[1:]) is old:
                st.env[n[1:]] = new
                self.updated(n[1:], old, new, st, seen + (name,))

    def changed_params(self, fi):
        """parameters whose arrays a function may update in place"""
        c = self.__dict__.setdefault("_chg", {})
        if fi not in c:
            s = set()
            for x in ast.walk(fi.node):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    s.add(x.target.id)
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    s.add(x.value.id)
            c[fi] = s
        return c[fi]

    def hand_back(self, fi, e, pos, boxes, heap, st):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for p, box, old in boxes:
            new = heap.pop((box, "#v"), old)
            if new is old or not isinstance(e, ast.Call):
                continue
            x = None
            if p in names and not any(isinstance(y, ast.Starred) for y in e.args):
                i = names.index(p) - (len(pos) - len(e.args))
                if 0 <= i < len(e.args):
                    x = e.args[i]
            for q in e.keywords:
                if q.arg == p:
                    x = q.value
            if isinstance(x, ast.Name) and st.env.get(x.id) is old:
                st.env[x.id] = new
                self.updated(x.id, old, new, st)
            elif isinstance(x, ast.Attribute):
                f = self.plain_field(x, st)
                if f is not None and st.heap.get(f) is old:
                    st.heap[f] = new
            elif isinstance(x, ast.Subscript):
                b, i = self.quietly(x.value, st), self.quietly(x.slice, st)
                k = None if i is None else self.const_of(i, st)
                c = None if b is None else st.heap.get((b, "#c"))
                if c is not None and c.op == "listc" and isinstance(k, int) and -len(c.args) <= k < len(c.args) and c.args[k] is old:
                    L = list(c.args)
                    L[k] = new
                    st.heap[(b, "#c")] = N("listc", *L)

    def st_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.eval(s.value, st)
            if v is None:
                return None
            self.assign(s.target, v, st)
        return st

    def st_AugAssign(self, s, st):
        op = OPS[type(s.op)]
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        old = self.eval(load, st)
        v = self.eval(s.value, st)
        if old is None or v is None:
            return None
        ty = self.type_of(old)
        if old.op == "obj" and old.args[1] == "list" and op == "+":
            self.list_extend(old, v, st, s)
            return st
        new = self.binop(op, old, v, st)
        if ty not in ("int", "float", "num", "str", "bool", "tuple") and not (
                old.op == "obj" and old.args[1] == "list" and op != "*"):
            if isinstance(t, (ast.Name, ast.Attribute)):
                self.emit("mut", st, (old, "augmented assignment", new), s)
        self.assign(t, new, st, aug=True)
        return st

    def st_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        if v is None:
            return None
        self.emit("return", st, v, s)
        self.frames[-1].returns.append((st, v))
        return None

    def st_Raise(self, s, st):
        exc = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            exc = ast.unparse(e)
        self.emit("raise", st, exc, s)
        self._raised(st, exc)
        return None

    def _raised(self, st, exc):
        for h in reversed(getattr(self, "tries", [])):
            if h["frame"] is self.frames[-1] or h["depth"] <= len(self.frames):
                h["raised"].append((st.copy(), exc))
                return

    def st_Assert(self, s, st):
        c = self.truth(self.eval_cond(s.test, st), st)
        if is_k(c, False):
            self.emit("raise", st, "AssertionError", s)
            self._raised(st, "AssertionError")
            return None
        if c.op != "k":
            s2 = st.copy()
            self.add_fact(s2, c, False)
            self.emit("raise", s2, "AssertionError", s)
            self._raised(s2, "AssertionError")
            self.add_fact(st, c, True)
        return st

    def eval_cond(self, e, st):
        v = self.eval(e, st)
        return FALSE if v is None else v

    def st_If(self, s, st):
        v = self.eval(s.test, st)
        if v is None:
            return None
        c = self.truth(v, st)
        if c.op == "k":
            return self.exec_block(s.body if c.args[0] else s.orelse, st)
        base = st.path
        s1, s2 = st.copy(), st.copy()
        self.add_fact(s1, c, True)
        self.add_fact(s2, c, False)
        self.narrow(s1, c, True)
        self.narrow(s2, c, False)
        r1 = self.exec_block(s.body, s1)
        r2 = self.exec_block(s.orelse, s2)
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        out = self._merge2(c, r1, r2)
        # keep literals both branches added after the split (asserts) is not needed
        out.path = base
        out.facts = {k: v for k, v in r1.facts.items() if r2.facts.get(k, None) is v}
        return out

    def narrow(self, st, c, val):
        pass

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                i = self.eval(t.slice, st)
                if b is not None and b.op == "obj":
                    c = st.heap.get((b, "#c"))
                    if c is not None and c.op == "dictc" and i is not None:
                        st.heap[(b, "#c")] = N("dictc", *[kv for kv in c.args if kv[0] is not i])
                    else:
                        st.heap[(b, "#c")] = N("top", "del item")
                if b is not None:
                    self.emit("mut", st, (b, "del item", None), s)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                if b is not None:
                    self.emit("delattr", st, (b, t.attr), s)
                    st.heap[(b, self.mangle(t.attr))] = UNBOUND
        return st

    def st_With(self, s, st):
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if it.optional_vars is not None and v is not None:
                self.assign(it.optional_vars, N("attr", v, "__enter__"), st)
        return self.exec_block(s.body, st)

    def st_FunctionDef(self, s, st):
        fi = FuncInfo(s, self.frames[-1].module, self.frames[-1].cls, "nested")
        fi.qual = self.frames[-1].func.qual + "." + s.name if self.frames[-1].func else s.name
        fv = FuncVal(fi, st.env, self.frames[-1].cls)
        fv.frame = self.frames[-1]
        st.env[s.name] = N("func", fv)
        # the closure sees later bindings of this frame: keep a live view
        fv.env = st
        return st

    def st_ClassDef(self, s, st):
        st.env[s.name] = N("top", "local class " + s.name)
        return st

    def st_Break(self, s, st):
        self.frames[-1].loops[-1]["brk"].append(st)
        return None

    def st_Continue(self, s, st):
        self.frames[-1].loops[-1]["cont"].append(st)
        return None

    def st_Try(self, s, st):
        if not hasattr(self, "tries"):
            self.tries = []
        h = {"frame": self.frames[-1], "depth": len(self.frames), "raised": []}
        pre = st.copy()
        ev0 = len(self.events)
        self.tries.append(h)
        body = self.exec_block(s.body, st)
        self.tries.pop()
        if body is not None:
            body = self.exec_block(s.orelse, body)
        alts = []
        names = []
        for hd in s.handlers:
            if hd.type is None:
                names.append(None)
            elif isinstance(hd.type, ast.Tuple):
                names.append([ast.unparse(x).split(".")[-1] for x in hd.type.elts])
            else:
                names.append([ast.unparse(hd.type).split(".")[-1]])
        # explicit raises of the body, dispatched by type
        leftovers = []
        for rs, exc in h["raised"]:
            hit = None
            for i, nm in enumerate(names):
                if nm is None or "Exception" in nm or "BaseException" in nm or any(x in nm for x in ancestors((exc or "").split(".")[-1])):
                    hit = i
                    break
            if hit is None:
                leftovers.append((rs, exc))
            else:
                alts.append((hit, rs))
        for rs, exc in leftovers:
            self._raised(rs, exc)
        # implicit exceptions: an attribute of a value that may be None, or any opaque call
        imp = []
        for i, nm in enumerate(names):
            c = self._implicit_exc(s, nm, pre, ev0)
            if c is not None and not is_k(c, False):
                s2 = pre.copy()
                self.add_fact(s2, c, True)
                imp.append((i, s2, c))
        outs = []
        for i, rs in alts:
            rs.env = dict(rs.env) if rs.env is not None else {}
            if len(self.frames) and rs is not None:
                # state raised in a callee: variables of this frame are those before the try
                rs.env = dict(pre.env) if not set(pre.env) <= set(rs.env) else rs.env
            r = self._run_handler(s.handlers[i], rs)
            if r is not None:
                outs.append((r, NONE))
        for i, rs, c in imp:
            r = self._run_handler(s.handlers[i], rs)
            if body is not None and not is_k(c):
                self.add_fact(body, c, False)
            if is_k(c, True):
                body = None
            if r is not None:
                outs.append((r, NONE))
        if body is not None:
            outs.append((body, NONE))
        res, _ = self.merge_states(outs, pre.path) if outs else (None, None)
        if res is not None and s.finalbody:
            res = self.exec_block(s.finalbody, res)
        elif s.finalbody and res is None:
            self.exec_block(s.finalbody, pre.copy())
        return res

    st_TryStar = st_Try

    def _run_handler(self, hd, rs):
        if hd.name:
            rs.env[hd.name] = N("sym", "exc:" + hd.name, None)
        return self.exec_block(hd.body, rs)

    def known(self, v):
        return v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] in ("numpy.array", "numpy.asarray") and v.args[1] and v.args[1][0].op == "k" \
            and isinstance(v.args[1][0].args[0], (int, float))

    def total(self, n, pre):
        """an operation between arrays of known sizes, or the creation of one: raises only as modelled"""
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("np.array", "np.asarray", "numpy.array", "numpy.asarray", "len", "isinstance"):
            return True
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("int", "float", "str", "bool") and len(n.args) == 1 and not n.keywords:
            n = ast.BinOp(n.args[0], ast.Add(), n.args[0])      # raises only as modelled when the argument is a number
        if not isinstance(n, ast.BinOp):
            return False
        snap, steps = len(self.events), self.steps
        try:
            vs = [self.eval(x, pre.copy()) for x in (n.left, n.right)]
            return all(v is not None and (v.op == "k" or self.shape_of(v) is not None or self.type_of(v) in ("int", "float", "num") or self.known(v)) for v in vs)
        except Bailout:
            raise
        except Exception:
            return False
        finally:
            del self.events[snap:]

    TAME = {"array", "asarray", "abs", "absolute", "linalg.norm", "any", "all", "isclose", "allclose", "sum", "finfo", "sqrt", "eye", "zeros", "ones", "diag",
            "logical_and", "logical_or", "logical_not", "max", "min", "size", "shape", "ndim", "square", "sign", "isscalar", "array_equal", "copy", "issubdtype",
            "isfinite", "isnan", "count_nonzero", "squeeze", "ravel", "transpose", "atleast_1d"}
    TAME_M = {"copy", "any", "all", "sum", "max", "min", "ravel", "flatten", "transpose", "squeeze", "tolist", "item"}

    def tame(self, s, ev0):
        """did the body only use package code and library functions that cannot fail on the arrays they were given?"""
        def known(x):
            return x.op == "k" or self.shape_of(x) is not None or self.type_of(x) in ("int", "float", "num", "bool") or self.known(x) or x.op in ("obj", "cls") or (
                x.op == "cmp")
        for n in s.body:
            for x in ast.walk(n):
                if isinstance(x, (ast.Subscript, ast.ListComp, ast.GeneratorExp)) or isinstance(x, ast.Call) and not isinstance(x.func, (ast.Name, ast.Attribute)):
                    return False
        for ev in self.events[ev0:]:
            if ev.kind == "call" and isinstance(ev.data, Node) and ev.data.op == "call" and ev.data.args[0].op == "ext":
                f, a = ev.data.args[0].args[0], ev.data.args[1]
                g = f[6:] if f.startswith("numpy.") else f
                if g in ("dot", "matmul", "cross"):
                    sh = [self.shape_of(x) for x in a[:2]]
                    if len(sh) == 2 and all(t and all(isinstance(i, int) for i in t) for t in sh) and not ev.data.args[2]:
                        if g == "cross" and sh[0][-1] == sh[1][-1] == 3 or g != "cross" and sh[0][-1] == sh[1][-2 if len(sh[1]) > 1 else 0]:
                            continue
                    return False
                if f.startswith("builtins.") or g in self.TAME and all(known(x) for x in a[:1]):
                    continue
                return False
            elif ev.kind == "mcall":
                if ev.data.args[1] not in self.TAME_M or not known(ev.data.args[0]):
                    return False
            elif ev.kind not in ("call", "new", "setattr", "return", "raise", "mut"):
                return False
            elif ev.kind == "call":
                return False
        return True

    def _implicit_exc(self, s, nm, pre, ev0):
        """condition under which the try body raises an exception caught by names nm implicitly"""
        conds = []
        hascall = False
        if nm and "EXPLICIT" in nm:
            return FALSE
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    if nm is None or "AttributeError" in nm or "Exception" in nm:
                        # receiver known to be None-able?
                        snap, ev = len(self.events), self.steps
                        try:
                            tmp = pre.copy()
                            v = self.eval(n.value, tmp) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
                        except Bailout:
                            raise
                        except Exception:
                            v = None
                        del self.events[snap:]
                        if v is not None:
                            c = self.isnone(v)
                            if not is_k(c, False) and c.op != "cmp":
                                conds.append(c)
                            elif c.op == "k":
                                pass
                if isinstance(n, (ast.Call, ast.Subscript, ast.BinOp)) and not hascall:
                    hascall = not self.total(n, pre)
        if conds:
            return lor(*conds)
        if nm is not None and set(nm) <= {"AttributeError", "AssertionError"}:
            return FALSE
        if hascall and len(self.frames) == 1 and self.tame(s, ev0):
            return FALSE
        if hascall and self.excworld is not None:
            return K(self.excworld)
        if hascall:
            return N("exc", "%s:%d" % (self.frames[-1].module.path, s.lineno), tuple(nm or ("*",)))
        return FALSE

    def st_Match(self, s, st):
        subj = self.eval(s.subject, st)
        if subj is None:
            return None
        outs = []
        base = st.path
        cur = st
        for case in s.cases:
            if cur is None:
                break
            c = self.match_cond(case.pattern, subj, cur)
            if case.guard is not None and not is_k(c, False):
                t = cur.copy()
                self.match_bind(case.pattern, subj, t)
                g = self.truth(self.eval_cond(case.guard, t), t)
                c = land(c, g)
            c = self.truth(c, cur)
            if is_k(c, False):
                continue
            s1 = cur.copy()
            if c.op != "k":
                self.add_fact(s1, c, True)
            self.match_bind(case.pattern, subj, s1)
            r = self.exec_block(case.body, s1)
            if r is not None:
                outs.append((r, NONE))
            if is_k(c, True):
                cur = None
            else:
                self.add_fact(cur, c, False)
        if cur is not None:
            outs.append((cur, NONE))
        res, _ = self.merge_states(outs, base) if outs else (None, None)
        return res

    def match_cond(self, pt, subj, st):
        if isinstance(pt, ast.MatchValue):
            return self.compare("==", subj, self.eval(pt.value, st), st)
        if isinstance(pt, ast.MatchSingleton):
            return self.compare("is", subj, K(pt.value), st)
        if isinstance(pt, ast.MatchAs):
            return TRUE if pt.pattern is None else self.match_cond(pt.pattern, subj, st)
        if isinstance(pt, ast.MatchOr):
            return lor(*[self.match_cond(x, subj, st) for x in pt.patterns])
        if isinstance(pt, ast.MatchClass) and not pt.patterns and not pt.kwd_patterns:
            return self.isinstance_(subj, self.eval(pt.cls, st), st)
        if isinstance(pt, ast.MatchSequence):
            its = self.known_items(subj, st)
            if its is not None and not any(isinstance(p, ast.MatchStar) for p in pt.patterns):
                if len(its) != len(pt.patterns):
                    return FALSE
                return land(*[self.match_cond(p, x, st) for p, x in zip(pt.patterns, its)])
        return N("matches", subj, ast.unparse(pt))

    def match_bind(self, pt, subj, st):
        if isinstance(pt, ast.MatchAs):
            if pt.pattern is not None:
                self.match_bind(pt.pattern, subj, st)
            if pt.name:
                st.env[pt.name] = subj
        elif isinstance(pt, ast.MatchSequence):
            its = self.known_items(subj, st)
            if its is not None and len(its) == len(pt.patterns):
                for p, x in zip(pt.patterns, its):
                    self.match_bind(p, x, st)

    # ---- loops -----------------------------------------------------------
    def known_items(self, v, st):
        if v.op in ("tup", "listc"):
            return list(v.args)
        if v.op == "obj":
            c = st.heap.get((v, "#c"))
            if c is not None:
                if c.op == "listc":
                    return list(c.args)
                if c.op == "dictc" and v.args[1] == "dict" and dict_seq(c, ()).op == "listc":
                    return [kv[0] for kv in c.args]
                if v.args[1] in ("list", "set"):
                    return self.known_items(c, st) if c.op != "obj" else None
            return None
        if v.op == "k" and isinstance(v.args[0], str):
            return [K(x) for x in v.args[0]]
        if v.op == "call" and v.args[0].op == "ext":
            f, a = v.args[0].args[0], v.args[1]
            if f in ("builtins.range", "numpy.arange") and not v.args[2]:
                cs = [self.const_of(x, st) for x in a]
                if all(isinstance(x, int) for x in cs):
                    r = range(*cs)
                    return [K(i) for i in r] if len(r) <= MAXUNROLL else None
            if f == "builtins.enumerate":
                it = self.known_items(a[0], st)
                start = 0
                if len(a) > 1 and a[1].op == "k":
                    start = a[1].args[0]
                return None if it is None else [N("tup", K(i + start), x) for i, x in enumerate(it)]
            if f == "builtins.zip" and a:
                ks = [self.known_items(x, st) for x in a]
                if all(x is None for x in ks):
                    return None
                n = min(len(x) for x in ks if x is not None)
                cols = []
                for x, orig in zip(ks, a):
                    cols.append(x[:n] if x is not None else [idx(self.content(orig, st), K(i)) for i in range(n)])
                return [N("tup", *t) for t in zip(*cols)]
            if f == "builtins.reversed":
                it = self.known_items(a[0], st)
                return None if it is None else list(reversed(it))
            if f in ("builtins.sorted", "builtins.list", "builtins.tuple") and len(a) == 1 and f != "builtins.sorted":
                return self.known_items(a[0], st)
            if f == "numpy.arange" and all(x.op == "k" and isinstance(x.args[0], int) for x in a) and not v.args[2]:
                r = range(*[x.args[0] for x in a])
                return [K(i) for i in r] if len(r) <= MAXUNROLL else None
            if f in ("numpy.array", "numpy.asarray") and a and a[0].op in ("tup", "listc"):
                return list(a[0].args)
        if self.oracle is not None and v.op in ("call", "mc", "idx", "bin", "attr", "store", "sym"):
            n = self.oracle.rows(v, st)
            if n is not None and n <= 16:
                return [idx(v, K(i)) for i in range(n)]
        if self.oracle is not None and v.op in ("idx", "call", "setof"):
            n = self.oracle.ints(v, st)
            if n is not None and len(n) <= MAXUNROLL:
                return [K(i) for i in n]
        return None

    def content(self, v, st):
        """sequence content of a list-like value"""
        if v.op == "obj":
            c = st.heap.get((v, "#c"))
            return c if c is not None else v
        if v.op == "phi":
            return phi(v.args[0], self.content(v.args[1], st), self.content(v.args[2], st))
        if v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] in ("builtins.list", "builtins.tuple") \
                and len(v.args[1]) == 1:
            return self.content(v.args[1][0], st)
        return v

    def generic_elem(self, it, lv, st):
        """value of the iteration variable for the generic iteration lv of iterable it"""
        if it.op == "call" and it.args[0].op == "ext":
            f, a = it.args[0].args[0], it.args[1]
            if f == "builtins.range":
                return lv
            if f == "builtins.enumerate":
                i = lv
                if len(a) > 1 and not is_k(a[1], 0):
                    i = N("bin", "+", lv, a[1])
                return N("tup", i, self.generic_elem(self.content(a[0], st), lv, st))
            if f == "builtins.zip":
                return N("tup", *[self.generic_elem(self.content(x, st), lv, st) for x in a])
            if f == "builtins.reversed":
                return idx(N("rev", self.content(a[0], st)), lv)
            if f == "numpy.arange" and len(a) == 1:
                return lv
        if it.op == "mc" and it.args[1] == "items":
            return N("tup", N("idx", N("mc", it.args[0], "keys", (), ()), lv),
                     N("idx", N("mc", it.args[0], "values", (), ()), lv))
        if it.op == "map" and is_k(it.args[3], True):
            return subst(it.args[2], {it.args[0]: lv})
        return idx(it, lv)

    @staticmethod
    def iter_base(it):
        return it

    def st_For(self, s, st):
        it = self.eval(s.iter, st)
        if it is None:
            return None
        items = self.known_items(it, st)
        fr = self.frames[-1]
        if items is None and self.leaps is not None and it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] == "builtins.range" \
                and any(isinstance(x, ast.Break) for x in ast.walk(s)):
            cs = [self.const_of(x, st) for x in it.args[1]]
            if cs and all(isinstance(x, int) for x in cs):
                items = [K(i) for i in range(*cs)]
                items = items[:5] + items[-3:]
        if items is not None and len(items) <= MAXUNROLL:
            brk_alts = []
            ctx0 = self.ctx
            entry = st.path
            for k, x in enumerate(items):
                self.ctx = ctx0 + (("u", id(s), k),)
                fr.loops.append({"cont": [], "brk": []})
                self.assign(s.target, x, st)
                self.loop_sources(s.target, s.iter, k, st)
                r = self.exec_block(s.body, st)
                L = fr.loops.pop()
                alts = [(c, NONE) for c in L["cont"]]
                if r is not None:
                    alts.append((r, NONE))
                brk_alts.extend((b, NONE) for b in L["brk"])
                if not alts:
                    st = None
                    break
                st, _ = self.merge_states(alts, entry)
            self.ctx = ctx0
            if st is not None and s.orelse:
                st = self.exec_block(s.orelse, st)
            alts = brk_alts + ([(st, NONE)] if st is not None else [])
            if not alts:
                return None
            st, _ = self.merge_states(alts, entry)
            return st
        itc = self.content(it, st)
        return self.generic_loop(s, st, itc, s.target, None)

    st_AsyncFor = st_For

    leaps = None

    def leap(self, hist, st):
        """acceleration: counters that advance by a constant in every iteration are moved on to what they are many such iterations later"""
        cur = {k: v.args[0] for k, v in st.env.items() if getattr(v, "op", None) == "k" and type(v.args[0]) is int}
        hist.append(cur)
        if self.leaps is None or len(hist) < 3 or not self.leaps():
            return
        a, b = hist[-3], hist[-2]
        step = {k: cur[k] - b[k] for k in cur if k in b and k in a and cur[k] - b[k] == b[k] - a[k] != 0}
        for k, d in step.items():
            n = (self.far - abs(cur[k])) // abs(d) - 2
            if n > 0:
                st.env[k] = K(cur[k] + d * n)
        hist[:] = []

    def until_break(self, s, st):
        """while True: iterations as long as each definitely stays in or leaves the loop; None when that is not known"""
        fr = self.frames[-1]
        ctx0, ev0 = self.ctx, len(self.events)
        tries0 = [len(t["raised"]) for t in getattr(self, "tries", [])]
        st = st.copy()
        hist = []
        for k in range(MAXUNROLL):
            self.leap(hist, st)
            self.ctx = ctx0 + (("u", id(s), k),)
            entry = st.path
            fr.loops.append({"cont": [], "brk": []})
            nret = len(fr.returns)
            r = self.exec_block(s.body, st)
            L = fr.loops.pop()
            stay = L["cont"] + ([r] if r is not None else [])
            self.ctx = ctx0
            if len(fr.returns) != nret and (stay or L["brk"]):
                break
            if stay and L["brk"]:
                break
            if not stay:
                if not L["brk"]:
                    return (None,)
                return (self.merge_states([(b, NONE) for b in L["brk"]], entry)[0],)
            st, _ = self.merge_states([(c, NONE) for c in stay], entry)
        self.ctx = ctx0
        del self.events[ev0:]
        for t, n in zip(getattr(self, "tries", []), tries0):
            del t["raised"][n:]
        return None

    def st_While(self, s, st):
        fr = self.frames[-1]
        if isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and any(isinstance(x, ast.Break) for x in ast.walk(s)):
            n = len(fr.returns)
            r = self.until_break(s, st)
            if r is not None:
                return r[0]
            del fr.returns[n:]
        ctx0, entry, brk_alts = self.ctx, st.path, []
        hist = []
        for k in range(MAXUNROLL):
            if self.leaps is not None:
                self.leap(hist, st)
            snap = len(self.events)
            probe = st.copy()
            tries0 = [len(t["raised"]) for t in getattr(self, "tries", [])]
            v = self.eval(s.test, probe)
            del self.events[snap:]
            for t, n in zip(getattr(self, "tries", []), tries0):
                del t["raised"][n:]
            cond = self.truth(v, probe) if v is not None else None
            if cond is None or cond.op != "k" or (cond.args[0] and isinstance(s.test, ast.Constant)):
                st = self.generic_loop(s, st, None, None, s.test)
                break
            self.eval(s.test, st)
            if not cond.args[0]:
                if s.orelse:
                    st = self.exec_block(s.orelse, st)
                break
            self.ctx = ctx0 + (("u", id(s), k),)
            fr.loops.append({"cont": [], "brk": []})
            r = self.exec_block(s.body, st)
            L = fr.loops.pop()
            alts = [(c, NONE) for c in L["cont"]]
            if r is not None:
                alts.append((r, NONE))
            brk_alts.extend((b, NONE) for b in L["brk"])
            if not alts:
                st = None
                break
            st, _ = self.merge_states(alts, entry)
        else:
            raise Bailout("loop bound exceeded")
        self.ctx = ctx0
        alts = brk_alts + ([(st, NONE)] if st is not None else [])
        if not alts:
            return None
        if len(alts) == 1 and not brk_alts:
            return st
        st, _ = self.merge_states(alts, entry)
        return st

    def generic_loop(self, s, st, it, target, test):
        """what a loop updates in place reaches the array's other places when it ends"""
        plain = {t.id for x in ast.walk(s) for y in (x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.For, ast.AnnAssign)) else [])
                 for t in ast.walk(y) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
        held = {n: (st.env.pop(n), st.env.get(n[1:])) for n in [n for n, x in st.env.items() if n[:1] == "@" and x.op == "loc" and n[1:] not in plain]}
        out = self.one_loop(s, st, it, target, test)
        if out is not None:
            for n, (loc, old) in held.items():
                out.env[n] = loc
            for n, (loc, old) in held.items():
                new = out.env.get(n[1:])
                if new is not None and old is not None and new is not old:
                    self.updated(n[1:], old, new, out)
        return out

    def one_loop(self, s, st, it, target, test):
        fr = self.frames[-1]
        lv = N("lv", (id(s),) + self.ctx)
        ctx0 = self.ctx
        pre = st.copy()
        modified = set()
        mus = {}
        result = None
        for attempt in range(7):
            body = pre.copy()
            body.path = ()
            mus = {}
            for key in modified:
                init = body.env.get(key[1], UNBOUND) if key[0] == "e" else body.heap.get(key[1])
                if init is None:
                    o, f = key[1]
                    init = N("attr", o, f) if not f.startswith("#") else N("top", "uninit")
                mu = N("mu", lv, key[1] if key[0] == "e" else N("hk", key[1][0], key[1][1]), init)
                mus[key] = (mu, init)
                if key[0] == "e":
                    body.env[key[1]] = mu
                else:
                    body.heap[key[1]] = mu
            # facts about modified values are void inside the loop
            ev0, ret0 = len(self.events), len(fr.returns)
            start = body.copy()
            cond = None
            self.lctx.append((lv, it))
            fr.loops.append({"cont": [], "brk": []})
            tries0 = [len(t["raised"]) for t in getattr(self, "tries", [])]
            self.ctx = ctx0 + (("g", id(s)),)
            try:
                if test is not None:
                    v = self.eval(test, body)
                    cond = self.truth(v, body) if v is not None else FALSE
                    r = None
                    if not is_k(cond, False):
                        b2 = body
                        if cond.op != "k":
                            self.add_fact(b2, cond, True)
                        b2.path = ()
                        r = self.exec_block(s.body, b2)
                else:
                    e = self.generic_elem(it, lv, body)
                    self.assign(target, e, body)
                    r = self.exec_block(s.body, body)
            finally:
                self.ctx = ctx0
                L = fr.loops.pop()
                self.lctx.pop()
            alts = [(c, NONE) for c in L["cont"]]
            if r is not None:
                alts.append((r, NONE))
            brks = [(b, NONE) for b in L["brk"]]
            rets = fr.returns[ret0:]
            alive = alts + brks
            if alive:
                end, _ = self.merge_states(alive, ())
            else:
                end = None
            newmod = set(modified)
            if end is not None:
                for k2, v2 in end.env.items():
                    if k2 in pre.env and start.env.get(k2) is not v2:
                        newmod.add(("e", k2))
                    elif k2 not in pre.env and test is None:
                        pass
                for k2, v2 in end.heap.items():
                    if k2[1] == "#alive":
                        continue
                    if start.heap.get(k2) is not v2:
                        o = k2[0]
                        if o.op == "obj" and (o, "#alive") not in pre.heap:
                            continue   # object of this iteration
                        newmod.add(("h", k2))
            if newmod == modified or attempt == 6:
                result = (end, alts, brks, rets, cond, ev0, ret0)
                break
            modified = newmod
            del self.events[ev0:]
            del fr.returns[ret0:]
            for t, n0 in zip(getattr(self, "tries", []), tries0):
                del t["raised"][n0:]
        end, alts, brks, rets, cond, ev0, ret0 = result
        brk = FALSE
        if brks:
            brk = lor(*[self.cond_of(b[0].path) for b in brks])
        iternode = it if it is not None else N("while", cond)
        info = {"iter": iternode, "mus": {}, "brk": brk}
        self.loopinfo[lv] = info
        out = pre.copy()
        if end is not None:
            for key, (mu, init) in mus.items():
                nxt = end.env.get(key[1]) if key[0] == "e" else end.heap.get(key[1])
                if nxt is None:
                    nxt = mu
                nxt = self.own_iteration(nxt, end, pre, lv)
                info["mus"][mu] = (init, nxt)
                val = self.mkfold(lv, iternode, mu, nxt, init, brk)
                if key[0] == "e":
                    out.env[key[1]] = val
                else:
                    out.heap[key[1]] = val
            fin = end
            if test is not None and cond is not None and is_k(cond, True) and brks:
                fin, _ = self.merge_states(brks, ())     # such a loop is only ever left through its breaks
            for k2, v2 in fin.env.items():
                if k2 not in pre.env:
                    v3 = self.own_iteration(v2, fin, pre, lv)
                    if v2.op == "obj" and v2.args[1] in ("list", "set", "dict", "tuple") and (v2, "#alive") not in pre.heap:
                        v3 = self.frozen(v2, fin)
                        v3 = v3 if contains(v3, lv) else v2
                    out.env[k2] = phi(self.nonempty(iternode), N("last", lv, iternode, v3), UNBOUND)
            for k2, v2 in end.heap.items():
                if k2 not in out.heap and k2 not in [k[1] for k in modified if k[0] == "h"]:
                    out.heap[k2] = v2
        # returns from inside the loop
        if rets:
            del fr.returns[ret0:]
            cs = []
            for rs, rv in rets:
                c = self.cond_of(rs.path)
                ex = N("exists", lv, iternode, c)
                rr = out.copy()
                rr.facts = dict(pre.facts)
                rr.path = pre.path
                self.add_fact(rr, ex, True) if ex.op != "k" else None
                val = rv if not (contains(rv, lv) or any(x.op == "mu" and x.args[0] is lv for x in walk(rv))) \
                    else N("first", lv, iternode, c, rv)
                fr.returns.append((rr, val))
                cs.append(ex)
            out.path = pre.path
            for ex in cs:
                self.add_fact(out, ex, False)
        if end is None and not rets:
            # body never completes: loop either empty or raises
            c = N("nonempty", iternode)
            out.path = pre.path
            self.add_fact(out, c, False)
        if test is not None and cond is not None and is_k(cond, True) and not brks:
            return None
        if getattr(s, "orelse", None):
            out = self.exec_block(s.orelse, out)
        return out

    def own_iteration(self, nxt, end, pre, lv, top=False):
        """lists and dictionaries made by an iteration are known by their content only: each iteration has its own"""
        if nxt.op == "obj" and not top:
            return nxt
        new = {}
        for x in walk(nxt):
            if x.op == "obj" and x.args[1] in ("list", "set", "dict", "tuple") and (x, "#alive") not in pre.heap and (x, "#c") not in pre.heap:
                c = self.frozen(x, end)
                if c is not x and contains(c, lv):
                    new[x] = c
        return subst(nxt, new) if new else nxt

    def mkfold(self, lv, it, mu, nxt, init, brk):
        if nxt is mu:
            return init
        if is_k(brk, False) and not (it.op == "while"):
            # append-only list  ->  map
            def app(n):
                if n is mu:
                    return ()
                if n.op == "app" and n.args[0] is mu and not contains(n.args[1], mu):
                    return ((TRUE, n.args[1]),)
                if n.op == "phi":
                    a, b = app(n.args[1]), app(n.args[2])
                    if a is None or b is None:
                        return None
                    if not a and len(b) == 1:
                        return ((land(lnot(n.args[0]), b[0][0]), b[0][1]),)
                    if not b and len(a) == 1:
                        return ((land(n.args[0], a[0][0]), a[0][1]),)
                    if len(a) == 1 and len(b) == 1 and a[0][0] is b[0][0]:
                        return ((a[0][0], phi(n.args[0], a[0][1], b[0][1])),)
                return None
            r = app(nxt)
            if r is not None and len(r) == 1:
                m = N("map", lv, it, r[0][1], r[0][0])
                if init.op == "listc" and not init.args:
                    return m
                return N("cat", init, m)
        return N("fold", lv, it, mu, nxt, init, brk)

    # ---- assignment ------------------------------------------------------
    def mangle(self, name):
        fr = self.frames[-1]
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_" + fr.cls.name.lstrip("_") + name
        return name

    def assign(self, t, v, st, aug=False):
        if isinstance(t, ast.Name):
            old = st.env.get(t.id)
            st.env[t.id] = v
            if aug and old is not None and old.op not in ("k", "obj", "tup") and self.updatable(old):
                self.updated(t.id, old, v, st)
            elif not aug:
                st.env.pop("@" + t.id, None)
                back = N("loc", "name", t.id)
                for n in [n for n, x in st.env.items() if n[:1] == "@" and x is back]:
                    del st.env[n]
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            its = self.known_items(v, st)
            if its is not None and len(its) != len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                self.emit("bad_unpack", st, (len(its), len(t.elts)), t)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star and its is not None:
                i = star[0]
                m = len(t.elts) - i - 1
                parts = its[:i] + [LISTC(*its[i:len(its) - m])] + its[len(its) - m:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
                return
            for i, e in enumerate(t.elts):
                if its is not None and i < len(its):
                    x = its[i]
                else:
                    x = idx(self.content(v, st), K(i))
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
            return
        if isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            if b is not None:
                self.set_attr(b, t.attr, v, st, t)
            return
        if isinstance(t, ast.Subscript):
            self.store_sub(t, v, st, aug)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def store_sub(self, t, v, st, aug=False):
        b = self.eval(t.value, st)
        if b is None:
            return
        i = self.eval(t.slice, st)
        if i is None:
            return
        self.emit("mut", st, (b, "item assignment", v), t)
        if b.op == "obj" and b.args[1] in ("list", "dict", "set"):
            c = st.heap.get((b, "#c"), N("top", "?"))
            if c.op == "listc" and i.op not in ("k", "slice") and (v.op == "obj" or any(x.op == "obj" for x in c.args)):
                q = self.const_of(i, st)
                if isinstance(q, int) and not isinstance(q, bool):
                    i = K(q)
            if b.args[1] == "dict" and c.op == "dictc" and i.op in ("k", "tup", "cls", "ext"):
                rest = [(kk, vv) for kk, vv in c.args if kk is not i]
                same = [kk for kk, vv in c.args if kk is i]
                if same:
                    c2 = N("dictc", *[(kk, v if kk is i else vv) for kk, vv in c.args])
                else:
                    c2 = N("dictc", *(rest + [(i, v)]))
            elif c.op == "listc" and i.op == "k" and isinstance(i.args[0], int) and -len(c.args) <= i.args[0] < len(c.args):
                L = list(c.args)
                L[i.args[0]] = v
                c2 = N("listc", *L)
            elif i.op == "slice" and b.args[1] == "list":
                sl = [None if is_k(x, None) else self.const_of(x, st) if self.const_of(x, st) is not None else "?" for x in i.args]
                new = self.known_items(v, st)
                if c.op == "listc" and new is not None and all(x is None or isinstance(x, int) for x in sl):
                    L = list(c.args)
                    try:
                        L[slice(*sl)] = new
                    except ValueError:
                        self.emit("raise", st, "ValueError", t)
                        self._raised(st, "ValueError")
                    c2 = N("listc", *L)
                elif all(is_k(x, None) for x in i.args[:2]):
                    c2 = self.frozen(v, st)
                else:
                    c2 = N("store", c, i, v)
            else:
                c2 = N("store", c, i, v)
            st.heap[(b, "#c")] = c2
            return
        new = N("store", b, i, v)
        tv = t.value
        if isinstance(tv, ast.Name):
            st.env[tv.id] = new
            self.updated(tv.id, b, new, st)
        elif isinstance(tv, ast.Attribute):
            o = self.eval(tv.value, st)
            if o is not None:
                # a property returning the backing array: update the backing field in place
                hit = False
                for k in list(st.heap):
                    if k[0] is o and st.heap[k] is b:
                        st.heap[k] = new
                        hit = True
                if not hit:
                    st.heap[(o, self.mangle(tv.attr))] = new
        elif isinstance(tv, ast.Subscript):
            self.store_sub(ast.copy_location(ast.Subscript(value=tv.value, slice=tv.slice, ctx=ast.Store()), tv), new, st)

    # ---- expressions -----------------------------------------------------
    def eval(self, e, st):
        """-> Node, or None when evaluation never completes"""
        self.tick()
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            return N("top", type(e).__name__ + str(getattr(e, "lineno", "")))
        r = m(e, st)
        return r

    def ex_Constant(self, e, st):
        if e.value is Ellipsis:
            return N("ellipsis")
        return K(e.value)

    def ex_JoinedStr(self, e, st):
        return N("sym", "fstr", "str")

    def ex_FormattedValue(self, e, st):
        return N("sym", "fstr", "str")

    def ex_Name(self, e, st):
        return self.lookup_name(e.id, st, e)

    def lookup_name(self, name, st, e=None):
        if name in st.env:
            v = self.simp(st.env[name], st)
            if v is UNBOUND or (v.op == "phi" and UNBOUND in (v.args[1], v.args[2])):
                self.emit("unbound", st, (name, v), e)
                if v.op == "phi":
                    v = v.args[1] if v.args[2] is UNBOUND else v.args[2]
            return v
        fr = self.frames[-1]
        fv = getattr(fr, "closure", None)
        while fv is not None:
            env = fv.env.env if isinstance(fv.env, State) else (fv.env or {})
            if name in env:
                return self.simp(env[name], st)
            f2 = getattr(fv, "frame", None)
            fv = getattr(f2, "closure", None) if f2 is not None else None
        r = self.p.resolve(fr.module, name) if fr.module.name != "<driver>" else self._driver_resolve(fr.module, name)
        if r is not None:
            return self.resolved(r, fr.module, st)
        if name in BUILTINS or name in EXCEPTIONS:
            return N("ext", "builtins." + name)
        if name == "__class__" and fr.cls is not None:
            return N("cls", fr.cls)
        self.emit("undefined", st, name, e)
        return N("top", "undefined " + name)

    def _driver_resolve(self, m, name):
        s = m.symbols.get(name)
        if s is None:
            return None
        if s[0] in ("func", "class"):
            return s
        return ("ext", s[1])

    def resolved(self, r, module, st):
        if r[0] == "func":
            return N("func", self.fv(r[1]))
        if r[0] == "class":
            return N("cls", r[1])
        if r[0] == "ext":
            return N("ext", r[1])
        if r[0] == "module":
            return N("mod", r[1].name)
        if r[0] == "expr":
            m = r[2]
            key = id(r[1])
            if key not in m.globals_cache:
                m.globals_cache[key] = None
                fr = Frame(None, m)
                fr.func = FuncInfo(ast.FunctionDef(name="<module>"), m)
                self.frames.append(fr)
                try:
                    s2 = State()
                    v = self.eval(r[1], s2)
                    if v is not None and v.op == "obj":
                        m.globals_cache[(key, "heap")] = s2.heap
                    m.globals_cache[key] = v
                finally:
                    self.frames.pop()
            v = m.globals_cache[key]
            for k2, v2 in m.globals_cache.get((key, "heap"), {}).items():
                st.heap.setdefault(k2, v2)
            return v if v is not None else N("top", "recursive global")
        if r[0] == "missing":
            return N("missing", r[1])
        return N("top", str(r[1]))

    def fv(self, info):
        t = self.__dict__.setdefault("_fvs", {})
        f = t.get(id(info))
        if f is None:
            f = t[id(info)] = FuncVal(info)
        return f

    def ex_Attribute(self, e, st):
        b = self.eval(e.value, st)
        if b is None:
            return None
        return self.get_attr(b, e.attr, st, e)

    def ex_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                its = self.known_items(v, st) if v is not None else None
                if its is None:
                    return N("top", "starred tuple")
                out.extend(its)
                continue
            v = self.eval(x, st)
            if v is None:
                return None
            out.append(v)
        return N("tup", *out)

    def alloc(self, e, kind):
        return N("obj", (id(e),) + self.ctx, kind)

    def new_list(self, e, content, st, kind="list"):
        o = self.alloc(e, kind)
        st.heap[(o, "#alive")] = TRUE
        st.heap[(o, "#c")] = content
        return o

    def ex_List(self, e, st):
        out = []
        cat = None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                if v is None:
                    return None
                its = self.known_items(v, st)
                if its is None:
                    base = LISTC(*out) if cat is None else (N("cat", cat, LISTC(*out)) if out else cat)
                    c = self.content(v, st)
                    cat = c if (cat is None and not out) else N("cat", base, c)
                    out = []
                else:
                    out.extend(its)
                continue
            v = self.eval(x, st)
            if v is None:
                return None
            out.append(v)
        if cat is not None:
            content = N("cat", cat, LISTC(*out)) if out else cat
        else:
            content = LISTC(*out)
        return self.new_list(e, content, st)

    def ex_Set(self, e, st):
        out = [self.eval(x, st) for x in e.elts]
        if any(x is None for x in out):
            return None
        return self.new_set(e, LISTC(*out), st)

    def new_set(self, e, c, st):
        """a set with the given elements: repetitions dropped"""
        if c.op in ("tup", "listc") and all(self.by_identity(x, st) for x in c.args):
            return self.new_list(e, LISTC(*dict.fromkeys(c.args)), st, "set")
        return self.new_list(e, c if c.op == "setof" else N("setof", c), st, "set")

    def ex_Dict(self, e, st):
        items = []
        opaque = None
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st)
            if vv is None:
                return None
            if k is None:
                c = st.heap.get((vv, "#c")) if vv.op == "obj" else None
                if c is not None and c.op == "dictc":
                    for kk, v2 in c.args:
                        items = [(a, b) for a, b in items if a is not kk] + [(kk, v2)]
                elif vv.op == "phi":
                    opaque = N("dictmerge", N("dictc", *items), self.frozen(vv, st))
                else:
                    opaque = N("dictmerge", N("dictc", *items), self.frozen(vv, st))
                continue
            kk = self.eval(k, st)
            if kk is None:
                return None
            items = [(a, b) for a, b in items if a is not kk] + [(kk, vv)]
        o = self.alloc(e, "dict")
        st.heap[(o, "#alive")] = TRUE
        st.heap[(o, "#c")] = opaque if opaque is not None else N("dictc", *items)
        return o

    def ex_BinOp(self, e, st):
        a = self.eval(e.left, st)
        if a is None:
            return None
        b = self.eval(e.right, st)
        if b is None:
            return None
        op = OPS[type(e.op)]
        if op in ("+", "-", "*", "/", "**", "//", "%"):
            x, y = self.shape_of(a), self.shape_of(b)
            if x and y and all(isinstance(i, int) for i in x + y) and any(
                    i != j and i != 1 and j != 1 for i, j in zip(x[::-1], y[::-1])) and not (a.op in ("obj", "tup", "listc") and b.op in ("obj", "tup", "listc")):
                return self.throw("ValueError", st, e)
        return self.binop(op, a, b, st)

    def throw(self, exc, st, e):
        self.emit("raise", st, exc, e)
        self._raised(st, exc)
        return None

    def notnumber(self, v, st):
        """certainly neither a number nor convertible to one"""
        if v.op == "k":
            if isinstance(v.args[0], str):
                try:
                    float(v.args[0])
                except ValueError:
                    return True
            return v.args[0] is None
        if v.op in ("tup", "listc", "dictc", "cls", "func"):
            return True
        if v.op == "obj":
            t = self.type_of(v)
            return v.args[1] in ("list", "dict", "set", "tuple") or bool(t and t[0] == "inst" and not any(
                t[1].lookup(m)[0] for m in ("__float__", "__int__", "__index__")))
        s = self.shape_of(v)
        if s and all(isinstance(i, int) for i in s):
            n = 1
            for i in s:
                n *= i
            return n > 1
        return False

    def unordered(self, a, b, st):
        """an ordering comparison of these raises"""
        def bad(v):
            return v.op == "k" and (v.args[0] is None or isinstance(v.args[0], str)) or v.op in ("tup", "listc", "dictc") or v.op == "obj" and v.args[1] in ("list", "dict", "set", "tuple")

        def numeric(v):
            return v.op == "k" and isinstance(v.args[0], (int, float)) or self.type_of(v) in ("int", "float", "num")
        return bad(a) and numeric(b) or bad(b) and numeric(a)

    @staticmethod
    def exact(op, x, y, r):
        """a folded float is the decimal result: otherwise the operation stays symbolic"""
        if op not in "+-*/" or any(z != z or z in (float("inf"), float("-inf")) for z in (x, y, r)):
            return True
        p, q = Fraction(repr(x + 0)), Fraction(repr(y + 0))
        return Fraction(repr(r)) == {"+": lambda: p + q, "-": lambda: p - q, "*": lambda: p * q, "/": lambda: p / q}[op]()

    def binop(self, op, a, b, st):
        a, b = self.simp(a, st), self.simp(b, st)
        if a.op == "k" and b.op == "k":
            x, y = a.args[0], b.args[0]
            if isinstance(x, (int, float, bool)) and isinstance(y, (int, float, bool)):
                try:
                    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                         "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y if abs(y) < 20 else None,
                         "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}.get(op, lambda: None)()
                    if r is not None and not isinstance(r, complex) and (not isinstance(r, float) or self.exact(op, x, y, r)):
                        return K(r)
                except Exception:
                    pass
            if isinstance(x, str) and isinstance(y, str) and op == "+":
                return K(x + y)
        if op == "+":
            la, lb = self.content(a, st), self.content(b, st)
            if a.op == "obj" and a.args[1] == "list" or la.op in ("listc", "map"):
                if la.op == "listc" and lb.op == "listc":
                    return LISTC(*(la.args + lb.args))
                if la.op == "listc" and not la.args:
                    return lb
                if lb.op == "listc" and not lb.args:
                    return la
                return N("cat", la, lb)
            if a.op == "tup" and b.op == "tup":
                return N("tup", *(a.args + b.args))
        if op == "*":
            la = self.content(a, st)
            if la.op == "listc" and b.op == "k" and isinstance(b.args[0], int) and (a.op == "obj"):
                return LISTC(*(la.args * b.args[0]))
        if op == "|" and a.op == "obj" and a.args[1] == "dict":
            ca, cb = st.heap.get((a, "#c")), st.heap.get((b, "#c")) if b.op == "obj" else None
            if ca is not None and cb is not None and ca.op == "dictc" and cb.op == "dictc":
                items = list(ca.args)
                for kk, vv in cb.args:
                    items = [(p, q) for p, q in items if p is not kk] + [(kk, vv)]
                return N("dictc", *items)
        return N("bin", op, self.frozen(a, st), self.frozen(b, st))

    def frozen(self, v, st, depth=0):
        """replace list/dict heap cells by their current content for use inside pure nodes"""
        if depth > 6:
            return v
        if v.op == "obj" and v.args[1] in ("list", "set", "dict", "tuple"):
            c = st.heap.get((v, "#c"))
            if c is not None and c is not v:
                return self.frozen(c, st, depth + 1)
            return v
        if v.op in ("listc", "tup"):
            na = [self.frozen(x, st, depth + 1) for x in v.args]
            return v if all(x is y for x, y in zip(na, v.args)) else N(v.op, *na)
        if v.op == "dictc":
            na = [(k, self.frozen(x, st, depth + 1)) for k, x in v.args]
            return N("dictc", *na)
        if v.op == "phi":
            return phi(v.args[0], self.frozen(v.args[1], st, depth + 1), self.frozen(v.args[2], st, depth + 1))
        return v

    def ex_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if v is None:
            return None
        if isinstance(e.op, ast.Not):
            return lnot(self.truth(v, st))
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        if v.op == "k" and isinstance(v.args[0], (int, float)) and not isinstance(v.args[0], bool):
            return K(-v.args[0] if op == "-" else +v.args[0] if op == "+" else ~v.args[0] if isinstance(v.args[0], int) else v.args[0])
        return N("un", op, self.frozen(v, st))

    def ex_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        vals = []
        cur = st
        n0 = len(st.path)
        facts0 = dict(st.facts)
        conds = []
        for i, x in enumerate(e.values):
            v = self.eval(x, st)
            if v is None:
                if i == 0:
                    return None
                break
            c = self.truth(v, st)
            vals.append((v, c))
            if is_k(c, False) and isand:
                break
            if is_k(c, True) and not isand:
                break
            if i < len(e.values) - 1 and c.op != "k":
                self.add_fact(st, c, isand)
        st.facts = facts0
        st.path = st.path[:n0]
        if len(vals) == 1:
            return vals[0][0]
        # value semantics: boolean if all operands look boolean, else gated phi
        if all(self._boolish(v) for v, c in vals):
            return land(*[c for v, c in vals]) if isand else lor(*[c for v, c in vals])
        acc = vals[-1][0]
        for v, c in reversed(vals[:-1]):
            acc = phi(c, acc, v) if isand else phi(c, v, acc)
        return acc

    def _boolish(self, v):
        return v.op in ("cmp", "not", "and", "or", "isinst", "exists", "nonempty", "hasattr") or is_k(v, True, False) \
            or (v.op == "phi" and self._boolish(v.args[1]) and self._boolish(v.args[2])) \
            or (v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] in (
                "builtins.any", "builtins.all", "builtins.bool", "builtins.callable", "numpy.all", "numpy.any",
                "numpy.allclose", "numpy.issubdtype", "numpy.isfinite", "numpy.isinf", "numpy.isnan", "builtins.hasattr")) \
            or (v.op == "sym" and v.args[1] == "bool")

    def ex_Compare(self, e, st):
        left = self.eval(e.left, st)
        if left is None:
            return None
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st)
            if right is None:
                return None
            if type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) and not out and self.unordered(self.simp(left, st), self.simp(right, st), st):
                return self.throw("TypeError", st, e)
            out.append(self.compare(CMPS[type(op)], left, right, st))
            left = right
        return out[0] if len(out) == 1 else land(*out)

    def isnone(self, v):
        o = v.op
        if o == "k":
            return K(v.args[0] is None)
        if o == "phi":
            return phi(v.args[0], self.isnone(v.args[1]), self.isnone(v.args[2]))
        if o in ("mu", "top", "fold", "last", "first", "unbound", "missing"):
            return N("cmp", "is", v, NONE)
        if o == "attr" or o == "mc" or o == "idx":
            if self.type_of(v) is not None:
                return FALSE
            return N("cmp", "is", v, NONE)
        if o == "call":
            f = v.args[0]
            if f.op == "ext" and (f.args[0].startswith("numpy.") or f.args[0].startswith("builtins.")) \
                    and f.args[0] not in ("builtins.getattr", "builtins.next", "builtins.print"):
                return FALSE
            if f.op == "ext" and f.args[0].split(".")[-1][:1].isupper():
                return FALSE
            return N("cmp", "is", v, NONE)
        if o == "sym":
            if v.args[1] is None and v.args[0].startswith("?"):
                return N("cmp", "is", v, NONE)
            return FALSE
        return FALSE

    def compare(self, op, a, b, st):
        a, b = self.simp(a, st), self.simp(b, st)
        if op in ("is", "is not", "==", "!="):
            if is_k(b, None) or is_k(a, None):
                x = a if is_k(b, None) else b
                c = self.truth(self.isnone(x), st)
                return c if op in ("is", "==") else lnot(c)
        if a.op == "k" and b.op == "k":
            x, y = a.args[0], b.args[0]
            try:
                r = {"==": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y,
                     ">": lambda: x > y, ">=": lambda: x >= y, "is": lambda: x is y or (x == y and type(x) is type(y)),
                     "is not": lambda: not (x is y or (x == y and type(x) is type(y))),
                     "in": lambda: x in y, "not in": lambda: x not in y}[op]()
                return K(bool(r))
            except Exception:
                pass
        if op in ("is", "is not"):
            if a is b and a.op in ("obj", "sym", "cls", "func", "ext", "lv"):
                return K(op == "is")
            if a.op == "obj" and b.op == "obj" and a is not b:
                return K(op == "is not")
            if {a.op, b.op} <= {"obj", "sym"} and a is not b and all(
                    x.op == "obj" or isinstance(x.args[1], tuple) and x.args[1][0] == "opq" for x in (a, b)):
                return K(op == "is not")  # objects named apart are objects apart
        if op in ("==", "!=") and a is b and a.op in ("lv",):
            return K(op == "==")
        if op in ("in", "not in"):
            d = None
            if b.op == "obj" and b.args[1] == "dict":
                d = st.heap.get((b, "#c"))
            elif b.op == "mc" and b.args[1] == "keys" and b.args[0].op == "obj":
                d = st.heap.get((b.args[0], "#c"))
            elif b.op == "dictkeys":
                d = b.args[0]
            elif b.op == "dictc":
                d = b
            if d is not None:
                c = self.dict_has(d, a)
                if c is not None:
                    return c if op == "in" else lnot(c)
            its = self.known_items(b, st) if not (b.op == "k") else None
            if its is not None and d is None:
                c = lor(*[self.compare("==", a, x, st) for x in its])
                return c if op == "in" else lnot(c)
        if op in ("==", "!="):
            if a.op == "tup" and b.op == "tup":
                if len(a.args) != len(b.args):
                    return K(op == "!=")
                c = land(*[self.compare("==", x, y, st) for x, y in zip(a.args, b.args)])
                return c if op == "==" else lnot(c)
            ta, tb = self.type_of(a), self.type_of(b)
            if tb == "str" and b.op == "k" and (ta in ("int", "float", "num", "bool", "fn")):
                return K(op == "!=")
            if a.op == "cls" and b.op == "cls":
                return K((a is b) == (op == "=="))
        n = N("cmp", op, self.frozen(a, st), self.frozen(b, st))
        if op in (">", ">="):
            n = N("cmp", "<" if op == ">" else "<=", self.frozen(b, st), self.frozen(a, st))
        if n in st.facts:
            return K(st.facts[n])
        return n

    def dict_has(self, d, key):
        if d.op == "dictc":
            if any(k is key for k, v in d.args):
                return TRUE
            if key.op == "k" and all(k.op == "k" for k, v in d.args):
                return FALSE
            return None
        if d.op == "phi":
            a, b = self.dict_has(d.args[1], key), self.dict_has(d.args[2], key)
            if a is not None and b is not None:
                return phi(d.args[0], a, b)
        return None

    def dict_get(self, d, key):
        if d.op == "dictc":
            for k, v in d.args:
                if k is key:
                    return v
            return None
        if d.op == "phi":
            a, b = self.dict_get(d.args[1], key), self.dict_get(d.args[2], key)
            if a is not None and b is not None:
                return phi(d.args[0], a, b)
            return a if b is None else b
        return None

    def ex_IfExp(self, e, st):
        v = self.eval(e.test, st)
        if v is None:
            return None
        c = self.truth(v, st)
        if c.op == "k":
            return self.eval(e.body if c.args[0] else e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        self.add_fact(s1, c, True)
        self.add_fact(s2, c, False)
        a = self.eval(e.body, s1)
        b = self.eval(e.orelse, s2)
        if a is None or b is None:
            r, s = (b, s2) if a is None else (a, s1)
            st.env, st.heap, st.facts, st.path = s.env, s.heap, s.facts, s.path
            return r
        m = self._merge2(c, s1, s2)
        st.env, st.heap = m.env, m.heap
        return phi(c, a, b)

    def ex_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        if v is not None:
            self.assign(e.target, v, st)
        return v

    def ex_Lambda(self, e, st):
        fi = FuncInfo(e, self.frames[-1].module, self.frames[-1].cls, "lambda")
        fi.name = "<lambda>"
        fi.qual = (self.frames[-1].func.qual if self.frames[-1].func else "") + ".<lambda>"
        fv = FuncVal(fi, st, self.frames[-1].cls)
        fv.frame = self.frames[-1]
        return N("func", fv)

    def ex_Starred(self, e, st):
        return self.eval(e.value, st)

    def ex_Slice(self, e, st):
        parts = []
        for x in (e.lower, e.upper, e.step):
            v = NONE if x is None else self.eval(x, st)
            if v is None:
                return None
            parts.append(v)
        return N("slice", *parts)

    def ex_Subscript(self, e, st):
        b = self.eval(e.value, st)
        if b is None:
            return None
        i = self.eval(e.slice, st)
        if i is None:
            return None
        return self.getitem(b, i, st, e)

    def getitem(self, b, i, st, e=None):
        b = self.simp(b, st)
        if b.op == "ext" and b.args[0] in ("numpy.r_", "numpy.c_"):
            return N("call", b, (self.frozen(i, st),), ())
        if b.op == "obj":
            c = st.heap.get((b, "#c"))
            if c is not None:
                if b.args[1] == "dict":
                    v = self.dict_get(c, i)
                    if v is not None:
                        return v
                    if c.op == "dictc" and i.op == "k" and all(k.op == "k" for k, _ in c.args):
                        self.emit("raise", st, "KeyError", e)
                        self._raised(st, "KeyError")
                        return None
                    return N("idx", c, i)
                i = self.frozen(i, st)
                if b.args[1] == "list" and i.op == "slice" and c.op == "listc" and any(x.op == "obj" for x in c.args) and not all(is_k(x) for x in i.args):
                    vs = [None if is_k(x, None) else self.const_of(x, st) for x in i.args]
                    if all(is_k(x, None) or type(y) is int for x, y in zip(i.args, vs)):
                        i = N("slice", *[K(y) for y in vs])
                if b.args[1] == "list" and self.oracle is not None and (c.op == "listc" and i.op not in ("k", "slice") and any(x.op == "obj" for x in c.args)
                                                                        or c.op == "map" and i.op == "idx"):
                    v = self.const_of(i, st)        # which of several objects it is must be known
                    n = len(c.args) if c.op == "listc" else self.oracle.length(c)
                    if isinstance(v, int) and not isinstance(v, bool) and n is not None:
                        if not -n <= v < n:
                            self.emit("raise", st, "IndexError", e)
                            self._raised(st, "IndexError")
                            return None
                        i = K(v) if c.op == "listc" else i
                return idx(c, i)
            t = self.known_class(b)
            if t and t[0] == "inst":
                m, c2 = t[1].lookup("__getitem__")
                if isinstance(m, FuncInfo):
                    return self.call_func(self.fv(m), [b, i], [], st, e, c2)
        if b.op == "phi" and any(x.op == "obj" for x in (b.args[1], b.args[2])):
            s1, s2 = st, st
            return phi(b.args[0], self.getitem(b.args[1], i, st, e), self.getitem(b.args[2], i, st, e))
        if b.op == "dictc":
            v = self.dict_get(b, i)
            if v is not None:
                return v
        sh = None
        if b.op == "shape" and i.op == "k":
            return N("idx", b, i)
        i = self.frozen(i, st)
        if self.outside(b, i):
            self.emit("raise", st, "IndexError", e)
            self._raised(st, "IndexError")
            return None
        return idx(b, i)

    def outside(self, b, i):
        """a constant index beyond a known length"""
        if i.op == "k" and isinstance(i.args[0], int) and not isinstance(i.args[0], bool):
            ks = [i.args[0]]
        elif i.op == "listc" and all(x.op == "k" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool) for x in i.args):
            ks = [x.args[0] for x in i.args]
        elif i.op == "tup" and i.args and i.args[0].op in ("k", "listc"):
            return self.outside(b, i.args[0])
        else:
            return False
        if b.op in ("listc", "tup"):
            n = len(b.args)
        else:
            sh = self.shape_of(b)
            n = sh[0] if sh else None
        return isinstance(n, int) and any(not -n <= k < n for k in ks)

    # comprehensions
    def _comp(self, e, st, kind):
        gens = e.generators
        s2 = st.copy()
        r = self._comp_gen(e, gens, 0, s2, kind)
        st.heap = s2.heap
        if r is None:
            return None
        return r

    def _comp_gen(self, e, gens, gi, st, kind):
        """-> content node"""
        g = gens[gi]
        it = self.eval(g.iter, st)
        if it is None:
            return None
        items = self.known_items(it, st)
        last = gi == len(gens) - 1

        def leaf(s):
            if kind == "dict":
                k = self.eval(e.key, s)
                v = self.eval(e.value, s)
                return None if k is None or v is None else N("tup", k, v)
            return self.eval(e.elt, s)
        ctx0 = self.ctx
        if items is not None and len(items) <= MAXUNROLL:
            out, conds = [], []
            for k, x in enumerate(items):
                self.ctx = ctx0 + (("c", id(e), gi, k),)
                self.assign(g.target, x, st)
                c = TRUE
                for f in g.ifs:
                    v = self.eval(f, st)
                    c = land(c, self.truth(v, st) if v is not None else FALSE)
                if is_k(c, False):
                    continue
                if last:
                    v = leaf(st)
                    if v is None:
                        self.ctx = ctx0
                        return None
                    out.append(LISTC(v) if is_k(c, True) else phi(c, LISTC(v), LISTC()))
                else:
                    v = self._comp_gen(e, gens, gi + 1, st, kind)
                    if v is None:
                        return None
                    out.append(v if is_k(c, True) else phi(c, v, LISTC()))
            self.ctx = ctx0
            acc = LISTC()
            for v in out:
                if acc.op == "listc" and v.op == "listc":
                    acc = LISTC(*(acc.args + v.args))
                elif acc.op == "listc" and not acc.args:
                    acc = v
                else:
                    acc = N("cat", acc, v)
            return acc
        itc = self.content(it, st)
        lv = N("lv", (id(e), gi) + self.ctx)
        pre = st.copy()
        self.lctx.append((lv, itc))
        self.ctx = ctx0 + (("g", id(e), gi),)
        try:
            el = self.generic_elem(itc, lv, st)
            self.assign(g.target, el, st)
            c = TRUE
            n0, f0 = st.path, dict(st.facts)
            for f in g.ifs:
                v = self.eval(f, st)
                cc = self.truth(v, st) if v is not None else FALSE
                if cc.op != "k":
                    self.add_fact(st, cc, True)
                c = land(c, cc)
            if last:
                v = leaf(st)
                res = None if v is None else N("map", lv, itc, self.own_iteration(v, st, pre, lv, True), c)
            else:
                v = self._comp_gen(e, gens, gi + 1, st, kind)
                res = None if v is None else N("flatmap", lv, itc, v, c)
            st.path, st.facts = n0, f0
        finally:
            self.lctx.pop()
            self.ctx = ctx0
        return res

    def ex_ListComp(self, e, st):
        c = self._comp(e, st, "list")
        return None if c is None else self.new_list(e, c, st)

    def ex_GeneratorExp(self, e, st):
        c = self._comp(e, st, "list")
        return None if c is None else c

    def ex_SetComp(self, e, st):
        c = self._comp(e, st, "list")
        return None if c is None else self.new_set(e, c, st)

    def ex_DictComp(self, e, st):
        c = self._comp(e, st, "dict")
        if c is None:
            return None
        o = self.alloc(e, "dict")
        st.heap[(o, "#alive")] = TRUE
        if c.op == "listc":
            st.heap[(o, "#c")] = dict_of((t.args[0], t.args[1]) for t in c.args)
        else:
            st.heap[(o, "#c")] = N("dictmap", c)
        return o

    def ex_Await(self, e, st):
        return self.eval(e.value, st)

    def ex_Yield(self, e, st):
        v = NONE if e.value is None else self.eval(e.value, st)
        self.emit("yield", st, v, e)
        return N("top", "yield")

    # ---- attributes ------------------------------------------------------
    def get_attr(self, b, name, st, e=None):
        b = self.simp(b, st)
        mname = self.mangle(name)
        o = b.op
        if o == "phi":
            parts = (b.args[1], b.args[2])
            if any(x.op in ("obj", "sym", "phi", "copy", "func", "cls") or is_k(x, None) for x in parts):
                c = b.args[0]
                s1, s2 = st.copy(), st.copy()
                self.add_fact(s1, c, True)
                self.add_fact(s2, c, False)
                p, q = None, None
                if not is_k(b.args[1], None):
                    p = self.get_attr(b.args[1], name, s1, e)
                else:
                    self.emit("none_attr", s1, (name,), e)
                if not is_k(b.args[2], None):
                    q = self.get_attr(b.args[2], name, s2, e)
                else:
                    self.emit("none_attr", s2, (name,), e)
                if p is None and q is None:
                    return None
                if p is None:
                    st.heap = s2.heap
                    return q
                if q is None:
                    st.heap = s1.heap
                    return p
                m = self._merge2(c, s1, s2)
                st.heap = m.heap
                return phi(c, p, q)
        if is_k(b, None):
            self.emit("none_attr", st, (name,), e)
            self._raised(st, "AttributeError")
            return None
        if o == "mod":
            r = self.p.resolve(self.p.modules[b.args[0]], name)
            if r is None:
                return N("missing", b.args[0] + "." + name)
            return self.resolved(r, self.p.modules[b.args[0]], st)
        if o == "ext":
            return N("ext", b.args[0] + "." + name)
        if o == "cls":
            m, c = b.args[0].lookup(mname)
            if m is None:
                if name == "__name__":
                    return K(b.args[0].name)
                if not b.args[0].has_external_base():
                    self.emit("missing_attr", st, (b.args[0].name, name), e)
                return N("attr", b, name)
            if isinstance(m, FuncInfo):
                if m.kind == "classm":
                    return N("bm", self.fv(m), b)
                return N("func", self.fv(m))
            if isinstance(m, PropInfo):
                return N("propobj", c, m.name)
            return self.class_const(m, c, st)
        if o == "super":
            cls, selfn = b.args
            m, c = self._super_lookup(cls, selfn, mname)
            if m is None:
                return N("ext", "builtins.object." + name)
            if isinstance(m, PropInfo):
                return self.call_func(self.fv(m.getter), [selfn], [], st, e, c)
            if isinstance(m, FuncInfo):
                if m.kind == "static":
                    return N("func", self.fv(m))
                return N("bm", self.fv(m), selfn)
            return self.class_const(m, c, st)
        if o == "obj" and b.args[1] in ("list", "set", "dict", "tuple"):
            return N("lmeth", b, name)
        if o == "copy" and self.known_class(b) and self.known_class(b)[0] == "opq":
            pass
        t = self.known_class(b)
        if t is not None and t[0] == "inst":
            cls = t[1]
            if (b, mname) in st.heap:
                v = self.simp(st.heap[(b, mname)], st)
                if v is UNBOUND or (v.op == "phi" and UNBOUND in (v.args[1], v.args[2])):
                    self.emit("unset_attr", st, (cls.name, name), e)
                    if v is UNBOUND:
                        self._raised(st, "AttributeError")
                        return None
                    v = v.args[1] if v.args[2] is UNBOUND else v.args[2]
                m, c = cls.lookup(mname)
                if not isinstance(m, PropInfo):
                    return v
            m, c = cls.lookup(mname)
            if isinstance(m, PropInfo):
                if m.cached:
                    if (b, mname) in st.heap:
                        return st.heap[(b, mname)]
                    v = self.call_func(self.fv(m.getter), [b], [], st, e, c)
                    if v is not None:
                        st.heap[(b, mname)] = v
                    return v
                if m.getter is None:
                    return N("attr", b, name)
                return self.call_func(self.fv(m.getter), [b], [], st, e, c)
            if isinstance(m, FuncInfo):
                if m.kind == "static":
                    return N("func", self.fv(m))
                if m.kind == "classm":
                    return N("bm", self.fv(m), N("cls", cls))
                return N("bm", self.fv(m), b)
            if m is not None:
                return self.class_const(m, c, st)
            if name == "__class__":
                return N("cls", cls)
            if name == "__dict__":
                return N("top", "__dict__")
            if b.op == "obj" and (b, "#copyof") in st.heap:
                src = st.heap[(b, "#copyof")]
                return N("copy", N("attr", src, mname))
            if b.op == "obj" and not cls.has_external_base():
                ga, _ = cls.lookup("__getattr__")
                if ga is None:
                    self.emit("missing_attr", st, (cls.name, name), e)
                    self._raised(st, "AttributeError")
                    return N("attr", b, mname)
            return N("attr", b, mname)
        if t is not None and t[0] == "opq":
            m, c = t[1].lookup(mname)
            if isinstance(m, FuncInfo):
                return N("bmo", b, name)
            if (b, mname) in st.heap:
                return self.simp(st.heap[(b, mname)], st)
            if m is None and (b.op == "sym" or b.op == "copy"):
                self.emit("opq_missing_attr", st, (t[1].name, name), e)
            if b.op == "copy":
                return N("copy", N("attr", b.args[0], mname))
            return N("attr", b, mname)
        if (b, mname) in st.heap:
            return self.simp(st.heap[(b, mname)], st)
        if name in self.ahooks:
            r = self.ahooks[name](self, b, st)
            if r is not NotImplemented:
                return r
        if name == "shape":
            s = self.shape_of(b)
            if s is not None:
                return N("tup", *[x if isinstance(x, Node) else K(x) for x in s])
        if name == "size":
            s = self.shape_of(b)
            if s is not None and all(isinstance(x, int) for x in s):
                p = 1
                for x in s:
                    p *= x
                return K(p)
        if name == "ndim":
            s = self.shape_of(b)
            if s is not None:
                return K(len(s))
        if o == "func" or o == "bm":
            return N("attr", b, name)
        return N("attr", self.frozen(b, st), mname)

    def _super_lookup(self, cls, selfn, mname):
        t = self.known_class(selfn)
        mro = t[1].mro() if t else cls.mro()
        if selfn.op == "cls":
            mro = selfn.args[0].mro()
        if cls in mro:
            for c in mro[mro.index(cls) + 1:]:
                if mname in c.members:
                    return c.members[mname], c
        return None, None

    def class_const(self, m, c, st):
        key = ("cc", id(m))
        cache = c.module.globals_cache
        if key not in cache:
            fr = Frame(FuncInfo(ast.FunctionDef(name="<class>"), c.module), c.module)
            self.frames.append(fr)
            try:
                s2 = State()
                v = self.eval(m, s2)
                cache[key] = v if v is not None else N("top", "class const")
                if v is not None and v.op == "obj":
                    cache[(key, "heap")] = s2.heap
            finally:
                self.frames.pop()
        for k2, v2 in cache.get((key, "heap"), {}).items():
            st.heap.setdefault(k2, v2)
        return self.shared(cache[key], m)

    def set_attr(self, b, name, v, st, e=None):
        b = self.simp(b, st)
        if b.op == "phi":
            c = b.args[0]
            s1, s2 = st.copy(), st.copy()
            self.add_fact(s1, c, True)
            self.add_fact(s2, c, False)
            self.set_attr(b.args[1], name, v, s1, e)
            self.set_attr(b.args[2], name, v, s2, e)
            m = self._merge2(c, s1, s2)
            st.heap = m.heap
            return
        if b.op == "super":
            m, c = self._super_lookup(b.args[0], b.args[1], name)
            if isinstance(m, PropInfo) and m.setter is not None:
                self.call_func(self.fv(m.setter), [b.args[1], v], [], st, e, c)
                return
            b = b.args[1]
        mname = self.mangle(name)
        t = self.known_class(b)
        if t is not None and t[0] == "inst":
            m, c = t[1].lookup(mname)
            if isinstance(m, PropInfo) and not m.cached:
                if m.setter is None:
                    self.emit("no_setter", st, (t[1].name, name), e)
                    return
                r = self.call_func(self.fv(m.setter), [b, v], [], st, e, c)
                if r is None:
                    st.heap[(b, "#dead")] = TRUE
                return
        self.emit("setattr", st, (b, mname, v), e)
        if t is not None and t[0] == "opq" or b.op in ("idx", "elem", "attr", "sym"):
            # weak identity: other nodes may denote the same object
            pass
        st.heap[(b, mname)] = self.stored(v) if self.storage else v

    # ---- identity of array storage ------------------------------------------
    def is_array(self, v):
        if v.op in ("tup", "listc", "obj", "k"):
            return False
        s = self.shape_of(v)
        if s is None and self.type_of(v) is None:
            # of a shape not known: numpy expressions, unless of scalars
            if v.op == "call":
                return v.args[0].op == "ext" and v.args[0].args[0] in ("numpy.array", "numpy.copy", "numpy.reshape", "numpy.squeeze", "numpy.asarray", "numpy.append", "numpy.vstack", "numpy.hstack")
            if v.op == "bin":
                return any(self.is_array(x) for x in v.args[1:] if isinstance(x, Node))
            if v.op == "mc":
                return v.args[1] in ("reshape", "astype", "copy", "ravel", "squeeze") and self.is_array(v.args[0])
            return v.op == "copy" and self.is_array(v.args[0])
        return s is not None and len(s) > 0

    def shared(self, v, d):
        """a default or class-level array is one object for every user of it"""
        if self.storage and self.is_array(v):
            return N("call", N("ext", "numpy.copy"), (v,), (("#id", K("line %s" % getattr(d, "lineno", 0))),))
        return v

    def stored(self, v, fresh=False):
        """an array that a new expression makes gets an identity when it is first kept by an object"""
        if v.op in ("k", "obj", "func", "cls", "ext", "tup", "listc", "dictc", "phi"):
            return v
        from . import alias
        if self.is_array(v) and (fresh or not alias.roots(v)):
            self.nstored += 1
            return N("call", N("ext", "numpy.copy"), (v,), (("#id", K(self.nstored)),))
        return v

    # ---- calls -----------------------------------------------------------
    def ex_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            if not e.args:
                return N("super", fr.cls, fr.selfn if fr.selfn is not None else NONE)
            a = self.eval(e.args[0], st)
            b = self.eval(e.args[1], st)
            return N("super", a.args[0], b)
        f = self.eval(e.func, st)
        if f is None:
            return None
        pos, kw = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                if v is None:
                    return None
                its = self.known_items(v, st)
                if its is None:
                    sh = None
                    if v.op == "tup":
                        its = list(v.args)
                    else:
                        pos.append(N("star", self.frozen(v, st)))
                        continue
                pos.extend(its)
            else:
                v = self.eval(a, st)
                if v is None:
                    return None
                pos.append(v)
        for k in e.keywords:
            v = self.eval(k.value, st)
            if v is None:
                return None
            if k.arg is None:
                c = st.heap.get((v, "#c")) if v.op == "obj" else (v if v.op == "dictc" else None)
                if c is not None and c.op == "dictc" and all(x.op == "k" for x, _ in c.args):
                    for kk, vv in c.args:
                        if any(n == kk.args[0] for n, _ in kw):
                            self.emit("bad_call", st, ("?", "multiple values for keyword %s" % kk.args[0]), e)
                        kw.append((kk.args[0], vv))
                else:
                    kw.append(("**", self.frozen(v, st)))
            else:
                if any(n == k.arg for n, _ in kw):
                    self.emit("bad_call", st, ("?", "multiple values for keyword %s" % k.arg), e)
                kw.append((k.arg, v))
        return self.call(f, pos, kw, st, e)

    def call(self, f, pos, kw, st, e):
        f = self.simp(f, st)
        o = f.op
        if o == "phi":
            c = f.args[0]
            s1, s2 = st.copy(), st.copy()
            self.add_fact(s1, c, True)
            self.add_fact(s2, c, False)
            a = self.call(f.args[1], pos, kw, s1, e)
            b = self.call(f.args[2], pos, kw, s2, e)
            if a is None and b is None:
                return None
            if a is None or b is None:
                s = s2 if a is None else s1
                st.heap, st.facts, st.path = s.heap, s.facts, s.path
                return b if a is None else a
            m = self._merge2(c, s1, s2)
            st.heap = m.heap
            return phi(c, a, b)
        if o == "func":
            fv = f.args[0]
            return self.call_func(fv, pos, kw, st, e, fv.info.cls if fv.info.kind != "lambda" else fv.cls)
        if o == "bm":
            fv = f.args[0]
            return self.call_func(fv, [f.args[1]] + pos, kw, st, e, fv.info.cls)
        if o == "bmo":
            m = self.shared_method(f.args[0], f.args[1])
            if m is not None:
                return self.call_func(self.fv(m), [f.args[0]] + pos, kw, st, e, m.cls)
            return self.opaque_mcall(f.args[0], f.args[1], pos, kw, st, e)
        if o == "cls":
            return self.construct(f.args[0], pos, kw, st, e)
        if o == "lmeth":
            return self.list_method(f.args[0], f.args[1], pos, kw, st, e)
        if o == "ext":
            return self.call_ext(f.args[0], pos, kw, st, e)
        if o == "attr":
            b, name = f.args
            if b.op in ("listc", "map", "dictc"):
                tmp = self.new_list(e, b, st, "dict" if b.op == "dictc" else "list")
                return self.list_method(tmp, name, pos, kw, st, e)
            return self.opaque_mcall(b, name, pos, kw, st, e)
        if o in ("obj",):
            t = self.known_class(f)
            if t and t[0] == "inst":
                m, c = t[1].lookup("__call__")
                if isinstance(m, FuncInfo):
                    return self.call_func(self.fv(m), [f] + pos, kw, st, e, c)
            self.emit("call_noncallable", st, show(f), e)
        if o in ("k", "tup", "listc", "bin", "cmp"):
            self.emit("call_noncallable", st, show(f), e)
        a = tuple(self.frozen(x, st) for x in pos)
        k = tuple(sorted(((n, self.frozen(x, st)) for n, x in kw), key=lambda t: t[0]))
        n = N("call", f, a, k)
        self.emit("call", st, n, e)
        return n

    PURE_M = {"copy", "astype", "reshape", "ravel", "flatten", "squeeze", "any", "all", "sum", "min", "max", "mean", "dot",
              "transpose", "keys", "items", "values", "get", "split", "join", "lower", "upper", "strip", "format",
              "startswith", "endswith", "argmin", "argmax", "tolist", "cumsum", "nonzero", "item", "round", "clip", "conj",
              "prod", "find_simplex", "as_matrix", "argsort", "searchsorted", "std", "repeat", "swapaxes"}
    MUT_M = {"sort", "fill", "append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "reverse",
             "put", "resize", "itemset", "add_points", "partition", "byteswap", "setflags", "add", "discard"}

    def shared_method(self, b, name):
        """the copying method every class of an unknown object inherits"""
        t = self.known_class(b)
        if not name.startswith("from_") or name in self.mhooks or t is None or t[0] != "opq":
            return None
        m, _ = t[1].lookup(name)
        if not isinstance(m, FuncInfo) or m.kind in ("staticmethod", "classmethod", "lambda"):
            return None
        for c in self.p.classes():
            if t[1] in c.mro() and c.lookup(name)[0] is not m:
                return None
        return m

    def opaque_mcall(self, b, name, pos, kw, st, e):
        if name in self.mhooks:
            r = self.mhooks[name](self, b, pos, kw, st, e)
            if r is not NotImplemented:
                return r
        a = tuple(self.frozen(x, st) for x in pos)
        k = tuple(sorted(((n, self.frozen(x, st)) for n, x in kw), key=lambda t: t[0]))
        if name in DRAWS and b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] in RNGS:
            # successive draws of one generator are distinct
            i = st.heap.get((b, "#draw"), K(0))
            st.heap[(b, "#draw")] = K(i.args[0] + 1) if i.op == "k" else N("bin", "+", i, K(1))
            k = k + (("#draw", i),)
        n = N("mc", self.frozen(b, st), name, a, k)
        if name in self.PURE_M:
            if name == "astype" and a and b.op in ("listc",):
                pass
        self.emit("mcall", st, n, e)
        if name == "reshape" and self.misfit(n.args[0], n.args[2], st, e):
            return None
        if name in self.MUT_M:
            self.emit("mut", st, (b, "." + name + "()", n), e)
            if name == "sort" and not isinstance(self.known_class(b), tuple):
                new = N("sorted", b, self.key_of(kw, b, st, e), dict(kw).get("reverse", FALSE))
                self.rebind(b, new, st)
            elif name not in ("add_points",):
                self.rebind(b, N("mutated", b, n), st)
            x = b
            while x.op == "idx":            # an element of a list whose elements are not told apart
                x = x.args[0]
                for q, v in list(st.heap.items()):
                    if v is x and q[1] == "#c":
                        st.heap[q] = N("mutated", v, n)
        return n

    def rebind(self, old, new, st):
        if old.op in ("k", "obj"):
            return
        for k, v in list(st.env.items()):
            if v is old:
                st.env[k] = new
        for k, v in list(st.heap.items()):
            if v is old:
                st.heap[k] = new

    def key_of(self, kw, coll, st, e):
        d = dict(kw)
        key = d.get("key")
        if key is None or is_k(key, None):
            return N("ident")
        lv = N("lv", (id(e), "key") + self.ctx)
        c = self.content(coll, st)
        el = idx(c, lv) if c.op != "map" else subst(c.args[2], {c.args[0]: lv})
        s2 = st.copy()
        self.lctx.append((lv, c))
        v = self.call(key, [el], [], s2, e)
        self.lctx.pop()
        return N("keyfn", lv, v if v is not None else N("top", "key"))

    def const_of(self, n, st):
        """Python constant of a node (numbers, strings, tuples of them), or None"""
        if n.op == "k":
            v = n.args[0]
            return v if isinstance(v, (int, float, str, bool)) else None
        if n.op == "tup":
            t = tuple(self.const_of(x, st) for x in n.args)
            return None if any(x is None for x in t) else t
        return self.oracle.const(n, st) if self.oracle is not None else None

    def mksorted(self, c, coll, kw, st, e):
        d = dict(kw)
        rev = d.get("reverse", FALSE)
        its = self.known_items(c, st) if c.op != "obj" else self.known_items(c, st)
        key = d.get("key")
        if its is not None and rev.op == "k":
            ks = []
            for k, x in enumerate(its):
                if key is not None and not is_k(key, None):
                    c0 = self.ctx
                    self.ctx = c0 + (("s", k),)
                    v = self.call(key, [x], [], st.copy(), e)
                    self.ctx = c0
                else:
                    v = x
                v = self.const_of(v, st) if v is not None else None
                if v is None:
                    break
                ks.append(v)
            else:
                try:
                    order = sorted(range(len(its)), key=lambda i: ks[i], reverse=bool(rev.args[0]))
                    return LISTC(*[its[i] for i in order])
                except TypeError:
                    pass
        return N("sorted", c, self.key_of(kw, coll, st, e), rev)

    def bind_args(self, fi, pos, kw, st, e, defaults_mod):
        a = fi.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        npos = len(names)
        pos = list(pos)
        err = None
        star = any(x.op == "star" for x in pos)
        if star:
            err = None
            i = next(i for i, x in enumerate(pos) if x.op == "star")
            for n, v in zip(names, pos[:i]):
                env[n] = v
            for j, n in enumerate(names[i:]):
                if n not in dict(kw):
                    env[n] = N("idx", pos[i].args[0], K(j))
            extra = []
        else:
            for n, v in zip(names, pos):
                env[n] = v
            extra = pos[npos:]
        if a.vararg:
            env[a.vararg.arg] = N("tup", *extra)
        elif extra:
            err = "takes %d positional arguments but %d were given" % (npos, len(pos))
        kwonly = [x.arg for x in a.kwonlyargs]
        extrakw = []
        dyn = None
        for n, v in kw:
            if n == "**":
                dyn = v
                continue
            if n in names or n in kwonly:
                if n in env and not star:
                    err = "multiple values for argument '%s'" % n
                env[n] = v
            elif a.kwarg:
                extrakw.append((K(n), v))
            else:
                err = "unexpected keyword argument '%s'" % n
        defaults = a.defaults
        dn = names[len(names) - len(defaults):] if defaults else []
        dmap = dict(zip(dn, defaults))
        for x, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                dmap[x] = d
        missing = []
        for n in names + kwonly:
            if n not in env:
                if dyn is not None:
                    dv = self.eval_default(dmap[n], fi, st) if n in dmap else N("idx", dyn, K(n))
                    env[n] = phi(N("cmp", "in", K(n), dyn), N("idx", dyn, K(n)), dv) if n in dmap else dv
                elif n in dmap:
                    env[n] = self.eval_default(dmap[n], fi, st)
                else:
                    missing.append(n)
        if missing:
            err = "missing required arguments: " + ", ".join(missing)
            for n in missing:
                env[n] = N("top", "missing argument")
        if a.kwarg:
            o = N("obj", (id(fi.node), "kw") + self.ctx + ((id(e) if e is not None else 0),), "dict")
            st.heap[(o, "#alive")] = TRUE
            st.heap[(o, "#c")] = N("dictc", *extrakw) if dyn is None else (
                dyn if not extrakw else N("dictmerge", N("dictc", *extrakw), dyn))
            env[a.kwarg.arg] = o
        return env, err

    def eval_default(self, d, fi, st):
        fr = Frame(FuncInfo(ast.FunctionDef(name="<default>"), fi.module), fi.module)
        self.frames.append(fr)
        ctx0, self.ctx = self.ctx, ("default",)
        try:
            s2 = State({}, {}, {}, ())
            v = self.eval(d, s2)
            for k, h in s2.heap.items():
                st.heap.setdefault(k, h)
            if v is not None and v.op == "obj":
                self.emit("mutable_default_used", st, v, d)
            return self.shared(v, d) if v is not None else N("top", "default")
        finally:
            self.frames.pop()
            self.ctx = ctx0

    def call_func(self, fv, pos, kw, st, e, cls=None):
        fi = fv.info
        if fi.name in self.ihooks and fi.cls is None:
            r = self.ihooks[fi.name](self, pos, kw, st, e)
            if r is not NotImplemented:
                return r
        if fi in self.opaque_funcs:
            a = tuple(self.frozen(x, st) for x in pos)
            k = tuple(sorted(((n, self.frozen(x, st)) for n, x in kw), key=lambda t: t[0]))
            n = N("call", N("func", fv), a, k)
            self.emit("call", st, n, e)
            return n
        if len(self.stack) > self.max_depth or self.stack.count(fi) > 3:
            self.emit("depth", st, fi.qual, e)
            a = tuple(self.frozen(x, st) for x in pos)
            return N("call", N("func", fv), a, ())
        env, err = self.bind_args(fi, pos, kw, st, e, fi.module)
        if err:
            self.emit("bad_call", st, (fi.qual, err), e)
            self._raised(st, "TypeError")
            return N("top", "bad call " + fi.qual)
        self.analysed.setdefault((fi.module.path, fi.qual), set()).add(self.loc)
        fr = Frame(fi, fi.module, cls if cls is not None else fi.cls)
        if fv.env is not None:
            fr.closure = fv
        if fi.kind in ("method", "classm") and pos:
            fr.selfn = pos[0]
        elif fi.kind in ("nested", "lambda"):
            fr.selfn = getattr(getattr(fv, "frame", None), "selfn", None)
            fr.cls = fv.cls
        boxes = []
        for q in self.changed_params(fi):
            if q in env and env[q].op not in ("k", "obj", "tup", "func", "cls", "ext", "top") and self.updatable(env[q]):
                self._nbox = getattr(self, "_nbox", 0) + 1
                box = N("loc", "param", K(self._nbox))
                boxes.append((q, box, env[q]))
                env["@" + q] = box
                st.heap[(box, "#v")] = env[q]
        inner = State(env, st.heap, dict(st.facts), st.path)
        ctx0 = self.ctx
        self.ctx = (ctx0 + (id(e) if e is not None else ("f", id(fi.node)),))
        if len(self.ctx) > 60:
            raise Bailout("context too deep")
        self.frames.append(fr)
        self.stack.append(fi)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, inner)
                alts = [] if v is None else [(inner, v)]
            else:
                isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fi.node))
                r = self.exec_block(fi.node.body, inner)
                alts = list(fr.returns)
                if r is not None:
                    alts.append((r, NONE))
                if isgen:
                    st.heap = inner.heap
                    return N("top", "generator function " + fi.qual)
        finally:
            self.frames.pop()
            self.stack.pop()
            self.ctx = ctx0
        if not alts:
            return None
        ms, mv = self.merge_states(alts, st.path)
        st.heap = ms.heap
        st.path = ms.path
        st.facts = ms.facts
        if boxes:
            self.hand_back(fi, e, pos, boxes, st.heap, st)
        return mv if mv is not None else N("top", "void")

    def construct(self, cls, pos, kw, st, e):
        o = N("obj", (id(e),) + self.ctx, cls)
        st.heap[(o, "#alive")] = TRUE
        self.emit("new", st, (cls, o, tuple(pos), tuple(kw)), e)
        # abstract methods left unimplemented
        m, c = cls.lookup("__init__")
        if isinstance(m, FuncInfo):
            r = self.call_func(self.fv(m), [o] + pos, kw, st, e, c)
            if r is None:
                return None
        elif (pos or kw) and not cls.has_external_base() and m is None:
            self.emit("bad_call", st, (cls.name, "takes no arguments"), e)
        return o

    # ---- lists and dicts -------------------------------------------------
    def list_extend(self, o, v, st, e):
        c = st.heap.get((o, "#c"), N("top", "?"))
        vc = self.content(v, st)
        its = self.known_items(v, st)
        self.emit("mut", st, (o, ".extend()", vc), e)
        if its is not None:
            if c.op == "listc":
                st.heap[(o, "#c")] = LISTC(*(c.args + tuple(its)))
            else:
                for x in its:
                    c = N("app", c, x)
                st.heap[(o, "#c")] = c
        elif c.op == "listc" and not c.args:
            st.heap[(o, "#c")] = vc
        else:
            st.heap[(o, "#c")] = N("cat", c, vc)

    def list_method(self, o, name, pos, kw, st, e):
        c = st.heap.get((o, "#c"), N("top", "?"))
        kind = o.args[1]
        if kind == "dict":
            return self.dict_method(o, c, name, pos, kw, st, e)
        if name in ("append", "add"):
            self.emit("mut", st, (o, ".append()", pos[0] if pos else NONE), e)
            v = pos[0]
            st.heap[(o, "#c")] = LISTC(*(c.args + (v,))) if c.op == "listc" else N("app", c, v)
            if kind == "list" and c.op == "listc" and isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
                q = e.args[0].id
                if "@" + q not in st.env and st.env.get(q) is v and v.op not in ("k", "obj", "tup", "func", "cls", "ext", "top") and self.updatable(v):
                    self.item_of(q, o, len(c.args), v, st)
            return NONE
        if name in ("extend", "update") and pos:
            self.list_extend(o, pos[0], st, e)
            return NONE
        if name == "insert":
            self.emit("mut", st, (o, ".insert()", pos[1]), e)
            if c.op == "listc" and pos[0].op == "k":
                L = list(c.args)
                L.insert(pos[0].args[0], pos[1])
                st.heap[(o, "#c")] = LISTC(*L)
            elif is_k(pos[0], 0):
                st.heap[(o, "#c")] = N("cat", LISTC(pos[1]), c)
            else:
                st.heap[(o, "#c")] = N("top", "insert")
            return NONE
        if name == "sort":
            self.emit("mut", st, (o, ".sort()", NONE), e)
            st.heap[(o, "#c")] = self.mksorted(c, o, kw, st, e)
            return NONE
        if name == "reverse":
            self.emit("mut", st, (o, ".reverse()", NONE), e)
            st.heap[(o, "#c")] = LISTC(*reversed(c.args)) if c.op == "listc" else N("rev", c)
            return NONE
        if name == "pop":
            self.emit("mut", st, (o, ".pop()", NONE), e)
            i = pos[0] if pos else K(-1)
            if c.op == "listc" and i.op == "k" and c.args and -len(c.args) <= i.args[0] < len(c.args):
                L = list(c.args)
                v = L.pop(i.args[0])
                st.heap[(o, "#c")] = LISTC(*L)
                return v
            st.heap[(o, "#c")] = N("popped", c, i)
            return N("idx", c, i)
        if name == "clear":
            self.emit("mut", st, (o, ".clear()", NONE), e)
            st.heap[(o, "#c")] = LISTC()
            return NONE
        if name == "remove":
            self.emit("mut", st, (o, ".remove()", NONE), e)
            st.heap[(o, "#c")] = N("removed", c, pos[0])
            return NONE
        if name == "copy":
            return self.new_list(e, c, st, kind)
        if name == "index" and len(pos) == 1:
            its = self.known_items(o, st)
            if its:
                ks = [self.const_of(x, st) for x in its]
                y = self.const_of(pos[0], st)
                for i, x in enumerate(its):
                    if x is pos[0] or y is not None and ks[i] == y:
                        return K(i)
                    if not (y is not None and ks[i] is not None) and not (x.op == "obj" and pos[0].op == "obj"):
                        break
        return N("mc", c, name, tuple(self.frozen(x, st) for x in pos), ())

    def dict_method(self, o, c, name, pos, kw, st, e):
        if name == "keys":
            return N("dictkeys", c) if c.op != "dictc" else dict_seq(c, [k for k, v in c.args])
        if name == "items" and c.op == "dictc":
            return dict_seq(c, [N("tup", k, v) for k, v in c.args])
        if name == "values" and c.op == "dictc":
            return dict_seq(c, [v for k, v in c.args])
        if name == "get" and pos:
            d = pos[1] if len(pos) > 1 else NONE
            h = self.dict_has(c, pos[0])
            if h is not None:
                v = self.dict_get(c, pos[0])
                return phi(h, v, d) if v is not None else d
            return phi(N("cmp", "in", pos[0], c), N("idx", c, pos[0]), d)
        if name in ("update",):
            self.emit("mut", st, (o, ".update()", NONE), e)
            items = list(c.args) if c.op == "dictc" else None
            srcs = []
            for x in pos:
                xc = st.heap.get((x, "#c")) if x.op == "obj" else x
                srcs.append(xc)
            if items is not None and all(x is not None and x.op == "dictc" for x in srcs):
                for x in srcs:
                    for kk, vv in x.args:
                        items = [(a, b) for a, b in items if a is not kk] + [(kk, vv)]
                for n, v in kw:
                    items = [(a, b) for a, b in items if a is not K(n)] + [(K(n), v)]
                st.heap[(o, "#c")] = N("dictc", *items)
            else:
                st.heap[(o, "#c")] = N("dictmerge", c, *(x if x is not None else N("top", "?") for x in srcs))
            return NONE
        if name in ("setdefault", "pop") and pos:
            self.emit("mut", st, (o, "." + name + "()", NONE), e)
            h = self.dict_has(c, pos[0])
            v = self.dict_get(c, pos[0])
            d = pos[1] if len(pos) > 1 else NONE
            if name == "setdefault":
                if h is not None and is_k(h, True):
                    return v
                if h is not None and is_k(h, False):
                    st.heap[(o, "#c")] = N("dictc", *(c.args + ((pos[0], d),)))
                    return d
                st.heap[(o, "#c")] = N("dictmerge", N("dictc", (pos[0], d)), c)
                return phi(N("cmp", "in", pos[0], c), N("idx", c, pos[0]), d)
            if h is not None and is_k(h, True):
                st.heap[(o, "#c")] = N("dictc", *[kv for kv in c.args if kv[0] is not pos[0]])
                return v
            if h is not None and is_k(h, False):
                return d
            st.heap[(o, "#c")] = N("dictdel", c, pos[0])
            return phi(N("cmp", "in", pos[0], c), N("idx", c, pos[0]), d)
        if name == "copy":
            o2 = self.alloc(e, "dict")
            st.heap[(o2, "#alive")] = TRUE
            st.heap[(o2, "#c")] = c
            return o2
        if name == "clear":
            st.heap[(o, "#c")] = N("dictc")
            return NONE
        return N("mc", c, name, tuple(self.frozen(x, st) for x in pos), ())

    # ---- external calls --------------------------------------------------
    def isinstance_(self, x, c, st):
        if c.op == "tup" or (c.op == "obj" and c.args[1] == "list"):
            its = self.known_items(c, st)
            return lor(*[self.isinstance_(x, y, st) for y in its])
        if c.op == "bin" and c.args[0] == "|":
            return lor(self.isinstance_(x, c.args[1], st), self.isinstance_(x, c.args[2], st))
        x = self.simp(x, st)
        if x.op == "phi":
            return phi(x.args[0], self.isinstance_(x.args[1], c, st), self.isinstance_(x.args[2], c, st))
        t = self.type_of(x)
        if c.op == "cls":
            if isinstance(t, tuple) and t[0] == "inst":
                return K(t[1].issub(c.args[0]))
            if isinstance(t, tuple) and t[0] == "opq":
                if t[1].issub(c.args[0]):
                    return TRUE
                if not c.args[0].issub(t[1]):
                    # unrelated (single inheritance assumed)
                    return FALSE
                return self._fact(N("isinst", x, c), st)
            if t is not None and not (isinstance(t, tuple) and t[0] == "ext"):
                return FALSE
            foreign = isinstance(t, tuple) and t[0] == "ext" and "." in t[1] and not t[1].startswith("copy.") and t[1].split(".")[0] not in ("builtins", "abc", self.p.package)
            if foreign:
                return FALSE    # a library's object is no instance of a class of this package
            return self._fact(N("isinst", x, c), st)
        if c.op == "ext":
            nm = c.args[0].split(".")[-1]
            prim = {"int": "int", "float": "float", "str": "str", "bool": "bool", "list": "list", "dict": "dict",
                    "tuple": "tuple", "set": "set"}
            if nm in prim and c.args[0].startswith("builtins."):
                if t in ("int", "float", "str", "bool", "list", "dict", "tuple", "set", "none", "fn"):
                    return K(t == prim[nm] or (t == "bool" and nm == "int"))
                if isinstance(t, tuple) and t[0] in ("inst", "opq", "arr"):
                    return FALSE
                if t == ("list", None) or (isinstance(t, tuple) and t[0] == "list"):
                    return K(nm == "list")
            if nm == "ndarray" and isinstance(t, tuple) and t[0] == "arr":
                return TRUE
            if isinstance(t, tuple) and t[0] == "ext":
                if t[1].rstrip("()").split(".")[-1] == nm:
                    return TRUE
            if not c.args[0].startswith(("builtins.", "typing.", "collections.", "numbers.", "abc.", "types.")):
                if t in ("int", "float", "str", "bool", "list", "dict", "tuple", "set", "none"):
                    return FALSE    # a plain python value is no instance of a library class
                if isinstance(t, tuple) and (t[0] == "arr" and nm != "ndarray" or t[0] in ("inst", "opq") and not t[1].has_external_base()):
                    return FALSE
            return self._fact(N("isinst", x, c), st)
        return self._fact(N("isinst", x, c), st)

    @staticmethod
    def _fact(n, st):
        if n in st.facts:
            return K(st.facts[n])
        return n

    def deepcopy(self, v, st, e, deep=True, depth=0, memo=None):
        memo = {} if memo is None else memo
        if v.op in ("k", "func", "cls", "ext", "bm", "cmp", "not", "lv"):
            return v
        if v in memo:
            return memo[v]
        if v.op == "phi":
            return phi(v.args[0], self.deepcopy(v.args[1], st, e, deep, depth, memo),
                       self.deepcopy(v.args[2], st, e, deep, depth, memo))
        if v.op == "obj" and v.args[1] in ("list", "set", "dict"):
            c = st.heap.get((v, "#c"), N("top", "?"))
            o = N("obj", (id(e), "copy", depth, len(memo)) + self.ctx, v.args[1])
            memo[v] = o
            st.heap[(o, "#alive")] = TRUE
            st.heap[(o, "#c")] = self.deepcopy(c, st, e, deep, depth + 1, memo) if deep else c
            return o
        if v.op in ("listc", "tup"):
            return N(v.op, *[self.deepcopy(x, st, e, deep, depth + 1, memo) for x in v.args])
        if v.op == "dictc":
            return N("dictc", *[(k, self.deepcopy(x, st, e, deep, depth + 1, memo)) for k, x in v.args])
        t = self.known_class(v)
        if t is not None and t[0] == "inst":
            cls = t[1]
            m, c = cls.lookup("__deepcopy__" if deep else "__copy__")
            if isinstance(m, FuncInfo):
                dm = N("obj", (id(e), "memo") + self.ctx, "dict")
                st.heap[(dm, "#c")] = N("dictc")
                r = self.call_func(self.fv(m), [v] + ([dm] if deep else []), [], st, e, c)
                return r if r is not None else N("top", "copy")
            o = N("obj", (id(e), "copy", depth, len(memo)) + self.ctx, cls)
            memo[v] = o
            st.heap[(o, "#alive")] = TRUE
            if v.op != "obj" or (v, "#copyof") in st.heap:
                st.heap[(o, "#copyof")] = st.heap.get((v, "#copyof"), v)
            for (b, f), x in list(st.heap.items()):
                if b is v and not f.startswith("#"):
                    if x is UNBOUND:
                        st.heap[(o, f)] = x
                    else:
                        st.heap[(o, f)] = self.deepcopy(x, st, e, deep, depth + 1, memo) if deep else x
            return o
        if deep or v.op in ("sym", "attr", "call", "mc"):
            if v.op == "copy" and not self.storage:
                return v
            tt = self.type_of(v)
            if tt in ("int", "float", "num", "str", "bool", "fn"):
                return v
            if self.storage and deep and self.is_array(v):
                return self.stored(v, True)
            if tt is not None and isinstance(tt, tuple) and tt[0] in ("opq", "ext"):
                # opaque object: fields known in the heap travel with the copy
                n = N("copy", v) if deep else N("shallow", v)
                for (b, f), x in list(st.heap.items()):
                    if b is v:
                        st.heap[(n, f)] = self.deepcopy(x, st, e, deep, depth + 1, memo) if deep and tt[0] == "ext" else x
                return n
            return N("copy", v) if deep else N("shallow", v)
        return v

    def call_ext(self, f, pos, kw, st, e):
        d = dict(kw)
        if f in self.fhooks:
            r = self.fhooks[f](self, pos, kw, st, e)
            if r is not NotImplemented:
                return r
        if f.startswith("builtins."):
            r = self.call_builtin(f[9:], pos, d, st, e)
            if r is not NotImplemented:
                return r
        elif f in ("numpy.argmin", "numpy.argmax") and len(pos) == 1 and not kw:
            its = self.known_items(pos[0], st)
            if its:
                vs = [0] if len(its) == 1 and self.type_of(its[0]) in ("float", "int") else [self.const_of(x, st) for x in its]
                if all(isinstance(x, (int, float)) for x in vs):
                    return K(vs.index(min(vs) if f == "numpy.argmin" else max(vs)))
        elif f in ("copy.deepcopy", "copy.copy") and len(pos) >= 1:
            return self.deepcopy(pos[0], st, e, f == "copy.deepcopy")
        elif f == "functools.reduce" and len(pos) >= 2:
            its = self.known_items(pos[1], st)
            if its is not None:
                acc = pos[2] if len(pos) > 2 else None
                for k, x in enumerate(its):
                    if acc is None:
                        acc = x
                    else:
                        c0 = self.ctx
                        self.ctx = c0 + (("r", k),)
                        acc = self.call(pos[0], [acc, x], [], st, e)
                        self.ctx = c0
                        if acc is None:
                            return None
                return acc if acc is not None else N("top", "reduce of empty")
            c = self.content(pos[1], st)
            lv = N("lv", (id(e), "reduce") + self.ctx)
            init = pos[2] if len(pos) > 2 else N("firstof", c)
            mu = N("mu", lv, "reduce", init)
            self.lctx.append((lv, c))
            nxt = self.call(pos[0], [mu, self.generic_elem(c, lv, st)], [], st, e)
            self.lctx.pop()
            if nxt is None:
                return None
            self.loopinfo[lv] = {"iter": c, "mus": {mu: (init, nxt)}, "brk": FALSE}
            return N("fold", lv, c, mu, nxt, init, FALSE)
        elif f == "warnings.warn":
            return NONE
        elif f == "numpy.copyto" or f.startswith("numpy.random.") and f.split(".")[-1] == "shuffle":
            self.emit("mut", st, (pos[0], f + "()", NONE), e)
            new = pos[1] if f == "numpy.copyto" and len(pos) > 1 else N("mutated", pos[0], K(f))
            self.rebind(pos[0], new, st)
            return NONE
        elif f in ("numpy.issubdtype",) and len(pos) == 2:
            ty = pos[0]
            if ty.op == "typeof":
                t = self.type_of(ty.args[0])
                tgt = pos[1].args[0] if pos[1].op == "ext" else ""
                if ty.args[0].op in ("idx", "call", "mc") and t != "int" and not self.shape_of(ty.args[0]):
                    t = None         # an element or a library scalar
                if t in ("int", "float", "bool", "str", "none", "list", "tuple", "dict", "set", "fn", "type") or (isinstance(t, tuple)):
                    if tgt == "numpy.integer":
                        return K(t == "int")
        elif f in ("os.path.join",):
            pass
        if "out" in d:
            self.emit("mut", st, (d["out"], "out=", NONE), e)
        if f.split(".")[-1] in ("at", "put", "place", "putmask", "fill_diagonal") and f.startswith("numpy") and pos:
            self.emit("mut", st, (pos[0], f + "()", NONE), e)
            self.rebind(pos[0], N("mutated", pos[0], K(f)), st)
        a = tuple(self.frozen(x, st) for x in pos)
        k = tuple(sorted(((n, self.frozen(x, st)) for n, x in kw), key=lambda t: t[0]))
        if f in RNGS:
            seed = a[0] if a else d.get("seed")
            if f == "numpy.random.default_rng" and seed is not None and seed.op == "call" and seed.args[0].op == "ext" and seed.args[0].args[0] in RNGS:
                return seed
            if seed is None or is_k(seed, None):
                # fresh entropy: no two such generators agree
                i = st.heap.get((N("ext", "#entropy"), "#n"), K(0))
                st.heap[(N("ext", "#entropy"), "#n")] = K(i.args[0] + 1) if i.op == "k" else N("bin", "+", i, K(1))
                k = k + (("#id", i),)
            n = N("call", N("ext", f), a, k)
            if seed is not None and not a:
                n = N("call", N("ext", f), (seed,), ())
            st.heap[(n, "#draw")] = K(0)
            self.emit("call", st, n, e)
            return n
        if f in ("numpy.array", "numpy.asarray") and len(a) == 1 and a[0].op == "k" and not isinstance(a[0].args[0], (str, type(None))):
            pass
        n = N("call", N("ext", f), a, k)
        self.emit("call", st, n, e)
        if f == "numpy.reshape" and len(a) == 2 and self.misfit(a[0], a[1:], st, e):
            return None
        return n

    def misfit(self, src, target, st, e):
        """a reshape between known sizes that differ raises"""
        s = self.shape_of(src)
        if not s or not all(isinstance(x, int) for x in s) or not target:
            return False
        t = target[0].args if len(target) == 1 and target[0].op in ("tup", "listc") else target
        if not all(x.op == "k" and isinstance(x.args[0], int) for x in t):
            return False
        n = m = 1
        for x in s:
            n *= x
        t = [x.args[0] for x in t]
        for x in t:
            if x != -1:
                m *= x
        if n == m or (-1 in t and m and n % m == 0):
            return False
        self.emit("raise", st, "ValueError", e)
        self._raised(st, "ValueError")
        return True

    def by_identity(self, x, st):
        """is x a constant, or an object compared by identity"""
        if x.op == "k":
            return True
        t = self.type_of(x)
        return x.op == "obj" and isinstance(t, tuple) and t[0] == "inst" and t[1].lookup("__eq__")[0] is None \
            and not t[1].has_external_base()

    def call_builtin(self, f, pos, d, st, e):
        if f == "isinstance" and len(pos) == 2:
            return self.isinstance_(pos[0], pos[1], st)
        if f == "len" and pos:
            its = self.known_items(pos[0], st)
            if its is not None:
                return K(len(its))
            if pos[0].op == "obj" and pos[0].args[1] == "dict":
                c = st.heap.get((pos[0], "#c"))
                if c is not None and c.op == "dictc":
                    return N("len", dict_seq(c, [k for k, v in c.args])) if not dict_seq(c, ()).op == "listc" else K(len(c.args))
            c = self.content(pos[0], st)
            if c.op == "map" and is_k(c.args[3], True):
                return N("call", N("ext", "builtins.len"), (c.args[1],), ()) if c.args[1].op != "call" else N("len", c)
            s = self.shape_of(pos[0])
            if s is not None and s:
                return s[0] if isinstance(s[0], Node) else K(s[0])
            t = self.known_class(pos[0])
            if t and t[0] == "inst":
                m, c2 = t[1].lookup("__len__")
                if isinstance(m, FuncInfo):
                    return self.call_func(self.fv(m), [pos[0]], [], st, e, c2)
            return N("call", N("ext", "builtins.len"), (c,), ())
        if f == "hasattr" and len(pos) == 2 and pos[1].op == "k":
            nm = pos[1].args[0]
            x = self.simp(pos[0], st)
            t = self.type_of(x)
            if nm == "__iter__":
                if t in ("list", "tuple", "dict", "set", "str") or (isinstance(t, tuple) and t[0] in ("arr", "list")):
                    return TRUE
                if t in ("int", "float", "num", "none", "bool", "fn"):
                    return FALSE
            c = self.known_class(x)
            if c:
                m, _ = c[1].lookup(nm)
                if m is not None:
                    if isinstance(m, PropInfo) and c[0] == "inst" and x.op == "obj":
                        return TRUE
                    return TRUE
                if (x, nm) in st.heap:
                    return FALSE if st.heap[(x, nm)] is UNBOUND else TRUE
                if x.op == "obj" and (x, "#copyof") not in st.heap:
                    return FALSE
                if nm.startswith("__") and not c[1].has_external_base():
                    return FALSE
                if c[0] == "inst" and not c[1].has_external_base() and x.op == "sym" and not self._assigns_field(c[1], nm):
                    return FALSE
                if c[0] == "opq" and nm.startswith("__"):
                    return FALSE
            return N("hasattr", x, nm)
        if f == "getattr" and len(pos) >= 2 and pos[1].op == "k":
            if len(pos) == 3:
                h = self.call_builtin("hasattr", pos[:2], {}, st, e)
                if is_k(h, False):
                    return pos[2]
                v = self.get_attr(pos[0], pos[1].args[0], st, e)
                return phi(h, v, pos[2]) if v is not None else pos[2]
            return self.get_attr(pos[0], pos[1].args[0], st, e)
        if f == "setattr" and len(pos) == 3 and pos[1].op == "k":
            self.set_attr(pos[0], pos[1].args[0], pos[2], st, e)
            return NONE
        if f == "dict.fromkeys" and pos:
            its = self.known_items(pos[0], st)
            if its is None or not all(self.by_identity(x, st) for x in its):
                return NotImplemented
            o = self.alloc(e, "dict")
            st.heap[(o, "#alive")] = TRUE
            st.heap[(o, "#c")] = N("dictc", *[(x, pos[1] if len(pos) > 1 else NONE) for x in dict.fromkeys(its)])
            return o
        if f in ("list", "tuple", "set", "frozenset"):
            if not pos:
                return self.new_list(e, LISTC(), st, f if f in ("list", "set") else "list") if f != "tuple" else N("tup")
            if f in ("set", "frozenset") and "builtins.set" in self.fhooks:
                r = self.fhooks["builtins.set"](self, pos, kw, st, e)
                if r is not NotImplemented:
                    return r
            its = self.known_items(pos[0], st)
            if its is not None:
                if f == "tuple":
                    return N("tup", *its)
                if f == "set" and not all(self.by_identity(x, st) for x in its):
                    return self.new_list(e, N("setof", LISTC(*its)), st, "set")
                return self.new_list(e, LISTC(*(dict.fromkeys(its) if f == "set" else its)), st,
                                     "list" if f == "list" else "set")
            c = self.content(pos[0], st)
            if f in ("set", "frozenset"):
                return self.new_list(e, N("setof", c), st, "set")
            if f == "tuple":
                return c
            if c.op == "dictc":
                c = dict_seq(c, [k for k, _ in c.args])
            elif c.op == "call" and c.args[0].op == "ext" and c.args[0].args[0].startswith("builtins."):
                lv = N("lv", (id(e), "list") + self.ctx)
                c = N("map", lv, c, self.generic_elem(c, lv, st), TRUE)
            elif c.op == "sym" or c.op in ("copy", "attr"):
                pass
            return self.new_list(e, c, st)
        if f == "dict":
            items = []
            for x in pos:
                xc = st.heap.get((x, "#c")) if x.op == "obj" else None
                if xc is not None and xc.op == "dictc":
                    items = list(xc.args)
                elif self.known_items(x, st) is not None and all(t.op == "tup" and len(t.args) == 2 for t in self.known_items(x, st)):
                    items = list(dict_of((t.args[0], t.args[1]) for t in self.known_items(x, st)).args)
                else:
                    o = self.alloc(e, "dict")
                    st.heap[(o, "#alive")] = TRUE
                    st.heap[(o, "#c")] = xc if xc is not None and not d else N("dictmerge", self.frozen(x, st), N("dictc", *[(K(k), v) for k, v in d.items()]))
                    return o
            for k, v in d.items():
                items = [(a, b) for a, b in items if a is not K(k)] + [(K(k), v)]
            o = self.alloc(e, "dict")
            st.heap[(o, "#alive")] = TRUE
            st.heap[(o, "#c")] = N("dictc", *items)
            return o
        if f == "print":
            return NONE
        if f == "type" and len(pos) == 1:
            t = self.known_class(pos[0])
            if t and (t[0] == "inst" or not any(x is not t[1] and x.issub(t[1]) for x in self.p.classes())):
                return N("cls", t[1])
            return N("typeof", pos[0])
        if f == "map" and len(pos) >= 2:
            its = [self.known_items(x, st) for x in pos[1:]]
            if all(x is not None for x in its):
                out = []
                for k, t in enumerate(zip(*its)):
                    c0 = self.ctx
                    self.ctx = c0 + (("m", k),)
                    v = self.call(pos[0], list(t), [], st, e)
                    self.ctx = c0
                    if v is None:
                        return None
                    out.append(v)
                return LISTC(*out)
            cs = [self.content(x, st) for x in pos[1:]]
            lv = N("lv", (id(e), "map") + self.ctx)
            it = cs[0] if len(cs) == 1 else N("call", N("ext", "builtins.zip"), tuple(cs), ())
            self.lctx.append((lv, it))
            v = self.call(pos[0], [self.generic_elem(c, lv, st) for c in cs], [], st, e)
            self.lctx.pop()
            return None if v is None else N("map", lv, it, v, TRUE)
        if f == "filter" and len(pos) == 2:
            c = self.content(pos[1], st)
            lv = N("lv", (id(e), "filter") + self.ctx)
            el = self.generic_elem(c, lv, st)
            v = self.call(pos[0], [el], [], st, e) if not is_k(pos[0], None) else el
            return None if v is None else N("map", lv, c, el, self.truth(v, st))
        if f == "sorted" and pos:
            c = self.content(pos[0], st)
            kw = list(d.items())
            its = self.known_items(pos[0], st)
            if its is not None and all(x.op == "k" for x in its) and "key" not in d:
                try:
                    vs = sorted([x.args[0] for x in its], reverse=is_k(d.get("reverse", FALSE), True))
                    return self.new_list(e, LISTC(*[K(x) for x in vs]), st)
                except TypeError:
                    pass
            if its is not None and len(its) <= 1:
                return self.new_list(e, LISTC(*its), st)
            return self.new_list(e, self.mksorted(c, pos[0], kw, st, e), st)
        if f in ("any", "all") and len(pos) == 1:
            its = self.known_items(pos[0], st)
            if its is not None:
                ts = [self.truth(x, st) for x in its]
                return lor(*ts) if f == "any" else land(*ts)
            c = self.content(pos[0], st)
            if c.op == "map":
                lv, it, el, cond = c.args
                t = self.truth(el, State())
                if f == "any":
                    return N("exists", lv, it, land(cond, t))
                return lnot(N("exists", lv, it, land(cond, lnot(t))))
            return N("call", N("ext", "builtins." + f), (self.frozen(c, st),), ())
        if f == "bool" and len(pos) == 1:
            return self.truth(pos[0], st)
        if f in ("int", "float") and len(pos) == 1 and self.notnumber(self.simp(pos[0], st), st):
            return self.throw("ValueError" if pos[0].op == "k" and pos[0].args[0] is not None else "TypeError", st, e)
        if f in ("int", "float", "abs") and len(pos) == 1 and pos[0].op == "k":
            try:
                return K({"int": int, "float": float, "abs": abs}[f](pos[0].args[0]))
            except Exception:
                pass
        if f in ("min", "max") and pos:
            its = self.known_items(pos[0], st) if len(pos) == 1 else pos
            if its is not None and its and all(x.op == "k" for x in its) and not d:
                try:
                    return K((min if f == "min" else max)(x.args[0] for x in its))
                except Exception:
                    pass
            elif its and not d and len(its) == 1 and len(pos) == 1:
                return its[0]
            elif its and not d and len(its) <= 8:
                vs = [self.const_of(x, st) for x in its]
                if all(isinstance(x, (int, float)) for x in vs):
                    return K((min if f == "min" else max)(vs))
        if f in ("min", "max") and len(pos) == 1 and "key" in d and not is_k(d["key"], None) and "default" not in d:
            rev = TRUE if f == "max" else FALSE
            its = self.known_items(pos[0], st)
            if its is not None and len(its) == 1:
                return its[0]
            o = self.mksorted(self.content(pos[0], st), pos[0], [("key", d["key"]), ("reverse", rev)], st, e)
            return self.getitem(o, K(0), st, e)
        if f == "sum" and pos:
            its = self.known_items(pos[0], st)
            if its is not None and its:
                acc = pos[1] if len(pos) > 1 else K(0)
                for x in its:
                    acc = x if is_k(acc, 0) else self.binop("+", acc, x, st)
                return acc
        if f == "callable":
            t = self.type_of(pos[0]) if pos else None
            if t in ("fn", "type"):
                return TRUE
        if f == "next" and pos:
            return N("call", N("ext", "builtins.next"), tuple(self.frozen(x, st) for x in pos), ())
        if f == "reversed" and pos:
            its = self.known_items(pos[0], st)
            if its is not None:
                return LISTC(*reversed(its))
        if f == "slice":
            a = list(pos)
            if len(a) == 1:
                a = [NONE, a[0], NONE]
            while len(a) < 3:
                a.append(NONE)
            return N("slice", *a)
        return NotImplemented

    def _assigns_field(self, cls, nm):
        for c in cls.mro():
            for m in c.members.values():
                fs = [m] if isinstance(m, FuncInfo) else [m.getter, m.setter] if isinstance(m, PropInfo) else []
                for f in fs:
                    if f is None:
                        continue
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == nm:
                            return True
        return False


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return t
