"""Semantics of the numerical-library functions over abstract values."""
import math
from fractions import Fraction as Fr

from . import dom
from . import alg
from .alg import R0, R1, Rat, atom, radd, rmul, ratom, rconst, req
from .dom import (DD, ELLIPSIS, G, INF, NAN, NINF, Op, PI, Ref, Seq, Sl, Special, T, Unk, arr, band, bnot, bor, bvar, cint, concat,
                  dapply, det, ew, fatom, fp, getitem, inv, ite, leafeq, length, matmul, reduce_axis, reshape, row, rows, sabs, sadd,
                  scalar, scmp, sdiv, sdot, setitem, smul, sneg, sprod, ssqrt, ssub, ssum, transpose, truth, unwrap)

EPS = rconst(Fr(1, 2 ** 52))
CONST = {"numpy.pi": PI, "math.pi": PI, "numpy.inf": INF, "math.inf": INF, "numpy.Inf": INF, "numpy.nan": NAN, "math.nan": NAN,
         "numpy.newaxis": None, "numpy.e": dom.E_}

E = ew


def isdd(x):
    return isinstance(x, DD) and not x.sc


def dist(f):
    """distribute over gated aggregate arguments"""
    def g(*a, **k):
        ks = list(k)
        if any(isdd(x) for x in a) or any(isdd(k[q]) for q in ks):
            def h(*xs):
                return g(*xs[:len(a)], **dict(zip(ks, xs[len(a):])))
            return dapply(h, *(list(a) + [k[q] for q in ks]))
        return f(*a, **k)
    return g


# ---- comparisons and arithmetic ------------------------------------------

def compare(op, x, y):
    if isinstance(x, DD) and not x.sc or isinstance(y, DD) and not y.sc:
        return dapply(lambda p, q: compare(op, p, q), x, y)
    if op in ("is", "is not"):
        if isinstance(x, Unk) or isinstance(y, Unk):
            return Unk("is")
        if x is None or y is None:
            r = dapply(lambda p, q: dom.veq3(p, q), x, y)
        elif isinstance(x, bool) and isinstance(y, bool):
            r = x == y
        else:
            r = dom.veq3(x, y)
        return bnot(r) if op == "is not" else r
    if op in ("in", "not in"):
        rs = rows(y)
        if isinstance(y, str) and isinstance(x, str):
            r = x in y
        elif rs is None:
            r = bvar(("in", fp(x), fp(y)), "in") if "?" not in fp(x) + fp(y) else Unk("in")
        else:
            r = False
            for g, v in rs:
                r = bor(r, band(g, compare("==", x, v)))
        return bnot(r) if op == "not in" else r
    if isinstance(x, (T, G)) or isinstance(y, (T, G)):
        if x is None or y is None:
            return op == "!="
        if isinstance(x, str) or isinstance(y, str):
            return ew1(lambda a, b: scmp(op, a, b), x, y)
        return ew(lambda a, b: scmp(op, a, b), x, y)
    if isinstance(x, Seq) and isinstance(y, Seq) and op in ("==", "!="):
        if x.kind != y.kind:
            r = False
        elif x.kind == "glist":
            return Unk("compare lists")
        elif len(x.items) != len(y.items):
            r = False
        elif x.kind == "dict":
            r = True if fp(x) == fp(y) and "?" not in fp(x) else Unk("compare dicts")
        else:
            r = True
            for a, b in zip(x.items, y.items):
                r = band(r, truth(compare("==", a, b)))
        return bnot(r) if op == "!=" else r
    if isinstance(x, Seq) and isinstance(y, Seq) and op in ("<", "<=", ">", ">="):
        r = op in ("<=", ">=")
        for a, b in reversed(list(zip(x.items, y.items))):
            r = bor(scmp(op[0], a, b), band(scmp("==", a, b), r))
        return r
    if isinstance(x, Seq) or isinstance(y, Seq):
        if op in ("==", "!="):
            z = y if isinstance(x, Seq) else x
            if isinstance(z, DD):
                return dapply(lambda p, q: compare(op, p, q), x, y)
            if isinstance(z, (Rat, bool, str)) or z is None:
                return op == "!="
            r = bvar(("eq", fp(x), fp(y)), "eq") if "?" not in fp(x) + fp(y) else Unk("compare sequence")
            return bnot(r) if op == "!=" and not isinstance(r, Unk) else r
        return Unk("compare sequence")
    if isinstance(x, str) and isinstance(y, str) and op in ("<", "<=", ">", ">="):
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    return scmp(op, x, y)


def ew1(f, x, y):
    """elementwise where one side may be a non-numeric scalar"""
    if isinstance(x, (T, G)) and not isinstance(y, (T, G)):
        return map1(lambda a: f(a, y), x)
    if isinstance(y, (T, G)) and not isinstance(x, (T, G)):
        return map1(lambda b: f(x, b), y)
    return ew(f, x, y)


def map1(f, t):
    if isinstance(t, G):
        return G(t.guards, map1(f, t.t))
    return T(t.shape, [f(d) for d in t.data])


def inv1(x):
    def f(a):
        if isinstance(a, bool):
            return not a
        if isinstance(a, Rat):
            return ssub(sneg(a), R1)
        return Unk("~")
    return dapply(f, x)


def logic2(op):
    def g(a, b):
        def f(x, y):
            if isinstance(x, bool) and isinstance(y, bool):
                return {"&": x and y, "|": x or y, "^": x != y}[op]
            if isinstance(x, Rat) and isinstance(y, Rat) and x.const() is not None and y.const() is not None:
                p, q = int(x.const()), int(y.const())
                return rconst({"&": p & q, "|": p | q, "^": p ^ q}[op])
            if op == "&" and (x is False or y is False):
                return False
            if op == "|" and (x is True or y is True):
                return True
            return Unk(op)
        return dapply(f, a, b)
    return g


def lcat(a, b):
    if isinstance(a, DD) or isinstance(b, DD):
        return dapply(lcat, a, b)
    ra, rb = rows(a), rows(b)
    if ra is None or rb is None:
        return Unk("list concatenation")
    if all(g is True for g, _ in ra + rb):
        return Seq("tuple" if isinstance(a, Seq) and a.kind == "tuple" else "list", [x for _, x in ra + rb])
    return Seq("glist", ra + rb)


SOPS = {"+": sadd, "-": ssub, "*": smul, "/": sdiv, "**": dom.spow, "%": dom.smod, "//": dom.sfloordiv,
        "&": logic2("&"), "|": logic2("|"), "^": logic2("^")}


def binop(op, x, y):
    if isdd(x) or isdd(y):
        return dapply(lambda p, q: binop(op, p, q), x, y)
    if isinstance(x, Unk):
        return x
    if isinstance(y, Unk):
        return y
    if op == "@":
        return matmul2(x, y)
    if isinstance(x, str) or isinstance(y, str):
        if isinstance(x, str) and isinstance(y, str) and op == "+":
            return x + y
        return Op("str" + op, (x, y))
    if op == "+" and isinstance(x, Seq) and isinstance(y, Seq):
        return lcat(x, y)
    if op == "*" and isinstance(x, Seq) and cint(y) is not None and not isinstance(y, T):
        return Seq(x.kind, x.items * max(cint(y), 0))
    if op == "*" and isinstance(y, Seq) and cint(x) is not None and not isinstance(x, T):
        return Seq(y.kind, y.items * max(cint(x), 0))
    if isinstance(x, Seq) and x.kind == "rot" and isinstance(y, Seq) and y.kind == "rot" and op == "*":
        return Seq("rot", [matmul(x.items[0], y.items[0])])
    if isinstance(x, (Op, Ref)) or isinstance(y, (Op, Ref)) or x is None or y is None:
        return Op("bin" + op, (x, y))
    f = SOPS.get(op)
    if f is None:
        return Unk("operator " + op)
    if isinstance(x, T) and isinstance(y, T) and op in ("-", "+", "*") and (not x.data or not y.data):
        return ew(f, x, y)
    if op in ("+", "*") and any(isinstance(q, T) and q.shape for q in (x, y)):
        f = dom.blogic(f, dom.bor if op == "+" else dom.band)
    return ew(f, x, y)


def matmul2(x, y):
    x, y = arr(x), arr(y)
    if isinstance(x, Unk):
        return x
    if isinstance(y, Unk):
        return y
    if isinstance(x, T) and isinstance(y, T) and len(x.shape) > 2 and len(y.shape) > 2:
        sh = dom.bshape([x.shape[:-2], y.shape[:-2]])
        if sh is None:
            return Unk("matmul batch")
        a = T(sh + x.shape[-2:], dom.bcast_to(x, sh + x.shape[-2:]))
        b = T(sh + y.shape[-2:], dom.bcast_to(y, sh + y.shape[-2:]))
        n = dom.prod(sh)
        ka, kb = dom.prod(a.shape[-2:]), dom.prod(b.shape[-2:])
        out = []
        for i in range(n):
            m = matmul(T(a.shape[-2:], a.data[i * ka:(i + 1) * ka]), T(b.shape[-2:], b.data[i * kb:(i + 1) * kb]))
            if isinstance(m, Unk):
                return m
            out += m.data
        return T(sh + (x.shape[-2], y.shape[-1]), out)
    if isinstance(x, T) and isinstance(y, T) and len(x.shape) <= 2 and len(y.shape) > 2:
        n = dom.prod(y.shape[:-2])
        kb = dom.prod(y.shape[-2:])
        out, shp = [], None
        for i in range(n):
            m = arr(matmul(x, T(y.shape[-2:], y.data[i * kb:(i + 1) * kb])))
            if isinstance(m, Unk):
                return m
            shp = m.shape
            out += m.data
        return T(y.shape[:-2] + shp, out)
    return matmul(x, y)


@dist
def subscript(v, j):
    if isinstance(j, dom.SymSl):
        return norm_g(dom.slice_rows(v, j)) if isinstance(v, T) else Unk("symbolic slice")
    if isinstance(j, tuple) and j and isinstance(j[0], dom.SymSl):
        if not all(isinstance(x, Sl) and x.a is None and x.b is None and x.c is None for x in j[1:]) or not isinstance(v, T):
            return Unk("symbolic slice")
        return norm_g(dom.slice_rows(v, j[0]))
    if isinstance(j, tuple) and any(isdd(x) for x in j):
        return dapply(lambda *q: subscript(v, tuple(q)), *j)
    if isinstance(v, Seq) and v.kind not in ("dict", "glist") and isinstance(j, T) and j.shape == ():
        j = j.data[0]
    return getitem(v, j)


def nonempty(v):
    if isinstance(v, DD):
        return dapply(nonempty, v)
    rs = rows(v)
    if rs is None:
        if isinstance(v, Op) and "?" not in fp(v):
            return bvar(("nonempty", fp(v)), "nonempty")
        return Unk("emptiness")
    r = False
    for g, _ in rs:
        r = bor(r, g)
    return r


def sort_by(items, keys, rev):
    ks = []
    for k in keys:
        if isinstance(k, T) and len(k.data) == 1:
            k = k.data[0]
        c = k.const() if isinstance(k, Rat) else (k if isinstance(k, (str, bool)) else None)
        if isinstance(k, Seq) and all(isinstance(q, Rat) and q.const() is not None or isinstance(q, str) for q in k.items):
            c = tuple(q.const() if isinstance(q, Rat) else q for q in k.items)
        if c is None:
            return Op("sorted", (Seq("list", items), Seq("list", keys)))
        ks.append(c)
    try:
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev)
    except TypeError:
        return Unk("sort keys")
    return Seq("list", [items[i] for i in order])


def consts(t):
    """list of constants of a flat T or None"""
    out = []
    for d in t.data:
        if isinstance(d, bool):
            out.append(d)
        elif isinstance(d, Rat) and d.const() is not None:
            out.append(d.const())
        elif isinstance(d, str):
            out.append(d)
        else:
            return None
    return out


def tob(x):
    return dapply(lambda a: truth(a), x)


def axisof(a, k, pos=1, name="axis"):
    v = a[pos] if len(a) > pos else k.get(name)
    if v is None:
        return None
    if isinstance(v, Seq):
        return tuple(cint(i) for i in v.items)
    c = cint(v)
    if c is None:
        raise Bad("axis")
    return c


class Bad(Exception):
    pass


def need(x):
    t = arr(x)
    if isinstance(t, Unk):
        raise Bad(t.why)
    return t


def needT(x):
    t = need(x)
    if isinstance(t, G):
        raise Bad("selected rows")
    return t


def shapearg(v):
    if isinstance(v, Seq):
        s = [cint(x) for x in v.items]
    elif isinstance(v, T):
        s = [cint(x) for x in v.data]
    else:
        s = [cint(v)]
    if any(x is None for x in s):
        raise Bad("symbolic shape")
    return tuple(s)


def boolleaf(x):
    return isinstance(x, bool) or (isinstance(x, DD) and dom.boolish(x))


def sumnum(xs):
    return ssum(xs)


def rowred(f, gf):
    """reduction over axis for T, or along inner axes / guarded axis for G"""
    def g(a, k):
        t = need(a[0])
        ax = axisof(a, k)
        keep = cint(k.get("keepdims", R0)) or 0
        keep = bool(keep) or k.get("keepdims") is True
        if isinstance(t, G):
            nd = len(t.t.shape)
            if ax is not None and not isinstance(ax, tuple) and ax % nd != 0:
                r = reduce_axis(t.t, ax, f, keep)
                return r if isinstance(r, Unk) else G(t.guards, r)
            if ax is None:
                n = dom.prod(t.t.shape[1:])
                return gf([(t.guards[i // n], d) for i, d in enumerate(t.t.data)])
            if not isinstance(ax, tuple):
                n = dom.prod(t.t.shape[1:])
                cols = [gf([(t.guards[i], t.t.data[i * n + c]) for i in range(len(t.guards))]) for c in range(n)]
                return unwrap(T(t.t.shape[1:], cols))
            return Unk("reduction of selected rows")
        if not t.shape:
            return t.data[0] if ax is None or ax in (0, -1) else Unk("axis")
        return reduce_axis(t, ax, f, keep)
    return g


def gsum(ps):
    return ssum([ite(g, x, R0) for g, x in ps])


def gall(ps):
    r = True
    for g, x in ps:
        r = band(r, bor(bnot(g), tob(x)))
    return r


def gany(ps):
    r = False
    for g, x in ps:
        r = bor(r, band(g, tob(x)))
    return r


def gunk(ps):
    return Unk("reduction of selected rows")


def fmin(xs):
    if not xs:
        return Unk("min of empty")
    r = xs[0]
    for x in xs[1:]:
        r = smin2(r, x)
    return r


def fmax(xs):
    if not xs:
        return Unk("max of empty")
    r = xs[0]
    for x in xs[1:]:
        r = smax2(r, x)
    return r


def smin2(x, y):
    if x is INF or y is NINF:
        return y
    if y is INF or x is NINF:
        return x
    return dom.smin(x, y)


def smax2(x, y):
    if x is NINF or y is INF:
        return y
    if y is NINF or x is INF:
        return x
    return dom.smax(x, y)


def gmin(ps):
    r = INF
    for g, x in ps:
        r = dapply(smin2, r, ite(g, x, INF))
    return r


def gmax(ps):
    r = NINF
    for g, x in ps:
        r = dapply(smax2, r, ite(g, x, NINF))
    return r


def fall(xs):
    return gall([(True, x) for x in xs])


def fany(xs):
    return gany([(True, x) for x in xs])


def fmean(xs):
    return sdiv(ssum(xs), rconst(len(xs))) if xs else NAN


def argext(xs, better):
    """index of the extreme entry, first on ties"""
    bi, bv = R0, xs[0]
    for i, x in enumerate(xs[1:], 1):
        c = better(x, bv)
        bi, bv = ite(c, rconst(i), bi), ite(c, x, bv)
    return bi


def elementwise(f, n=1):
    def g(a, k):
        xs = a[:n]
        if any(isinstance(x, (Op, Ref)) or x is None for x in xs):
            raise Bad("operand")
        if "where" in k or len(a) > n:
            raise Bad("where/out")
        return ew(f, *xs)
    return g


def isinf(x):
    return dapply(lambda a: True if a in (INF, NINF) else (False if isinstance(a, (Rat, bool)) or a is NAN else Unk("isinf")), x)


def isnan(x):
    return dapply(lambda a: True if a is NAN else (False if isinstance(a, (Rat, bool)) or a in (INF, NINF) else Unk("isnan")), x)


def f_array(a, k):
    x = a[0]
    if isinstance(x, (T, G)):
        return f_astype_maybe(x, k.get("dtype") or (a[1] if len(a) > 1 else None))
    if isinstance(x, (Op,)):
        return Op("array", (x,))
    if isinstance(x, Seq) and x.kind in ("list", "tuple") and any(isinstance(i, (str, Ref, Op)) or i is None for i in x.items):
        return T((len(x.items),), x.items)
    if isinstance(x, Seq) and x.kind == "glist" and any(isinstance(i, (str, Ref, Op)) or i is None for _, i in x.items):
        return G([g for g, _ in x.items], T((len(x.items),), [i for _, i in x.items]))
    if isinstance(x, Seq) and x.kind in ("list", "tuple") and any(isdd(i) for i in x.items):
        return dapply(lambda *xs: f_array([Seq(x.kind, xs)] + a[1:], k), *x.items)
    r = need(x)
    return f_astype_maybe(r, k.get("dtype") or (a[1] if len(a) > 1 else None))


def is_int_dtype(d):
    return isinstance(d, Ref) and getattr(d.node, "op", "") == "ext" and any(
        d.node.args[0].endswith(s) for s in ("int", "int32", "int64", "integer", "int_", "intp", "uint8", "int8", "int16", "uint32")) \
        or isinstance(d, str) and d in ("int", "i", "i4", "i8", "int32", "int64")


def is_bool_dtype(d):
    return isinstance(d, Ref) and getattr(d.node, "op", "") == "ext" and d.node.args[0].split(".")[-1] in ("bool", "bool_") \
        or isinstance(d, str) and d in ("bool", "?")


def is_float_dtype(d):
    return isinstance(d, Ref) and getattr(d.node, "op", "") == "ext" and any(
        d.node.args[0].split(".")[-1].startswith(s) for s in ("float", "double")) or isinstance(d, str) and d.startswith("f")


def f_astype_maybe(t, d):
    if d is None:
        return t
    if is_int_dtype(d):
        return ew(lambda x: dapply(lambda q: dom.sfix(q) if isinstance(q, (Rat, bool)) else (q if isinstance(q, Unk) else Unk("int")), x), t)
    if is_bool_dtype(d):
        return ew(tob, t)
    if is_float_dtype(d):
        return ew(lambda x: dapply(lambda q: (R1 if q else R0) if isinstance(q, bool) else q, x), t)
    return t


def filled(v):
    def g(a, k):
        w = v is not R0 if is_bool_dtype(k.get("dtype") or (a[1] if len(a) > 1 else None)) else v
        return T(shapearg(a[0] if a else k["shape"]), [w] * dom.prod(shapearg(a[0] if a else k["shape"])))
    return g


def f_full(a, k):
    s = shapearg(a[0])
    v = a[1] if len(a) > 1 else k.get("fill_value")
    if is_bool_dtype(k.get("dtype") or (a[2] if len(a) > 2 else None)) and scalar(v):
        v = tob(v)
    return T(s, [v] * dom.prod(s)) if scalar(v) else Unk("full")


def f_like(v):
    def g(a, k):
        t = need(a[0])
        w = v is not R0 if is_bool_dtype(k.get("dtype") or (a[1] if len(a) > 1 else None)) else v
        return T(t.shape, [w] * len(t.data)) if isinstance(t, T) else G(t.guards, T(t.t.shape, [w] * len(t.t.data)))
    return g


def f_eye(a, k):
    n = cint(a[0])
    if n is None or len(a) > 1:
        raise Bad("eye")
    return T((n, n), [R1 if i == j else R0 for i in range(n) for j in range(n)])


def f_arange(a, k):
    c = [cint(x) for x in a]
    if any(x is None for x in c):
        raise Bad("symbolic arange")
    r = list(range(*c))
    return T((len(r),), [rconst(i) for i in r])


def f_linspace(a, k):
    n = cint(a[2] if len(a) > 2 else k.get("num", rconst(50)))
    if n is None or n > 200:
        raise Bad("linspace")
    ep = k.get("endpoint", True) is True
    d = n - 1 if ep else n
    return T((n,), [sadd(a[0], smul(ssub(a[1], a[0]), rconst(Fr(i, d) if d else 0))) for i in range(n)])


def f_dot(a, k):
    x, y = need(a[0]), need(a[1])
    if isinstance(x, T) and isinstance(y, T) and len(x.shape) > 1 and len(y.shape) > 2:
        raise Bad("dot ranks")
    return matmul(x, y)


def f_matmul(a, k):
    return matmul2(a[0], a[1])


def cross3(u, v):
    return [ssub(smul(u[1], v[2]), smul(u[2], v[1])), ssub(smul(u[2], v[0]), smul(u[0], v[2])), ssub(smul(u[0], v[1]), smul(u[1], v[0]))]


def move_last(t, ax):
    n = len(t.shape)
    return transpose(t, [i for i in range(n) if i != ax % n] + [ax % n])


def f_cross(a, k):
    x, y = needT(a[0]), needT(a[1])
    if set(k) - {"axis", "axisa", "axisb", "axisc"}:
        raise Bad("cross options")
    ax = k.get("axis")
    axes = [cint(k.get(n, rconst(-1)) if ax is None else ax) for n in ("axisa", "axisb", "axisc")]
    if any(i is None for i in axes):
        raise Bad("cross axis")
    if any(i != -1 for i in axes) and (len(x.shape) > 1 or len(y.shape) > 1):
        x, y = move_last(x, axes[0]), move_last(y, axes[1])
        r = f_cross([x, y], {})
        i = axes[2] % len(r.shape)
        o = list(range(len(r.shape) - 1))
        o.insert(i, len(r.shape) - 1)
        return transpose(r, o)
    if not x.shape or not y.shape or x.shape[-1] != 3 or y.shape[-1] != 3:
        raise Bad("cross")
    sh = dom.bshape([x.shape, y.shape])
    if sh is None:
        raise Bad("cross shapes")
    p, q = dom.bcast_to(x, sh), dom.bcast_to(y, sh)
    out = []
    for i in range(0, len(p), 3):
        out += cross3(p[i:i + 3], q[i:i + 3])
    return T(sh, out)


def f_outer(a, k):
    x, y = need(a[0]), needT(a[1])
    if isinstance(x, G):
        if len(x.t.shape) != 1:
            raise Bad("outer")
        return G(x.guards, T((len(x.guards), len(y.data)), [smul(p, q) for p in x.t.data for q in y.data]))
    return T((len(x.data), len(y.data)), [smul(p, q) for p in x.data for q in y.data])


def f_mouter(a, k):
    x, y = need(a[0]), needT(a[1])
    if isinstance(x, G):
        return G(x.guards, T(x.t.shape + y.shape, [smul(p, q) for p in x.t.data for q in y.data]))
    return unwrap(T(x.shape + y.shape, [smul(p, q) for p in x.data for q in y.data]))


def f_inner(a, k):
    x, y = need(a[0]), needT(a[1])
    return matmul(x, transpose(y)) if len(y.shape) > 1 else matmul(x, y)


def f_vdot(a, k):
    return sdot(needT(a[0]).data, needT(a[1]).data)


def f_tensordot(a, k):
    x, y = need(a[0]), needT(a[1])
    ax = a[2] if len(a) > 2 else k.get("axes", rconst(2))
    if cint(ax) == 1:
        return matmul(x, y)
    if cint(ax) == 0:
        return f_mouter(a, k)
    raise Bad("tensordot")


def f_einsum(a, k):
    sub = a[0]
    ops = [need(x) for x in a[1:]]
    if not isinstance(sub, str) or "..." in sub:
        raise Bad("einsum")
    sub = sub.replace(" ", "")
    ins, _, out = sub.partition("->")
    ins = ins.split(",")
    if "->" not in sub:
        letters = sorted(set("".join(ins)))
        out = "".join(c for c in letters if "".join(ins).count(c) == 1)
    guards = None
    gl = None
    ts = []
    for o, s in zip(ops, ins):
        if isinstance(o, G):
            if guards is not None and (gl != s[0] or not all(leafeq(p, q) for p, q in zip(guards, o.guards))):
                raise Bad("einsum guards")
            guards, gl = o.guards, s[0]
            o = o.t
        if len(s) != len(o.shape):
            raise Bad("einsum rank")
        ts.append(o)
    if gl is not None and (not out or out[0] != gl or out.count(gl) != 1):
        raise Bad("einsum guard axis")
    dims = {}
    for s, t in zip(ins, ts):
        for c, d in zip(s, t.shape):
            if dims.setdefault(c, d) != d:
                raise Bad("einsum dims")
    red = [c for c in dims if c not in out]

    def assigns(letters):
        res = [{}]
        for c in letters:
            res = [dict(r, **{c: i}) for r in res for i in range(dims[c])]
        return res
    data = []
    sts = [dom.strides(t.shape) for t in ts]
    for o in assigns(out):
        acc = R0
        for r in assigns(red):
            m = dict(o, **r)
            v = R1
            for s, t, st in zip(ins, ts, sts):
                v = smul(v, t.data[sum(m[c] * q for c, q in zip(s, st))])
            acc = sadd(acc, v)
        data.append(acc)
    r = T([dims[c] for c in out], data)
    if guards is not None:
        return G(guards, r)
    return unwrap(r)


def f_norm(a, k):
    t = need(a[0])
    o = a[1] if len(a) > 1 else k.get("ord")
    if o is not None and cint(o) not in (1, 2) and o is not INF:
        raise Bad("norm order")
    if o is not None and isinstance(t, T) and len(t.shape) == 2 and axisof(a, k, 2) is None:
        raise Bad("matrix norm")
    if cint(o) == 1 if o is not None else False:
        return rowred(lambda xs: ssum([sabs(x) for x in xs]), gunk)([t], {x: k[x] for x in k if x in ("axis", "keepdims")})
    if o is INF:
        return rowred(lambda xs: fmax([sabs(x) for x in xs]), gunk)([t], {x: k[x] for x in k if x in ("axis", "keepdims")})
    kk = {x: k[x] for x in k if x in ("axis", "keepdims")}
    if len(a) > 2:
        kk["axis"] = a[2]
    return rowred(lambda xs: ssqrt(sdot(xs, xs)), lambda ps: ssqrt(gsum([(g, smul(x, x)) for g, x in ps])))([t], kk)


def sq(t):
    if not isinstance(t, T) or len(t.shape) != 2 or t.shape[0] != t.shape[1]:
        raise Bad("square matrix")
    return t


def f_inv(a, k):
    return inv(sq(needT(a[0])))


def f_det(a, k):
    t = needT(a[0])
    if len(t.shape) == 3 and t.shape[1] == t.shape[2]:
        return T((t.shape[0],), [det(row(t, i)) for i in range(t.shape[0])])
    return det(sq(t))


def f_solve(a, k):
    x, y = sq(needT(a[0])), need(a[1])
    if isinstance(y, G):
        raise Bad("solve")
    return matmul(inv(x), y)


def f_transpose(a, k):
    t = need(a[0])
    ax = a[1] if len(a) > 1 else k.get("axes")
    return transpose(t) if ax is None else transpose(needT(t), shapearg(ax))


def f_swapaxes(a, k):
    t = needT(a[0])
    i, j = cint(a[1]), cint(a[2])
    ax = list(range(len(t.shape)))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(t, ax)


def f_reshape(a, k):
    t = need(a[0])
    if len(a) < 2 and "newshape" not in k and "shape" not in k:
        raise Bad("reshape")
    s = a[1] if len(a) > 1 else k.get("newshape", k.get("shape"))
    s = shapearg(s)
    if isinstance(t, G):
        sh = t.t.shape
        if len(s) >= 1 and s[0] == -1:
            tail = dom.prod(s[1:])
            n = dom.prod(sh[1:])
            if tail == n:
                return G(t.guards, T((len(t.guards),) + s[1:], t.t.data))
            if n % tail == 0:
                m = n // tail
                return G([g for g in t.guards for _ in range(m)], T((len(t.guards) * m,) + s[1:], t.t.data))
        raise Bad("reshape of selected rows")
    o = k.get("order", a[2] if len(a) > 2 else "C")
    if o == "F":
        n = len(s)
        x = reshape(transpose(t, list(range(len(t.shape)))[::-1]), tuple(s)[::-1])
        return transpose(x, list(range(n))[::-1])
    if o != "C":
        raise Bad("order")
    return reshape(t, s)


def f_ravel(a, k):
    t = need(a[0])
    if isinstance(t, G):
        return f_reshape([t, rconst(-1)], {})
    o = a[1] if len(a) > 1 else k.get("order", "C")
    if o == "F":
        t = transpose(t, list(range(len(t.shape)))[::-1])
    elif o not in ("C", "K", "A"):
        raise Bad("order")
    return T((len(t.data),), t.data)


def f_squeeze(a, k):
    t = need(a[0])
    ax = axisof(a, k)
    if isinstance(t, G):
        sh = t.t.shape
        keep = [d for i, d in enumerate(sh) if i == 0 or d != 1]
        return G(t.guards, T(keep, t.t.data))
    if ax is None:
        return unwrap(T([d for d in t.shape if d != 1], t.data))
    axs = [x % len(t.shape) for x in (ax if isinstance(ax, tuple) else (ax,))]
    return unwrap(T([d for i, d in enumerate(t.shape) if i not in axs], t.data))


def f_expand(a, k):
    t = need(a[0])
    ax = axisof(a, k)
    if isinstance(ax, tuple):
        raise Bad("axis tuple")
    if isinstance(t, G):
        n = len(t.t.shape) + 1
        ax %= n
        if ax == 0:
            raise Bad("expand selected rows")
        s = list(t.t.shape)
        s.insert(ax, 1)
        return G(t.guards, T(s, t.t.data))
    n = len(t.shape) + 1
    s = list(t.shape)
    s.insert(ax % n, 1)
    return T(s, t.data)


def f_atleast(d):
    def g(a, k):
        t = needT(a[0])
        s = t.shape
        while len(s) < d:
            s = (1,) + s
        return T(s, t.data)
    return g


def seqitems(x):
    if isinstance(x, (T, G)):
        rs = rows(x)
    else:
        rs = rows(x)
    if rs is None or not all(g is True for g, _ in rs):
        raise Bad("sequence of arrays")
    out = []
    for _, v in rs:
        t = arr(v)
        if isinstance(t, Unk):
            if isinstance(v, Seq) and v.kind in ("list", "tuple"):
                t = T((len(v.items),), v.items)
            else:
                raise Bad(t.why)
        out.append(t)
    return out


def f_concat(a, k):
    ax = axisof(a, k)
    if ax is None and ("axis" in k or len(a) > 1):
        return concat([f_ravel([x], {}) for x in seqitems(a[0])], 0)
    return concat(seqitems(a[0]), 0 if ax is None else ax)


def f_vstack(a, k):
    rs = rows(a[0])
    if rs is not None and any(g is not True for g, _ in rs):
        t = arr(a[0])
        if isinstance(t, G) and len(t.t.shape) == 2:
            return t
        if isinstance(t, G) and len(t.t.shape) == 3:
            return f_reshape([t, Seq("tuple", [rconst(-1), rconst(t.t.shape[2])])], {})
    its = seqitems(a[0])
    its = [T((1,) * (2 - len(t.shape)) + t.shape, t.data) if isinstance(t, T) and len(t.shape) < 2 else t for t in its]
    return concat(its, 0)


def f_hstack(a, k):
    rs = rows(a[0])
    if rs is not None and any(g is not True for g, _ in rs):
        t = arr(a[0])
        if isinstance(t, G) and len(t.t.shape) == 2:
            return f_reshape([t, rconst(-1)], {})
    its = seqitems(a[0])
    its = [T((1,), t.data) if isinstance(t, T) and not t.shape else t for t in its]
    one = all(len(t.shape if isinstance(t, T) else t.t.shape) == 1 for t in its)
    if not one and any(isinstance(t, G) for t in its):
        g0 = next(t for t in its if isinstance(t, G))
        if all(isinstance(t, G) and len(t.guards) == len(g0.guards) and all(leafeq(p, q) for p, q in zip(t.guards, g0.guards)) for t in its):
            r = concat([t.t for t in its], 1)
            return r if isinstance(r, Unk) else G(g0.guards, r)
        raise Bad("hstack selected rows")
    return concat(its, 0 if one else 1)


def f_stack(a, k):
    its = seqitems(a[0])
    ax = axisof(a, k)
    ax = 0 if ax is None else ax
    if any(isinstance(t, G) for t in its):
        raise Bad("stack selected rows")
    n = len(its[0].shape) + 1
    return concat([f_expand([t, rconst(ax % n)], {}) for t in its], ax % n)


def f_dstack(a, k):
    its = seqitems(a[0])
    o = []
    for t in its:
        if isinstance(t, G):
            raise Bad("dstack")
        if len(t.shape) == 1:
            t = T((1,) + t.shape + (1,), t.data)
        elif len(t.shape) == 2:
            t = T(t.shape + (1,), t.data)
        o.append(t)
    return concat(o, 2)


def f_colstack(a, k):
    its = [T(t.shape + (1,), t.data) if isinstance(t, T) and len(t.shape) == 1 else t for t in seqitems(a[0])]
    return concat(its, 1)


def f_append(a, k):
    ax = axisof(a, k, 2)
    x, y = need(a[0]), need(a[1])
    if ax is None:
        return concat([f_ravel([x], {}), f_ravel([y], {})], 0)
    return concat([x, y], ax)


def f_tile(a, k):
    t = needT(a[0])
    r = shapearg(a[1])
    s = t.shape
    while len(s) < len(r):
        s = (1,) + s
    while len(r) < len(s):
        r = (1,) + r
    t = T(s, t.data)
    for ax, m in enumerate(r):
        t = concat([t] * m, ax) if m else t
    return t


def f_repeat(a, k):
    t = need(a[0])
    n = cint(a[1] if len(a) > 1 else k["repeats"])
    ax = axisof(a, k, 2)
    if n is None:
        raise Bad("repeat")
    if isinstance(t, G):
        if ax not in (None, 0) or (ax is None and len(t.t.shape) > 1):
            raise Bad("repeat rows")
        w = dom.prod(t.t.shape[1:])
        return G([g for g in t.guards for _ in range(n)],
                 T((len(t.guards) * n,) + t.t.shape[1:], [d for i in range(len(t.guards)) for _ in range(n) for d in t.t.data[i * w:(i + 1) * w]]))
    if ax is None:
        return T((len(t.data) * n,), [d for d in t.data for _ in range(n)])
    return getitem(t, tuple([Sl(None, None, None)] * (ax % len(t.shape)) + [T((t.shape[ax] * n,), [rconst(i) for i in range(t.shape[ax]) for _ in range(n)])]))


def f_where(a, k):
    if len(a) == 1:
        return f_nonzero(a, k)
    c = a[0]
    return ew(lambda q, x, y: ite(tob(q), x, y), c, a[1], a[2])


def f_nonzero(a, k):
    t = need(a[0])
    if isinstance(t, G):
        raise Bad("nonzero of selected rows")
    if len(t.shape) != 1:
        cs = [tob(x) for x in t.data]
        if all(isinstance(c, bool) for c in cs):
            st = dom.strides(t.shape)
            ii = [i for i, c in enumerate(cs) if c]
            return Seq("tuple", [T((len(ii),), [rconst(i // s % d) for i in ii]) for s, d in zip(st, t.shape)])
        st = dom.strides(t.shape)
        return Seq("tuple", [G(cs, T((len(cs),), [rconst(i // s % d) for i in range(len(cs))])) for s, d in zip(st, t.shape)])
    cs = [tob(x) for x in t.data]
    return Seq("tuple", [norm_g(G(cs, T((len(cs),), [rconst(i) for i in range(len(cs))])))])


def norm_g(g):
    from .ev import norm
    return norm(g)


def f_argwhere(a, k):
    r = f_nonzero(a, k)
    if len(r.items) == 1:
        x = r.items[0]
        return T((x.shape[0], 1), x.data) if isinstance(x, T) else G(x.guards, T((len(x.guards), 1), x.t.data))
    if all(isinstance(x, T) for x in r.items):
        return f_stack([Seq("list", r.items)], {"axis": rconst(1)})
    raise Bad("argwhere")


def f_flatnonzero(a, k):
    return f_nonzero([f_ravel([a[0]], {})], {}).items[0]


def f_count(a, k):
    if axisof(a, k) is not None:
        raise Bad("count axis")
    t = need(a[0])
    if isinstance(t, G):
        return gsum([(g, ite(tob(d), R1, R0)) for g, d in zip(t.guards, t.t.data)])
    return ssum([ite(tob(d), R1, R0) for d in t.data])


def f_isin(a, k):
    x, y = need(a[0]), need(a[1])
    ys = list(zip(y.guards, y.t.data)) if isinstance(y, G) else [(True, d) for d in y.data]

    def one(d):
        r = False
        for g, e in ys:
            r = bor(r, band(g, scmp("==", d, e)))
        return bnot(r) if k.get("invert") is True else r
    if isinstance(x, G):
        return G(x.guards, T(x.t.shape, [one(d) for d in x.t.data]))
    return T(x.shape, [one(d) for d in x.data])


def setop(f):
    def g(a, k):
        x, y = consts(needT(a[0])), consts(needT(a[1]))
        if x is None or y is None:
            raise Bad("set operation on symbolic values")
        v = sorted(f(set(x), set(y)))
        return T((len(v),), [q if isinstance(q, (str, bool)) else rconst(q) for q in v])
    return g


def f_clip(a, k):
    lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
    hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
    x = a[0]
    if lo is not None:
        x = ew(smax2d, x, lo)
    if hi is not None:
        x = ew(smin2d, x, hi)
    return x


def smax2d(x, y):
    return dapply(smax2, x, y)


def smin2d(x, y):
    return dapply(smin2, x, y)


def f_unique(a, k):
    t = needT(a[0])
    ax = axisof(a, k, 4)
    if ax is not None:
        raise Bad("unique axis")
    c = consts(t)
    if c is None:
        raise Bad("unique of symbolic values")
    vals = sorted(set(c))
    first = [c.index(v) for v in vals]
    inv_ = [vals.index(x) for x in c]
    cnt = [c.count(v) for v in vals]
    wrap = lambda q: q if isinstance(q, (str, bool)) else rconst(q)
    out = [T((len(vals),), [wrap(v) for v in vals])]
    flags = [a[i] if len(a) > i else k.get(nm, False) for i, nm in ((1, "return_index"), (2, "return_inverse"), (3, "return_counts"))]
    for fl, v in zip(flags, (first, inv_, cnt)):
        if fl is True:
            out.append(T((len(v),), [rconst(i) for i in v]))
        elif fl is not False and not (isinstance(fl, Rat) and fl.is0()):
            raise Bad("unique flags")
    return out[0] if len(out) == 1 else Seq("tuple", out)


def order_stats(xs):
    """the sorted values of unknown numbers"""
    if not xs or not all(isinstance(x, Rat) for x in xs):
        raise Bad("sort of symbolic values")
    ii = all(alg.isint(x) for x in xs)
    canon = sorted(xs, key=fp)
    return [fatom("order", [rconst(i)] + canon, lambda s, i=i: sorted(s.rat(x) for x in canon)[i], isint=ii) for i in range(len(xs))]


def f_resize(a, k):
    t = needT(a[0])
    r = shapearg(a[1])
    n = 1
    for x in r:
        n *= x
    if not t.data:
        return T(r, [R0] * n)
    return T(r, [t.data[i % len(t.data)] for i in range(n)])


def f_gcd(f):
    def g(x, y):
        p, q = x.const(), y.const()
        if p is None or q is None or p != int(p) or q != int(q):
            raise Bad("gcd of symbolic values")
        return rconst(f(int(p), int(q)))
    return elementwise(g, 2)


def f_gcdred(f):
    def g(a, k):
        c = consts(needT(a[0]))
        if c is None or len(needT(a[0]).shape) != 1:
            raise Bad("gcd of symbolic values")
        return rconst(f(*[int(x) for x in c]))
    return g


def f_sort(a, k):
    t = needT(a[0])
    c = consts(t)
    if c is None and len(t.shape) == 1:
        return T(t.shape, order_stats(list(t.data)))
    if c is None or len(t.shape) != 1:
        raise Bad("sort of symbolic values")
    return T(t.shape, [x if isinstance(x, (str, bool)) else rconst(x) for x in sorted(c)])


def f_argsort(a, k):
    t = needT(a[0])
    c = consts(t)
    if c is None or len(t.shape) != 1:
        raise Bad("argsort of symbolic values")
    o = sorted(range(len(c)), key=lambda i: c[i])
    return T(t.shape, [rconst(i) for i in o])


def f_lexsort(a, k):
    raise Bad("lexsort")


def f_argmin(a, k):
    return _argx(a, k, lambda x, y: scmp("<", x, y))


def f_argmax(a, k):
    return _argx(a, k, lambda x, y: band(tob(x), bnot(tob(y))) if boolleaf(x) and boolleaf(y) else scmp(">", x, y))


def _argx(a, k, better):
    t = needT(a[0])
    ax = axisof(a, k)
    return reduce_axis(t if ax is not None else T((len(t.data),), t.data), 0 if ax is None else ax, lambda xs: argext(xs, better))


def f_searchsorted(a, k):
    t = needT(a[0])
    side = a[2] if len(a) > 2 else k.get("side", "left")

    def one(v):
        r = R0
        for d in t.data:
            r = sadd(r, ite(scmp("<" if side == "left" else "<=", d, v), R1, R0))
        return r
    return ew(one, a[1])


def f_cumsum(a, k):
    t = needT(a[0])
    ax = axisof(a, k)
    if ax is None or len(t.shape) == 1:
        out, s = [], R0
        for d in t.data:
            s = sadd(s, d)
            out.append(s)
        return T((len(out),), out)
    if ax % len(t.shape) == 0:
        n = dom.prod(t.shape[1:])
        out, s = [], [R0] * n
        for i in range(t.shape[0]):
            s = [sadd(p, q) for p, q in zip(s, t.data[i * n:(i + 1) * n])]
            out += s
        return T(t.shape, out)
    raise Bad("cumsum axis")


def f_diff(a, k):
    t = needT(a[0])
    if len(t.shape) == 2 and k.get("n") is None and len(a) < 2:
        ax = cint(k["axis"]) if "axis" in k else 1
        if ax in (0, -2):
            n, m = t.shape
            return T((max(n - 1, 0), m), [ssub(q, p) for p, q in zip(t.data, t.data[m:])])
        n, m = t.shape
        return T((n, max(m - 1, 0)), [ssub(t.data[i * m + j + 1], t.data[i * m + j]) for i in range(n) for j in range(m - 1)])
    if len(t.shape) != 1 or len(a) > 1 or k.get("n") is not None:
        raise Bad("diff")
    return T((max(len(t.data) - 1, 0),), [ssub(q, p) for p, q in zip(t.data, t.data[1:])])


def f_delete(a, k):
    t = need(a[0])
    ax = axisof(a, k, 2)
    if isinstance(t, G):
        raise Bad("delete")
    if ax is None:
        t = T((len(t.data),), t.data)
        ax = 0
    ix = a[1]
    n = t.shape[ax]
    if isinstance(ix, Sl):
        ids = set(range(*slice(ix.a, ix.b, ix.c).indices(n)))
    else:
        x = arr(ix)
        if isinstance(x, G) and ax == 0:
            # guarded index list: a row goes when some live index names it
            ids = [cint(d) for d in x.t.data]
            if any(i is None for i in ids):
                raise Bad("delete index")
            gs = []
            for r in range(n):
                g = False
                for gg, i in zip(x.guards, ids):
                    if i % n == r:
                        g = bor(g, gg)
                gs.append(bnot(g))
            return norm_g(G(gs, t))
        if isinstance(x, Unk):
            raise Bad(x.why)
        if x.data and all(boolleaf(d) for d in x.data) and ax == 0 and len(x.data) == n:
            return norm_g(G([bnot(d) for d in x.data], t))
        ids = [cint(d) for d in x.data]
        if any(i is None for i in ids):
            raise Bad("delete index")
        if any(not -n <= i < n for i in ids):
            return Unk("delete out of range")
        ids = {i % n for i in ids}
    keep = T((n - len(ids),), [rconst(i) for i in range(n) if i not in ids])
    return getitem(t, tuple([Sl(None, None, None)] * (ax % len(t.shape)) + [keep]))


def f_roll(a, k):
    t = needT(a[0])
    n = cint(a[1])
    ax = axisof(a, k, 2)
    if n is None or (ax is None and len(t.shape) != 1) or ax not in (None, 0):
        raise Bad("roll")
    m = t.shape[0]
    return getitem(t, T((m,), [rconst((i - n) % m) for i in range(m)]))


def f_allclose(a, k):
    rt = k.get("rtol", a[2] if len(a) > 2 else rconst(Fr(1, 10 ** 5)))
    at = k.get("atol", a[3] if len(a) > 3 else rconst(Fr(1, 10 ** 8)))
    r = ew(lambda x, y: scmp("<=", sabs(ssub(x, y)), sadd(at, smul(rt, sabs(y)))), a[0], a[1])
    return r


def f_finfo(a, k):
    return Op("finfo", tuple(a))


def f_meshgrid(a, k):
    ts = [needT(x) for x in a]
    if any(len(t.shape) != 1 for t in ts):
        raise Bad("meshgrid")
    if k.get("indexing", "xy") != "ij":
        raise Bad("meshgrid xy")
    sh = tuple(t.shape[0] for t in ts)
    st = dom.strides(sh)
    n = dom.prod(sh)
    return Seq("list", [T(sh, [t.data[i // s % d] for i in range(n)]) for t, s, d in zip(ts, st, sh)])


def f_ix(a, k):
    raise Bad("ix_")


def f_int(a, k):
    return dapply(lambda x: dom.sfix(x) if isinstance(x, (Rat, bool)) else (Op("int", (x,)) if not isinstance(x, Unk) else x), scal(a[0]))


def f_float(a, k):
    x = scal(a[0])
    if isinstance(x, str):
        return INF if x in ("inf", "Infinity") else Op("float", (x,))
    return dapply(lambda q: (R1 if q else R0) if isinstance(q, bool) else (q if isinstance(q, (Rat, Special, Unk)) else Op("float", (q,))), x)


def scal(x):
    if isinstance(x, T) and len(x.data) == 1:
        return x.data[0]
    return x


def f_list(a, k):
    if not a:
        return Seq("list", [])
    rs = rows(a[0])
    if rs is None:
        raise Bad("list of unknown")
    if all(g is True for g, _ in rs):
        return Seq("list", [x for _, x in rs])
    return Seq("glist", rs)


def f_tuple(a, k):
    r = f_list(a, k)
    return Seq("tuple", r.items) if r.kind == "list" else r


def f_len(a, k):
    r = length(a[0])
    if isinstance(r, Unk):
        raise Bad("len")
    return r


def f_range(a, k):
    c = [cint(x) for x in a]
    if any(x is None for x in c):
        raise Bad("symbolic range")
    return Seq("list", [rconst(i) for i in range(*c)])


def f_sumb(a, k):
    if isinstance(a[0], (T, G)) or (isinstance(a[0], Seq) and all(scalar(x) for x in a[0].items)):
        t = need(a[0])
        r = rowred(ssum, gsum)([t, R0], {})
        return sadd(r, a[1]) if len(a) > 1 else r
    rs = rows(a[0])
    if rs is None or not all(g is True for g, _ in rs):
        raise Bad("sum")
    acc = a[1] if len(a) > 1 else R0
    for _, x in rs:
        acc = binop("+", acc, x)
    return acc


def f_minb(f, g):
    def h(a, k):
        if len(a) == 1:
            rs = rows(a[0])
            if rs is None:
                raise Bad("min/max")
            if k:
                raise Bad("min/max key")
            if all(q is True for q, _ in rs):
                return f([x for _, x in rs])
            return g(rs)
        return f(list(a))
    return h


def f_sortedb(a, k):
    rs = rows(a[0])
    if rs is None or k.get("key") is not None or not all(g is True for g, _ in rs):
        raise Bad("sorted")
    return sort_by([x for _, x in rs], [x for _, x in rs], k.get("reverse") is True)


def f_zip(a, k):
    rs = [rows(x) for x in a]
    if any(r is None for r in rs):
        raise Bad("zip")
    if not all(g is True for r in rs for g, _ in r):
        raise Bad("zip of selected rows")
    n = min(len(r) for r in rs)
    return Seq("list", [Seq("tuple", [r[i][1] for r in rs]) for i in range(n)])


def f_enumerate(a, k):
    rs = rows(a[0])
    if rs is None or not all(g is True for g, _ in rs):
        raise Bad("enumerate")
    s = cint(a[1]) if len(a) > 1 else 0
    return Seq("list", [Seq("tuple", [rconst(i + s), x]) for i, (_, x) in enumerate(rs)])


def f_reversed(a, k):
    rs = rows(a[0])
    if rs is None or not all(g is True for g, _ in rs):
        raise Bad("reversed")
    return Seq("list", [x for _, x in reversed(rs)])


def f_anyall(f):
    def g(a, k):
        rs = rows(a[0])
        if rs is None:
            raise Bad("any/all")
        return f([(q, truth(x)) for q, x in rs])
    return g


def f_roundb(a, k):
    if len(a) > 1 or "decimals" in k:
        d = a[1] if len(a) > 1 else k["decimals"]
        c = cint(d)
        if c is None:
            raise Bad("round digits")
        s = rconst(Fr(10) ** c)
        return ew(lambda x: sdiv(dom.sround(smul(x, s)), s), a[0])
    return ew(dom.sround, a[0])


def f_set(a, k):
    rs = rows(a[0])
    if rs is None:
        raise Bad("set")
    return Op("set", (a[0],))


# rotations ------------------------------------------------------------------

def rodrigues(v):
    t = ssqrt(sdot(v.data, v.data))
    u = [sdiv(x, t) for x in v.data]
    c, s = dom.scos(t), dom.ssin(t)
    K_ = [[R0, sneg(u[2]), u[1]], [u[2], R0, sneg(u[0])], [sneg(u[1]), u[0], R0]]
    d = []
    for i in range(3):
        for j in range(3):
            x = smul(smul(u[i], u[j]), ssub(R1, c))
            x = sadd(x, smul(s, K_[i][j]))
            if i == j:
                x = sadd(x, c)
            d.append(x)
    z = scmp("==", sdot(v.data, v.data), R0)
    return T((3, 3), [ite(z, R1 if i % 4 == 0 else R0, x) for i, x in enumerate(d)])


def f_rotvec(a, k):
    v = needT(a[0])
    if v.shape != (3,):
        raise Bad("rotvec")
    deg = k.get("degrees", a[1] if len(a) > 1 else False)
    if deg is True:
        v = T((3,), [smul(x, sdiv(PI, rconst(180))) for x in v.data])
    elif deg is not False:
        raise Bad("degrees")
    return Seq("rot", [rodrigues(v)])


def axisrot(ax, t):
    c, s = dom.scos(t), dom.ssin(t)
    if ax == "x":
        return T((3, 3), [R1, R0, R0, R0, c, sneg(s), R0, s, c])
    if ax == "y":
        return T((3, 3), [c, R0, s, R0, R1, R0, sneg(s), R0, c])
    return T((3, 3), [c, sneg(s), R0, s, c, R0, R0, R0, R1])


def f_euler(a, k):
    seq = a[0]
    ang = need(a[1])
    if not isinstance(seq, str) or isinstance(ang, G):
        raise Bad("euler")
    deg = k.get("degrees", a[2] if len(a) > 2 else False)
    data = ang.data
    if len(data) != len(seq):
        raise Bad("euler angles")
    if deg is True:
        data = [smul(x, sdiv(PI, rconst(180))) for x in data]
    elif deg is not False:
        raise Bad("degrees")
    m = f_eye([rconst(3)], {})
    for c, t in zip(seq, data):
        r = axisrot(c.lower(), t)
        m = matmul(r, m) if c.islower() else matmul(m, r)
    return Seq("rot", [m])


def f_frommatrix(a, k):
    return Seq("rot", [needT(a[0])])


def f_align(a, k):
    """best rotation of the second set of vectors onto the first: swapping the sets gives the inverse"""
    k = dict(k)
    a = list(a)
    x = arr(a[0] if a else k.pop("a", None))
    y = arr(a[1] if len(a) > 1 else k.pop("b", None))
    w = a[2] if len(a) > 2 else k.pop("weights", None)
    if k or isinstance(x, Unk) or isinstance(y, Unk):
        raise Bad("align")
    fx, fy = fp(x), fp(y)
    key = ("align",) + tuple(sorted((fx, fy), key=repr)) + (fp(w),)
    m = T((3, 3), [ratom(atom(key + (i,), "align[%d]" % i, kind="align")) for i in range(9)])
    if repr(fx) > repr(fy):
        m = transpose(m)
    return Seq("tuple", [Seq("rot", [m]), ratom(atom(key + ("rssd",), "rssd", kind="align"))])


def f_rng(a, k):
    """a seeded generator, identified by its seed (or by its creation)"""
    return Seq("rng", [a[0] if a else k.get("seed"), k.get("#id")])


def rng_draw(v, name, a, k):
    k = dict(k)
    i = k.pop("#draw", None)
    if i is None or not isinstance(i, Rat) or i.const() is None:
        return Unk("draw")
    lo, hi = R0, R1
    if name == "uniform":
        a = list(a)
        lo = a[0] if a else k.pop("low", lo)
        hi = a[1] if len(a) > 1 else k.pop("high", hi)
        size = a[2] if len(a) > 2 else k.pop("size", None)
    elif name in ("random", "random_sample"):
        size = a[0] if a else k.pop("size", None)
    elif name == "rand" and not k:
        size = Seq("tuple", list(a)) if a else None
    else:
        return Unk("draw " + name)
    if k or not isinstance(lo, Rat) or not isinstance(hi, Rat):
        return Unk("draw")
    key = ("u01", tuple(repr(fp(x)) for x in v.items), cint(i))

    def one(j):
        u = ratom(atom(key + (j,), "u%d[%d]" % (cint(i), j), sign="nonneg", kind="u01", args=tuple(x for x in v.items if isinstance(x, Rat)),
                       evalf=lambda s, j=j: alg.hfloat("u|%s|%s|%s" % (key, j, s.seed), 0, 1)))
        return radd(lo, rmul(radd(hi, lo, -1), u))
    if size is None:
        return one(0)
    if isinstance(size, Rat):
        sh = (cint(size),)
    elif isinstance(size, Seq) and size.kind in ("tuple", "list"):
        sh = tuple(cint(x) for x in size.items)
    else:
        return Unk("draw size")
    if any(x is None for x in sh):
        return Unk("draw size")
    n = 1
    for x in sh:
        n *= x
    return T(sh, [one(j) for j in range(n)])


def f_identity(a, k):
    return a[0]


def f_alltrue(f):
    return lambda a, k: f


S = dom
FUN = {
    "random.default_rng": f_rng, "array": f_array, "asarray": f_array, "asfarray": f_array, "ascontiguousarray": f_array, "copy": lambda a, k: f_array([a[0]], {}),
    "asanyarray": f_array, "zeros": filled(R0), "ones": filled(R1), "empty": filled(R0), "full": f_full, "zeros_like": f_like(R0),
    "ones_like": f_like(R1), "empty_like": f_like(R0), "eye": f_eye, "identity": f_eye, "arange": f_arange, "linspace": f_linspace,
    "dot": f_dot, "matmul": f_matmul, "cross": f_cross, "outer": f_outer, "multiply.outer": f_mouter, "inner": f_inner,
    "vdot": f_vdot, "tensordot": f_tensordot, "einsum": f_einsum, "linalg.norm": f_norm, "linalg.inv": f_inv, "linalg.det": f_det,
    "linalg.solve": f_solve, "transpose": f_transpose, "swapaxes": f_swapaxes, "reshape": f_reshape, "ravel": f_ravel,
    "squeeze": f_squeeze, "expand_dims": f_expand, "atleast_1d": f_atleast(1), "atleast_2d": f_atleast(2), "concatenate": f_concat,
    "vstack": f_vstack, "row_stack": f_vstack, "hstack": f_hstack, "stack": f_stack, "dstack": f_dstack, "column_stack": f_colstack,
    "gcd": f_gcd(math.gcd), "lcm": f_gcd(math.lcm), "gcd.reduce": f_gcdred(math.gcd), "lcm.reduce": f_gcdred(math.lcm), "resize": f_resize,
    "append": f_append, "tile": f_tile, "repeat": f_repeat, "where": f_where, "nonzero": f_nonzero, "argwhere": f_argwhere,
    "isin": f_isin, "in1d": f_isin, "intersect1d": setop(lambda x, y: x & y), "setdiff1d": setop(lambda x, y: x - y), "union1d": setop(lambda x, y: x | y),
    "flatnonzero": f_flatnonzero, "count_nonzero": f_count, "clip": f_clip, "unique": f_unique, "sort": f_sort, "argsort": f_argsort,
    "argmin": f_argmin, "argmax": f_argmax, "searchsorted": f_searchsorted, "cumsum": f_cumsum, "diff": f_diff, "delete": f_delete,
    "roll": f_roll, "finfo": f_finfo, "meshgrid": f_meshgrid, "round": f_roundb, "around": f_roundb, "rint": elementwise(S.sround),
    "sum": rowred(ssum, gsum), "prod": rowred(sprod, lambda ps: sprod([ite(g, x, R1) for g, x in ps])), "mean": rowred(fmean, lambda ps: sdiv(gsum(ps), ssum([ite(g, R1, R0) for g, _ in ps]))),
    "min": rowred(fmin, gmin), "max": rowred(fmax, gmax), "amin": rowred(fmin, gmin), "amax": rowred(fmax, gmax),
    "all": rowred(fall, gall), "any": rowred(fany, gany), "logical_and.reduce": lambda a, k: rowred(fall, gall)([a[0]] + (a[1:] or [k.get("axis", R0)]), {}),
    "logical_or.reduce": lambda a, k: rowred(fany, gany)([a[0]] + (a[1:] or [k.get("axis", R0)]), {}),
    "ptp": rowred(lambda xs: ssub(fmax(xs), fmin(xs)), gunk),
    "floor": elementwise(S.sfloor), "ceil": elementwise(S.sceil), "fix": elementwise(S.sfix), "trunc": elementwise(S.sfix),
    "sign": elementwise(S.ssign), "abs": elementwise(sabs), "absolute": elementwise(sabs), "fabs": elementwise(sabs),
    "sqrt": elementwise(ssqrt), "square": elementwise(lambda x: smul(x, x)), "negative": elementwise(sneg), "reciprocal": elementwise(lambda x: sdiv(R1, x)),
    "cos": elementwise(S.scos), "sin": elementwise(S.ssin), "tan": elementwise(lambda x: sdiv(S.ssin(x), S.scos(x))),
    "arccos": elementwise(S.sarccos), "arctan2": elementwise(S.sarctan2, 2), "arcsin": elementwise(S.sfun("arcsin", math.asin)),
    "arctan": elementwise(S.sfun("arctan", math.atan)), "exp": elementwise(S.sfun("exp", math.exp)), "log": elementwise(S.sfun("log", math.log)),
    "add": elementwise(sadd, 2), "subtract": elementwise(ssub, 2), "multiply": elementwise(smul, 2), "divide": elementwise(sdiv, 2),
    "true_divide": elementwise(sdiv, 2), "power": elementwise(S.spow, 2), "mod": elementwise(S.smod, 2), "remainder": elementwise(S.smod, 2),
    "floor_divide": elementwise(S.sfloordiv, 2), "hypot": elementwise(lambda x, y: ssqrt(sadd(smul(x, x), smul(y, y))), 2),
    "minimum": elementwise(smin2d, 2), "maximum": elementwise(smax2d, 2), "fmin": elementwise(smin2d, 2), "fmax": elementwise(smax2d, 2),
    "logical_and": elementwise(lambda x, y: band(tob(x), tob(y)), 2), "logical_or": elementwise(lambda x, y: bor(tob(x), tob(y)), 2),
    "logical_not": elementwise(lambda x: bnot(tob(x))), "invert": elementwise(inv1), "bitwise_and": elementwise(SOPS["&"], 2), "bitwise_or": elementwise(SOPS["|"], 2),
    "logical_xor": elementwise(lambda x, y: bor(band(tob(x), bnot(tob(y))), band(tob(y), bnot(tob(x)))), 2),
    "less": lambda a, k: compare("<", a[0], a[1]), "less_equal": lambda a, k: compare("<=", a[0], a[1]),
    "greater": lambda a, k: compare(">", a[0], a[1]), "greater_equal": lambda a, k: compare(">=", a[0], a[1]),
    "equal": lambda a, k: compare("==", a[0], a[1]), "not_equal": lambda a, k: compare("!=", a[0], a[1]),
    "isinf": elementwise(isinf), "isnan": elementwise(isnan), "isfinite": elementwise(lambda x: bnot(bor(isinf(x), isnan(x)))),
    "deg2rad": elementwise(lambda x: smul(x, sdiv(PI, rconst(180)))), "radians": elementwise(lambda x: smul(x, sdiv(PI, rconst(180)))),
    "rad2deg": elementwise(lambda x: smul(x, sdiv(rconst(180), PI))), "degrees": elementwise(lambda x: smul(x, sdiv(rconst(180), PI))),
    "isclose": f_allclose, "allclose": lambda a, k: rowred(fall, gall)([f_allclose(a, k)], {}),
    "array_equal": lambda a, k: (rowred(fall, gall)([compare("==", needT(a[0]), needT(a[1]))], {}) if needT(a[0]).shape == needT(a[1]).shape else False),
    "shape": lambda a, k: attribute(need(a[0]), "shape"), "size": lambda a, k: attribute(need(a[0]), "size"), "ndim": lambda a, k: attribute(need(a[0]), "ndim"),
    "diag": lambda a, k: f_diag(a, k), "trace": lambda a, k: ssum([needT(a[0]).data[i * needT(a[0]).shape[1] + i] for i in range(min(needT(a[0]).shape))]),
    "bool_": lambda a, k: tob(scal(a[0])), "float64": f_float, "int64": f_int, "int32": f_int,
}


def f_diag(a, k):
    t = needT(a[0])
    if len(t.shape) == 1:
        n = t.shape[0]
        return T((n, n), [t.data[i] if i == j else R0 for i in range(n) for j in range(n)])
    return T((min(t.shape),), [t.data[i * t.shape[1] + i] for i in range(min(t.shape))])


BUILTIN = {
    "abs": elementwise(sabs), "int": f_int, "float": f_float, "bool": lambda a, k: truth(a[0]), "len": f_len, "list": f_list, "tuple": f_tuple,
    "range": f_range, "sum": f_sumb, "min": f_minb(fmin, gmin), "max": f_minb(fmax, gmax), "sorted": f_sortedb, "zip": f_zip,
    "enumerate": f_enumerate, "reversed": f_reversed, "any": f_anyall(gany), "all": f_anyall(gall), "round": f_roundb, "set": f_set,
    "pow": elementwise(S.spow, 2), "str": lambda a, k: a[0] if isinstance(a[0], str) else Op("str", tuple(a)),
    "dict": lambda a, k: Seq("dict", [(x, v) for x, v in k.items()]) if not a else (a[0] if isinstance(a[0], Seq) and a[0].kind == "dict" and not k else Op("dict", tuple(a))),
}
OTHER = {
    "math.gcd": lambda a, k: rconst(math.gcd(*[int(c) for x in a for c in consts(needT(x))])), "math.sqrt": elementwise(ssqrt), "math.floor": elementwise(S.sfloor), "math.ceil": elementwise(S.sceil), "math.cos": elementwise(S.scos),
    "math.sin": elementwise(S.ssin), "math.acos": elementwise(S.sarccos), "math.atan2": elementwise(S.sarctan2, 2), "math.fabs": elementwise(sabs),
    "math.isinf": elementwise(isinf), "math.isnan": elementwise(isnan), "math.hypot": FUN["hypot"], "math.prod": lambda a, k: sprod(needT(a[0]).data),
    "math.radians": FUN["deg2rad"], "math.degrees": FUN["rad2deg"], "math.trunc": elementwise(S.sfix),
    "scipy.spatial.transform.Rotation.from_rotvec": f_rotvec, "scipy.spatial.transform.Rotation.from_euler": f_euler,
    "scipy.spatial.transform.Rotation.from_matrix": f_frommatrix, "scipy.spatial.transform.Rotation.align_vectors": f_align,
    "scipy.spatial.transform.Rotation.identity": lambda a, k: Seq("rot", [f_eye([rconst(3)], {})]),
    "scipy.linalg.norm": f_norm, "scipy.linalg.inv": f_inv, "scipy.linalg.det": f_det, "scipy.linalg.solve": f_solve,
    "operator.add": elementwise(sadd, 2), "operator.sub": elementwise(ssub, 2), "operator.mul": elementwise(smul, 2),
    "copy.copy": f_identity, "copy.deepcopy": f_identity,
    "itertools.product": None,
}


def f_product(a, k):
    ls = [rows(x) for x in a]
    if any(x is None for x in ls) or not all(g is True for r in ls for g, _ in r):
        raise Bad("product")
    rep = cint(k.get("repeat", R1))
    out = [[]]
    for r in ls * rep:
        out = [o + [x] for o in out for _, x in r]
    return Seq("list", [Seq("tuple", o) for o in out])


def f_combinations(a, k):
    import itertools
    r = rows(a[0])
    n = cint(a[1])
    if r is None or n is None or not all(g is True for g, _ in r):
        raise Bad("combinations")
    return Seq("list", [Seq("tuple", list(c)) for c in itertools.combinations([x for _, x in r], n)])


def f_chain(a, k):
    r = Seq("list", [])
    for x in a:
        r = lcat(r, x)
    return r


OTHER["itertools.product"] = f_product
OTHER["itertools.combinations"] = f_combinations
OTHER["itertools.chain"] = f_chain
OTHER["itertools.chain.from_iterable"] = lambda a, k: f_chain([v for _, v in rows(a[0])], k)


# ---- further routines -------------------------------------------------------
def axes_first(t, ax):
    n = len(t.shape)
    return [ax % n] + [i for i in range(n) if i != ax % n]


def f_take(a, k):
    t, i = need(a[0]), need(a[1] if len(a) > 1 else k["indices"])
    ax = axisof(a, k, 2)
    if ax in (None, 0):
        if ax is None and len(t.shape if isinstance(t, T) else t.t.shape) != 1:
            raise Bad("take")
        return subscript(t, i)
    n = len(needT(t).shape)
    return subscript(t, tuple([Sl(None, None, None)] * (ax % n)) + (i,))


def f_compress(a, k):
    ax = axisof(a, k, 2)
    if ax not in (None, 0):
        raise Bad("compress axis")
    return subscript(need(a[1]), need(a[0]))


def f_flip(ax0):
    def f(a, k):
        t = needT(a[0])
        ax = axisof(a, k) if ax0 is None else ax0
        axs = range(len(t.shape)) if ax is None else (ax if isinstance(ax, tuple) else (ax,))
        axs = [x % len(t.shape) for x in axs]
        return getitem(t, tuple(Sl(None, None, -1) if i in axs else Sl(None, None, None) for i in range(len(t.shape))))
    return f


def f_moveaxis(a, k):
    t = needT(a[0])
    s, d = cint(a[1]), cint(a[2])
    if s is None or d is None:
        raise Bad("moveaxis")
    n = len(t.shape)
    o = [i for i in range(n) if i != s % n]
    o.insert(d % n, s % n)
    return transpose(t, o)


def f_split(a, k):
    t = needT(a[0])
    n = cint(a[1])
    ax = axisof(a, k, 2) or 0
    if n is None or t.shape[ax] % n:
        raise Bad("split")
    m = t.shape[ax] // n
    pre = tuple([Sl(None, None, None)] * (ax % len(t.shape)))
    return Seq("list", [getitem(t, pre + (Sl(i * m, (i + 1) * m, None),)) for i in range(n)])


def f_matpow(a, k):
    t, n = needT(a[0]), cint(a[1])
    if n is None or abs(n) > 8:
        raise Bad("matrix_power")
    if n < 0:
        t, n = inv(sq(t)), -n
    r = f_eye([rconst(t.shape[-1])], {})
    for _ in range(n):
        r = matmul(r, t)
    return r


def f_multidot(a, k):
    xs = seqitems(a[0])
    r = xs[0]
    for x in xs[1:]:
        r = matmul(r, x)
    return r


def f_ufouter(f):
    def g(a, k):
        x, y = needT(a[0]), needT(a[1])
        return unwrap(T(x.shape + y.shape, [f(p, q) for p in x.data for q in y.data]))
    return g


def f_bto(a, k):
    t = needT(a[0])
    sh = shapearg(a[1] if len(a) > 1 else k["shape"])
    return T(tuple(sh), dom.bcast_to(t, tuple(sh)))


def f_average(a, k):
    if len(a) > 2 or k.get("weights") is not None or k.get("returned"):
        raise Bad("average")
    return FUN["mean"](a, k)


def f_fulllike(a, k):
    t = needT(a[0])
    return f_full([Seq("tuple", [rconst(x) for x in t.shape]), a[1] if len(a) > 1 else k["fill_value"]], {})


def f_uf_reduce(name):
    def f(a, k):
        return FUN[name]([a[0]] + [a[1] if len(a) > 1 else k.get("axis", R0)], {q: v for q, v in k.items() if q == "keepdims"})
    return f


def f_select(a, k):
    cs, vs = seqitems(a[0]), seqitems(a[1])
    r = a[2] if len(a) > 2 else k.get("default", R0)
    for c, v in reversed(list(zip(cs, vs))):
        r = FUN["where"]([c, v, r], {})
    return r


def f_unravel(a, k):
    i = cint(a[0])
    sh = shapearg(a[1])
    if i is None:
        raise Bad("unravel")
    out = []
    for n in reversed(sh):
        out.append(rconst(i % n))
        i //= n
    return Seq("tuple", out[::-1])


def f_rc(col):
    def f(a, k):
        xs = a[0].items if isinstance(a[0], Seq) and a[0].kind == "tuple" else [a[0]]
        if any(isinstance(x, (Sl, str)) for x in xs):
            raise Bad("r_")
        xs = [f_atleast(1)([x], {}) for x in xs]
        q = Seq("list", xs)
        return f_colstack([q], {}) if col else f_concat([q], {})
    return f


FUN.update({
    "r_": f_rc(False), "c_": f_rc(True), "take": f_take, "compress": f_compress, "extract": f_compress, "flip": f_flip(None), "flipud": f_flip(0), "fliplr": f_flip(1), "moveaxis": f_moveaxis,
    "split": f_split, "linalg.matrix_power": f_matpow, "linalg.multi_dot": f_multidot, "linalg.pinv": f_inv, "add.outer": f_ufouter(sadd),
    "subtract.outer": f_ufouter(ssub), "divide.outer": f_ufouter(sdiv), "broadcast_to": f_bto, "average": f_average, "full_like": f_fulllike,
    "add.reduce": f_uf_reduce("sum"), "multiply.reduce": f_uf_reduce("prod"), "minimum.reduce": f_uf_reduce("min"), "maximum.reduce": f_uf_reduce("max"),
    "positive": f_identity, "select": f_select, "unravel_index": f_unravel, "float_power": elementwise(S.spow, 2),
    "array_equiv": FUN["array_equal"], "copysign": elementwise(lambda x, y: ite(scmp("<", y, R0), sneg(sabs(x)), sabs(x)), 2),
    "vsplit": f_split, "hsplit": lambda a, k: f_split([a[0], a[1], rconst(1 if len(needT(a[0]).shape) > 1 else 0)], {}),
})


def lookup(name):
    if name.startswith("numpy."):
        return FUN.get(name[6:])
    if name.startswith("builtins."):
        return BUILTIN.get(name[9:])
    return OTHER.get(name)


def like_selection(name, a, k):
    """np.ones(len(selected rows)) has one entry per selected row"""
    if name not in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
        return None
    n = a[0] if a else k.get("shape")
    rest = ()
    if isinstance(n, Seq) and n.items:
        rest, n = tuple(cint(x) for x in n.items[1:]), n.items[0]
    if not isinstance(n, DD) or None in rest:
        return None
    g = dom.LENG.get(fp(n))
    if g is None:
        return None
    shape = Seq("tuple", [rconst(len(g))] + [rconst(x) for x in rest])
    k = {q: v for q, v in k.items() if q != "shape"}
    t = call(name, [shape] + list(a[1:]), k)
    return dom.G(list(g), t) if isinstance(t, T) else None


def call(name, a, k):
    r = like_selection(name, a, k)
    if r is not None:
        return r
    if any(isdd(x) for x in a) or any(isdd(x) for x in k.values()):
        ks = list(k)
        return dapply(lambda *xs: call(name, list(xs[:len(a)]), dict(zip(ks, xs[len(a):]))), *(list(a) + [k[q] for q in ks]))
    f = lookup(name)
    if f is not None:
        try:
            return f(list(a), dict(k))
        except (Bad, KeyError, IndexError, TypeError, AttributeError, ZeroDivisionError) as ex:
            for x in list(a) + list(k.values()):
                if isinstance(x, Unk):
                    return x
            if any(dom.has_unk(x) for x in list(a) + list(k.values())):
                return Unk("%s of unresolved value" % name)
            if not isinstance(ex, Bad):
                return Unk("%s: %r" % (name, ex))
    return Op(name, tuple(a) + tuple((q, k[q]) for q in sorted(k)))


def m_method(v, name, a, k):
    d, m = v.items
    if name == "compressed" and not a and not k:
        return f_compressed([v], {})
    if name == "astype" and a:
        keep = [x for x, q in zip(d.data, m.data) if q is not True]
        t = f_astype_maybe(T((len(keep),), keep), a[0])
        if not isinstance(t, T):
            return t
        it = iter(t.data)
        return Seq("masked", [T(d.shape, [R0 if q is True else next(it) for q in m.data]), m])
    if name in ("ravel", "flatten") and not a and not k:
        return Seq("masked", [T((len(d.data),), d.data), T((len(d.data),), m.data)])
    if name == "copy" and not a:
        return v
    if name in ("count", "sum", "min", "max", "mean", "prod") and not a and not k:
        c = f_compressed([v], {})
        if name == "count":
            return length(c)
        return c if isinstance(c, Unk) else method(c, name, [], {})
    return Unk("masked array." + name)


def f_masked(a, k):
    d = needT(a[0] if a else k["data"])
    if isinstance(a[0] if a else None, Seq) and a[0].kind == "masked":
        return Unk("masked array of a masked array")
    m = a[1] if len(a) > 1 and "mask" not in k else k.get("mask", False)
    if set(k) - {"data", "mask", "copy"} or len(a) > 2:
        return Unk("masked array options")
    m = dom.arr(m)
    if not isinstance(m, T):
        return Unk("mask")
    m = T(d.shape, [truth(x) for x in dom.bcast_to(m, d.shape)])
    if any(has_unk_(x) for x in m.data):
        return Unk("mask")
    return Seq("masked", [d, m])


def has_unk_(x):
    return dom.has_unk(x)


def f_compressed(a, k):
    v = a[0]
    if not isinstance(v, Seq) or v.kind != "masked":
        return Unk("compressed")
    d, m = v.items
    if all(isinstance(q, bool) for q in m.data):
        keep = [x for x, q in zip(d.data, m.data) if not q]
        return T((len(keep),), keep)
    return G([bnot(q) for q in m.data], T((len(d.data),), d.data))


FUN.update({"ma.masked_array": f_masked, "ma.array": f_masked, "ma.MaskedArray": f_masked, "ma.compressed": f_compressed,
            "ma.masked_where": lambda a, k: f_masked([a[1], a[0]], k),
            "ma.masked_invalid": lambda a, k: f_masked([a[0], FUN["logical_not"]([FUN["isfinite"]([a[0]], {})], {})], k)})
ARR_METHODS = {"dot": "dot", "sum": "sum", "prod": "prod", "mean": "mean", "min": "min", "max": "max", "any": "any", "all": "all",
               "reshape": "reshape", "ravel": "ravel", "flatten": "ravel", "squeeze": "squeeze", "transpose": "transpose", "copy": "copy",
               "argmin": "argmin", "argmax": "argmax", "cumsum": "cumsum", "nonzero": "nonzero", "round": "round", "clip": "clip",
               "repeat": "repeat", "argsort": "argsort", "searchsorted": "searchsorted", "swapaxes": "swapaxes", "ptp": "ptp", "trace": "trace",
               "take": "take", "compress": "compress", "conj": "positive"}


def method(v, name, a, k):
    if isdd(v) or any(isdd(x) for x in a) or any(isdd(x) for x in k.values()):
        ks = list(k)
        return dapply(lambda o, *xs: method(o, name, list(xs[:len(a)]), dict(zip(ks, xs[len(a):]))), *([v] + list(a) + [k[q] for q in ks]))
    if isinstance(v, Ref) and getattr(v.node, "op", "") == "ext":
        return call(v.node.args[0] + "." + name, a, k)
    if isinstance(v, Seq) and v.kind == "masked":
        return m_method(v, name, a, k)
    if isinstance(v, Seq):
        if v.kind == "rot":
            m = v.items[0]
            if name in ("as_matrix", "as_dcm"):
                return m
            if name == "inv":
                return Seq("rot", [transpose(m)])
            if name == "apply" and len(a) == 1 and not k:
                x = arr(a[0])
                return x if isinstance(x, Unk) else matmul(x, transpose(m))
        if v.kind == "rng":
            return rng_draw(v, name, a, k)
        if v.kind == "dict":
            if name == "keys" and not a:
                return Seq("list", [x for x, _ in v.items])
            if name == "values" and not a:
                return Seq("list", [y for _, y in v.items])
            if name == "items" and not a:
                return Seq("list", [Seq("tuple", [x, y]) for x, y in v.items])
            if name == "get" and a:
                for x, y in v.items:
                    if fp(x) == fp(a[0]):
                        return y
                if all(isinstance(x, str) for x, _ in v.items) and isinstance(a[0], str):
                    return a[1] if len(a) > 1 else None
            if name == "copy":
                return v
        if v.kind in ("list", "tuple") and name == "index" and a:
            for i, x in enumerate(v.items):
                r = truth(compare("==", x, a[0]))
                if r is True:
                    return rconst(i)
                if r is not False:
                    return Unk("index of")
        if v.kind in ("list", "tuple") and name == "count" and a:
            return ssum([ite(truth(compare("==", x, a[0])), R1, R0) for x in v.items])
        if v.kind in ("list", "tuple") and name == "copy":
            return v
    if isinstance(v, (T, G)) or scalar(v):
        if name == "astype" and a:
            return f_astype_maybe(arr(v), a[0])
        if name in ("tolist",):
            if isinstance(v, T) and len(v.shape) <= 1:
                return Seq("list", v.data) if v.shape else v.data[0]
            if isinstance(v, T):
                return tolist(v)
        if name == "item" and not a and len(arr(v).data) == 1:
            return arr(v).data[0]
        if name == "reshape" and a and not isinstance(a[0], (Seq, T)):
            return call("numpy.reshape", [v, Seq("tuple", a)], k)
        if name == "transpose" and a and not isinstance(a[0], Seq):
            return call("numpy.transpose", [v, Seq("tuple", a)], k)
        if name in ARR_METHODS:
            return call("numpy." + ARR_METHODS[name], [v] + list(a), k)
    if isinstance(v, str):
        if name in ("lower", "upper", "strip", "capitalize") and not a:
            return getattr(v, name)()
        if name in ("startswith", "endswith") and len(a) == 1 and isinstance(a[0], str):
            return getattr(v, name)(a[0])
        if name == "split" and all(isinstance(x, str) for x in a):
            return Seq("list", v.split(*a))
    if isinstance(v, Unk):
        return v
    return Op("." + name, (v,) + tuple(a) + tuple((q, k[q]) for q in sorted(k)))


def tolist(t):
    if len(t.shape) == 1:
        return Seq("list", t.data)
    return Seq("list", [tolist(row(t, i)) for i in range(t.shape[0])])


def attribute(v, name):
    if isdd(v):
        return dapply(lambda x: attribute(x, name), v)
    if isinstance(v, T):
        if name == "T":
            return transpose(v)
        if name == "shape":
            return Seq("tuple", [rconst(d) for d in v.shape])
        if name == "size":
            return rconst(len(v.data))
        if name == "ndim":
            return rconst(len(v.shape))
        if name == "real":
            return v
        if name == "flat":
            return T((len(v.data),), v.data)
    if isinstance(v, G):
        if name == "shape":
            return Seq("tuple", [length(v)] + [rconst(d) for d in v.t.shape[1:]])
        if name == "size":
            return smul(length(v), rconst(dom.prod(v.t.shape[1:])))
        if name == "ndim":
            return rconst(len(v.t.shape))
        if name == "T":
            return transpose(v)
    if isinstance(v, Rat):
        if name in ("T", "real"):
            return v
        if name == "shape":
            return Seq("tuple", [])
        if name == "size":
            return R1
        if name == "ndim":
            return R0
    if isinstance(v, Op) and v.head == "finfo" and name == "eps":
        return EPS
    if isinstance(v, Unk):
        return v
    return Op("attr." + name, (v,))
