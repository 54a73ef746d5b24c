"""Abstract values: tensors of exact algebraic expressions, gated by decision diagrams.

The domain interprets value nodes produced by the value-flow engine.  Scalars are
rational functions (sa.alg); conditions and condition-dependent values are
ordered decision diagrams over *condition variables* (signs of polynomials,
uninterpreted predicates such as "row k is interior to A").  Arrays have small
concrete shapes and symbolic entries; boolean selection keeps a guard per row.
"""
import hashlib
import math
from fractions import Fraction as Fr

from . import alg
from .alg import (R0, R1, Atom, Poly, Rat, TooBig, atom, cancel, fp_rat, isint, padd, patom, pconst, pmul, poly_sqrt,
                  psign, pscale, qz, radd, ratom, rconst, req, rinv, rmul, rneg, rpow, rsign_parts, sqrt_atom, content)


class Unk:
    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "?(%s)" % self.why


class Undecided(Exception):
    pass


class Ref:
    """an opaque object (identity known)"""
    tab = {}

    def __new__(cls, node):
        r = cls.tab.get(node)
        if r is None:
            r = object.__new__(cls)
            r.node = node
            cls.tab[node] = r
        return r

    def __repr__(self):
        return "Ref(%r)" % (self.node,)


class Special:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


INF, NINF, NAN = Special("inf"), Special("-inf"), Special("nan")


class T:
    __slots__ = ("shape", "data")

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)

    def __repr__(self):
        return "T%s%s" % (self.shape, [short(x) for x in self.data[:12]])


class G:
    """array whose first axis keeps only the rows with a true guard"""
    __slots__ = ("guards", "t")

    def __init__(self, guards, t):
        self.guards, self.t = list(guards), t

    def __repr__(self):
        return "G[%s]" % ", ".join("%s:%s" % (short(g), short(row(self.t, i))) for i, g in enumerate(self.guards))


class Seq:
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind, self.items = kind, list(items)

    def __repr__(self):
        return "%s%s" % (self.kind, self.items)


class Op:
    """uninterpreted application"""
    __slots__ = ("head", "args", "_fp")

    def __init__(self, head, args):
        self.head, self.args, self._fp = head, tuple(args), None

    def __repr__(self):
        return "%s(%s)" % (self.head, ", ".join(short(a) for a in self.args))


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


# --------------------------------------------------------------------------
# Decision diagrams
# --------------------------------------------------------------------------


class Var:
    __slots__ = ("id", "kind", "key", "name", "evalf", "info")
    tab = {}
    lst = []

    def __repr__(self):
        return self.name


def var(kind, key, name, evalf, info=None):
    v = Var.tab.get((kind, key))
    if v is None:
        v = Var()
        v.id, v.kind, v.key, v.name, v.evalf, v.info = len(Var.lst), kind, key, name, evalf, info
        Var.lst.append(v)
        Var.tab[(kind, key)] = v
    return v


class DD:
    __slots__ = ("var", "kids", "sc", "uid", "_fp")
    ctr = [0]
    depth = [0]

    def __init__(self, v, kids):
        self.var, self.kids = v, kids
        self.sc = all((k.sc if isinstance(k, DD) else isinstance(k, (Rat, bool, Unk, Special))) for k in kids)
        DD.ctr[0] += 1
        self.uid = DD.ctr[0]
        self._fp = None

    def __repr__(self):
        if DD.depth[0] > 5:         # diagrams share subdiagrams: writing one out in full is exponential
            return "{...}"
        DD.depth[0] += 1
        try:
            return self.show()
        finally:
            DD.depth[0] -= 1

    def show(self):
        if self.var.kind == "b":
            return "{%s? %s : %s}" % (self.var.name, short(self.kids[1]), short(self.kids[0]))
        return "{sgn(%s) -:%s 0:%s +:%s}" % ((self.var.name,) + tuple(short(k) for k in self.kids))


_ddtab = {}
MAXDD = [400000]


def _ik(x):
    if isinstance(x, DD):
        return ("d", x.uid)
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, Rat):
        return ("r", fp_rat(x))
    if x is None or isinstance(x, str):
        return ("c", x)
    return ("o", id(x))


def mk(v, kids):
    k0 = kids[0]
    if all(leafeq(k0, k) for k in kids[1:]):
        return k0
    if all(isinstance(k, T) for k in kids) and all(k.shape == k0.shape for k in kids):
        return T(k0.shape, [mkfix(v, tuple(k.data[i] for k in kids)) for i in range(len(k0.data))])
    if all(isinstance(k, G) for k in kids) and all(k.t.shape == k0.t.shape for k in kids):
        return G([mkfix(v, tuple(k.guards[i] for k in kids)) for i in range(len(k0.guards))],
                 mk(v, tuple(k.t for k in kids)))
    if all(isinstance(k, Seq) and k.kind == k0.kind and k.kind in ("list", "tuple") and len(k.items) == len(k0.items)
           for k in kids):
        return Seq(k0.kind, [mkfix(v, tuple(k.items[i] for k in kids)) for i in range(len(k0.items))])
    key = (v.id,) + tuple(_ik(k) for k in kids)
    r = _ddtab.get(key)
    if r is None:
        if len(_ddtab) > MAXDD[0]:
            raise TooBig()
        r = DD(v, tuple(kids))
        _ddtab[key] = (r, kids)
        return r
    return r[0]


def leafeq(a, b):
    if a is b:
        return True
    if isinstance(a, DD) or isinstance(b, DD):
        return False          # canonical: identical diagrams are the same object
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, Rat) and isinstance(b, Rat):
        return req(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, str):
        return a == b
    if isinstance(a, Unk):
        return True
    if isinstance(a, T):
        return a.shape == b.shape and all(leafeq(x, y) for x, y in zip(a.data, b.data))
    if isinstance(a, G):
        return len(a.guards) == len(b.guards) and all(leafeq(x, y) for x, y in zip(a.guards, b.guards)) and leafeq(a.t, b.t)
    if isinstance(a, Seq):
        return a.kind == b.kind and len(a.items) == len(b.items) and all(leafeq(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(leafeq(x, y) for x, y in zip(a, b))
    if isinstance(a, Op):
        return fp(a) == fp(b)
    return False


def dapply(fn, *args):
    """apply fn leafwise"""
    if not any(isinstance(a, DD) for a in args):
        return fn(*args)
    memo = {}

    def go(xs):
        key = tuple(x.uid if isinstance(x, DD) else ("l", id(x)) for x in xs)
        r = memo.get(key)
        if r is not None:
            return r[0]
        vs = [x.var for x in xs if isinstance(x, DD)]
        if not vs:
            r = fn(*xs)
            if isinstance(r, DD):
                pass
        else:
            v = min(vs, key=lambda z: z.id)
            kids = []
            for i in range(2 if v.kind == "b" else 3):
                kids.append(go(tuple(x.kids[i] if isinstance(x, DD) and x.var is v else x for x in xs)))
            r = mkfix(v, tuple(kids))
        memo[key] = (r, xs)
        return r

    # leaf results may themselves be diagrams over older variables; restore the order with ite
    return go(tuple(args))


def minvar(x):
    return x.var.id if isinstance(x, DD) else 1 << 60


def mkfix(v, kids):
    """like mk, but kids may mention variables ordered before v"""
    if all(minvar(k) > v.id for k in kids):
        return mk(v, kids)
    # reorder: pick the smallest variable among kids
    return _reorder(v, kids, {})


def _reorder(v, kids, memo):
    key = tuple(_ik(k) for k in kids)
    if key in memo:
        return memo[key]
    m = min(minvar(k) for k in kids)
    if m == v.id:
        kids = tuple(k.kids[i] if isinstance(k, DD) and k.var is v else k for i, k in enumerate(kids))
        r = _reorder(v, kids, {})
    elif m > v.id:
        r = mk(v, kids)
    else:
        w = Var.lst[m]
        out = []
        for i in range(2 if w.kind == "b" else 3):
            out.append(_reorder(v, tuple(k.kids[i] if isinstance(k, DD) and k.var is w else k for k in kids), memo))
        r = mk(w, tuple(out))
    memo[key] = r
    return r


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(c, Unk) or not isinstance(c, (bool, DD)):
        return a if leafeq(a, b) else Unk("condition " + short(c))
    if isinstance(a, T) and isinstance(b, T) and a.shape == b.shape:
        return T(a.shape, [ite(c, x, y) for x, y in zip(a.data, b.data)])
    if isinstance(a, (G, T)) and isinstance(b, (G, T)) and (isinstance(a, G) or isinstance(b, G)):
        # the same rows under different guards
        ta, tb = (a.t if isinstance(a, G) else a), (b.t if isinstance(b, G) else b)
        if isinstance(ta, T) and isinstance(tb, T) and ta.shape == tb.shape and len(ta.shape) and (
                ta is tb or all(leafeq(x, y) for x, y in zip(ta.data, tb.data))):
            n = ta.shape[0]
            ga = a.guards if isinstance(a, G) else [True] * n
            gb = b.guards if isinstance(b, G) else [True] * n
            return G([ite(c, x, y) for x, y in zip(ga, gb)], ta)
    return dapply(lambda c, x, y: (x if c is True else y if c is False else (x if leafeq(x, y) else Unk("cond"))), c, a, b)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a

    def f(x, y):
        if x is False or y is False:
            return False
        if isinstance(x, bool) and isinstance(y, bool):
            return x and y
        return Unk("and")
    return dapply(f, a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bnot(a):
    return dapply(lambda x: (not x) if isinstance(x, bool) else (Unk("not") if isinstance(x, Unk) else bnot(truth(x))), a)


def bvar(key, name, evalf=None, info=None):
    if evalf is None:
        evalf = lambda s, k=repr(key): int(alg.hfloat("b|%s|%s" % (k, s.seed), 0, 1) < 0.5)
    v = var("b", key, name, evalf, info)
    return mk(v, (False, True))


def sgn(r, f):
    """diagram f(-1)|f(0)|f(1) by the sign of the rational function r"""
    s, core = rsign_parts(r)
    if core is None:
        return f(s)
    if len(core.t) == 1:
        (m, c), = core.t.items()
        if len(m) == 1 and m[0][1] == 1 and Atom.lst[m[0][0]].kind == "floor":
            # floor(q) < 0 iff q < 0, floor(q) > 0 iff q >= 1
            q = Atom.lst[m[0][0]].args[0]
            s = s if c > 0 else -s
            return ite(scmp("<", q, R0), f(-s), ite(scmp("<", q, R1), f(0), f(s)))
    ps = psign(core)
    v = var("s", core.key(), repr(core), lambda smp, p=core: (lambda z: 0 if z < -1e-12 else 2 if z > 1e-12 else 1)(smp.poly(p)), core)
    lo, mid, hi = f(-s), f(0), f(s)
    if ps == ">=":
        lo = mid
    if ps == "<=":
        hi = mid
    return mkfix(v, (lo, mid, hi))


# --------------------------------------------------------------------------
# scalar operations
# --------------------------------------------------------------------------


def num(x):
    """leaf -> Rat or Unk"""
    if isinstance(x, Rat):
        return x
    if isinstance(x, bool):
        return R1 if x else R0
    return None


def leaf2(f):
    def g(x, y):
        a, b = num(x), num(y)
        if a is None or b is None:
            if isinstance(x, Unk):
                return x
            if isinstance(y, Unk):
                return y
            if (x is NAN or y is NAN) and all(isinstance(q, (Rat, bool, Special)) for q in (x, y)):
                return NAN
            return Unk("arith on %s,%s" % (type(x).__name__, type(y).__name__))
        return f(a, b)
    return g


def leaf1(f):
    def g(x):
        a = num(x)
        if a is None:
            return x if isinstance(x, Unk) or x is NAN else Unk("arith on %s" % type(x).__name__)
        return f(a)
    return g


def sadd(x, y):
    return dapply(leaf2(radd), x, y)


def ssub(x, y):
    return dapply(leaf2(lambda a, b: radd(a, b, -1)), x, y)


def smul(x, y):
    return dapply(leaf2(rmul), x, y)


def _div(a, b):
    if b.is0():
        if a.is0():
            return NAN
        c = a.const()
        return INF if c is not None and c > 0 else NINF if c is not None else Unk("division by zero")
    return rmul(a, rinv(b))


def sdiv(x, y):
    def f(p, q):
        if isinstance(q, Special) and q in (INF, NINF) and num(p) is not None:
            return R0
        return leaf2(_div)(p, q)
    return dapply(f, x, y)


def sneg(x):
    return dapply(lambda v: NINF if v is INF else INF if v is NINF else leaf1(rneg)(v), x)


def _abs(a):
    return sgn(a, lambda s: rneg(a) if s < 0 else (R0 if s == 0 else a))


def sabs(x):
    return dapply(lambda v: INF if v in (INF, NINF) else leaf1(_abs)(v), x)


def ssign(x):
    return dapply(leaf1(lambda a: sgn(a, lambda s: rconst(s))), x)


def _sqrt(a):
    c = a.const()
    if c is not None:
        if c < 0:
            return NAN
        k, r = alg._isqrt_frac(c) if c else (Fr(0), 1)
        return Rat(pscale(patom(sqrt_atom(pconst(r))), k)) if r != 1 else rconst(k)
    p = a.n
    out = R1
    for f, e in a.d:
        if e % 2 and psign(f) in (1, ">=") and f.const() is None and len(f.t) > 1:
            # sqrt(n / f) = sqrt(n) sqrt(f) / f
            out = sdiv(smul(out, _sqrt(Rat(f))), Rat(f))
            e -= 1
        elif e % 2:
            p = pmul(p, f)
            e += 1
        fa = sabs(Rat(f))
        for _ in range(e // 2):
            out = sdiv(out, fa)
    k, s, q = content(p)
    if s < 0:
        q = pscale(q, -1)
    kk, r = alg._isqrt_frac(k)
    if r != 1:
        out = smul(out, ratom(sqrt_atom(pconst(r))))
    out = smul(out, rconst(kk))
    # even monomial factors
    ids = None
    for m in q.t:
        d = dict(m)
        ids = d if ids is None else {i: min(e, d[i]) for i, e in ids.items() if i in d}
    if ids:
        mono = tuple(sorted((i, e - e % 2) for i, e in ids.items() if e >= 2))
        if mono:
            q = Poly({alg._mdiv(m, mono): c for m, c in q.t.items()})
            for i, e in mono:
                fa = sabs(Rat(patom(Atom.lst[i])))
                for _ in range(e // 2):
                    out = smul(out, fa)
    if q.const() is not None:
        return smul(out, _sqrt(Rat(q)))
    h = poly_sqrt(q)
    if h is not None:
        return smul(out, sabs(Rat(h)))
    fg = alg.split_product(q)
    if fg and all(psign(x) in (1, ">=") for x in fg):
        for x in fg:
            h = poly_sqrt(x)
            out = smul(out, sabs(Rat(h)) if h is not None else ratom(sqrt_atom(x)))
        return out
    return smul(out, ratom(sqrt_atom(q)))


def ssqrt(x):
    return dapply(leaf1(_sqrt), x)


def spow(x, y):
    def f(a, b):
        c = b.const()
        if c is None:
            if a.const() is not None and a.const() == 1:
                return R1
            return fatom("pow", (a, b), lambda s: s.rat(a) ** s.rat(b))
        if c.denominator == 1 and abs(c) <= 12:
            r = rpow(a, int(c))
            return r if r is not None else INF
        if c == Fr(1, 2):
            return _sqrt(a)
        if c.denominator == 2 and abs(c) <= 6:
            n = int(c * 2)
            r = _sqrt(a)
            r2 = dapply(lambda z: rpow(z, n) if isinstance(z, Rat) else z, r)
            return r2
        return fatom("pow", (a, b), lambda s: abs(s.rat(a)) ** s.rat(b))
    return dapply(leaf2(f), x, y)


def fatom(name, args, evalf=None, isint=False, sign=None):
    key = (name,) + tuple(fp(a) for a in args)
    nm = "%s(%s)" % (name, ", ".join(short(a) for a in args))
    if evalf is not None:
        raw = evalf

        def evalf(s, raw=raw):
            try:
                return float(raw(s))
            except (ValueError, ZeroDivisionError, OverflowError):
                return float("nan")
    a = atom(key, nm, sign=sign, isint=isint, evalf=evalf, args=tuple(args), kind=name)
    return ratom(a)


def unit_range(p):
    """[lo, hi) of a sum of rational multiples of draws from [0, 1)"""
    lo = hi = 0
    draws = False
    for m, c in p.t.items():
        if not m:
            lo, hi = lo + c, hi + c
            continue
        if len(m) != 1 or m[0][1] != 1 or Atom.lst[m[0][0]].kind != "u01" or c < 0:
            return None
        hi += c
        draws = True
    return (lo, hi) if draws else None


def _floor(a):
    c = a.const()
    if c is not None:
        return rconst(math.floor(c))
    if isint(a):
        return a
    v = alg.numeric_value(a)
    if v is not None and abs(v - round(v)) > 1e-9:
        return rconst(math.floor(v))
    if not a.d:
        r = unit_range(a.n)
        if r is not None and r[1] <= math.floor(r[0]) + 1:
            return rconst(math.floor(r[0]))
        ip = {m: c for m, c in a.n.t.items() if c.denominator == 1 and all(Atom.lst[i].isint for i, _ in m)}
        if ip:
            rest = {m: c for m, c in a.n.t.items() if m not in ip}
            return radd(Rat(Poly(ip)), _floor(Rat(Poly(rest))))
        if () in a.n.t:
            c = a.n.t[()]
            k = math.floor(c)
            if k:
                return radd(rconst(k), _floor(radd(a, rconst(k), -1)))
    return fatom("floor", (a,), lambda s: math.floor(s.rat(a)), isint=True)


def sfloor(x):
    return dapply(leaf1(_floor), x)


def sceil(x):
    return sneg(sfloor(sneg(x)))


def sround(x):
    def f(a):
        c = a.const()
        if c is not None:
            return rconst(round(c))
        if isint(a):
            return a
        v = alg.numeric_value(a)
        if v is not None and abs(v - math.floor(v) - 0.5) > 1e-9:
            return rconst(round(v))
        k, s, q = content(a.n)
        if s < 0:
            return rneg(f(rneg(a)))
        return fatom("round", (a,), lambda s: round(s.rat(a)), isint=True)
    return dapply(leaf1(f), x)


def sfix(x):
    def f(a):
        if isint(a):
            return a
        return sgn(a, lambda s: R0 if s == 0 else (_floor(a) if s > 0 else sceil(a)))
    return dapply(leaf1(f), x)


def smod(x, y):
    def f(a, b):
        if b.is0():
            return NAN
        q = rmul(a, rinv(b))
        return radd(a, rmul(b, _floor(q)), -1)
    return dapply(leaf2(f), x, y)


def sfloordiv(x, y):
    return dapply(leaf2(lambda a, b: Unk("div0") if b.is0() else _floor(rmul(a, rinv(b)))), x, y)


PI = ratom(atom(("const", "pi"), "pi", sign="pos", evalf=lambda s: math.pi, kind="const"))
E_ = ratom(atom(("const", "e"), "e", sign="pos", evalf=lambda s: math.e, kind="const"))
_PIID = [i for (i, _), in PI.n.t][0]


def _trig(a, want):
    """want 'cos' or 'sin' of Rat a"""
    if a.is0():
        return R1 if want == "cos" else R0
    if not a.d and len(a.n.t) == 1:
        (m, c), = a.n.t.items()
        if len(m) == 1 and m[0][1] == 1:
            at = Atom.lst[m[0][0]]
            if at.kind == "arctan2" and c == 1:
                y, x = at.args
                h = _sqrt(radd(rmul(x, x), rmul(y, y)))
                return sdiv(x if want == "cos" else y, h)
            if at.kind == "arccos" and c == 1:
                x = at.args[0]
                return x if want == "cos" else _sqrt(radd(R1, rmul(x, x), -1))
            if at.kind == "arcsin" and c == 1:
                x = at.args[0]
                return x if want == "sin" else _sqrt(radd(R1, rmul(x, x), -1))
            if m[0][0] == _PIID:
                c = c % 2
                tab = {Fr(0): (1, 1), }
                k = c * 12
                if k.denominator == 1 and (k % 2 == 0 or k % 3 == 0):
                    k = int(k)

                    def cosk(k):
                        k %= 24
                        if k > 12:
                            k = 24 - k
                        s = 1
                        if k > 6:
                            k, s = 12 - k, -1
                        v = {0: R1, 2: smul(_sqrt(rconst(3)), rconst(Fr(1, 2))), 3: smul(_sqrt(rconst(2)), rconst(Fr(1, 2))),
                             4: rconst(Fr(1, 2)), 6: R0}[k]
                        return v if s > 0 else rneg(v)
                    return cosk(k if want == "cos" else k - 6)
                if c > 1:
                    r = _trig(Rat(Poly({m: 2 - c})), want)
                    return r if want == "cos" else rneg(r)
        if c < 0:
            r = _trig(rneg(a), want)
            return r if want == "cos" else sneg(r)
        if c.denominator == 1 and 2 <= c <= 4:
            h = Rat(Poly({m: c - 1}))
            o = Rat(Poly({m: Fr(1)}))
            return _trig_add(h, o, want)
        ca = fatom("cos", (a,), lambda s: math.cos(s.rat(a)))
        if want == "cos":
            return ca
        key = ("sin", fp_rat(a))
        sa = atom(key, "sin(%r)" % a, red=padd(pconst(1), pmul(ca.n, ca.n), -1), evalf=lambda s: math.sin(s.rat(a)), kind="sin")
        return ratom(sa)
    if not a.d:
        items = sorted(a.n.t.items())
        h = Rat(Poly(dict(items[:1])))
        t = Rat(Poly(dict(items[1:])))
        return _trig_add(h, t, want)
    # quotient argument: normalise the sign only
    k, s, q = content(a.n)
    if s < 0:
        r = _trig(rneg(a), want)
        return r if want == "cos" else sneg(r)
    ca = fatom("cos", (a,), lambda s: math.cos(s.rat(a)))
    if want == "cos":
        return ca
    sa = atom(("sin", fp_rat(a)), "sin(%r)" % a, red=padd(pconst(1), pmul(ca.n, ca.n), -1),
              evalf=lambda s: math.sin(s.rat(a)), kind="sin")
    return ratom(sa)


def _trig_add(x, y, want):
    if want == "cos":
        return ssub(smul(_trig(x, "cos"), _trig(y, "cos")), smul(_trig(x, "sin"), _trig(y, "sin")))
    return sadd(smul(_trig(x, "sin"), _trig(y, "cos")), smul(_trig(x, "cos"), _trig(y, "sin")))


def scos(x):
    return dapply(leaf1(lambda a: _trig(a, "cos")), x)


def ssin(x):
    return dapply(leaf1(lambda a: _trig(a, "sin")), x)


def sarctan2(y, x):
    def f(b, a):
        if a.is0():
            return sgn(b, lambda s: rmul(PI, rconst(Fr(s, 2))))
        c = None if b.is0() else _div(b, a)
        c = c.const() if isinstance(c, Rat) else None
        if c is not None and (a.const() is None or abs(a.const()) != 1):
            return sgn(a, lambda s: f(rconst(c * s), rconst(s)) if s else R0)

        def g(sy):
            if sy == 0:
                return sgn(a, lambda s: PI if s < 0 else R0)
            return fatom("arctan2", (b, a), lambda s: math.atan2(s.rat(b), s.rat(a)), sign="pos" if sy > 0 else None)
        s, core = rsign_parts(b)
        if core is None:
            return g(s)
        if not b.d and psign(b.n) == ">=":
            return fatom("arctan2", (b, a), lambda s: math.atan2(s.rat(b), s.rat(a)), sign="nonneg")
        ps = psign(core)
        if ps in (">=", "<="):
            return sgn(b, lambda q: g(q) if q in (0, s) else R0)
        return fatom("arctan2", (b, a), lambda s: math.atan2(s.rat(b), s.rat(a)))
    return dapply(leaf2(f), y, x)


def sarccos(x):
    def f(a):
        c = a.const()
        if c is not None:
            if c == 1:
                return R0
            if c == -1:
                return PI
            if c == 0:
                return rmul(PI, rconst(Fr(1, 2)))
            if abs(c) > 1:
                return NAN
        return fatom("arccos", (a,), lambda s: math.acos(s.rat(a)))
    return dapply(leaf1(f), x)


def sfun(name, fn):
    def g(x):
        return dapply(leaf1(lambda a: fatom(name, (a,), lambda s: fn(s.rat(a)))), x)
    return g


def scmp(op, x, y):
    def f(a, b):
        if isinstance(a, Unk):
            return a
        if isinstance(b, Unk):
            return b
        if (a is NAN or b is NAN) and op in ("==", "!=", "<", "<=", ">", ">="):
            return op == "!="
        p, q = num(a), num(b)
        if p is not None and q is not None:
            if op in ("==", "!="):
                r = sgn(radd(p, q, -1), lambda s: s == 0)
                return bnot(r) if op == "!=" else r
            if op == "<":
                return sgn(radd(q, p, -1), lambda s: s > 0)
            if op == "<=":
                return sgn(radd(q, p, -1), lambda s: s >= 0)
            if op == ">":
                return sgn(radd(p, q, -1), lambda s: s > 0)
            if op == ">=":
                return sgn(radd(p, q, -1), lambda s: s >= 0)
        if (a is INF or a is NINF or b is INF or b is NINF) and op in ("<", "<=", ">", ">="):
            va = 1e300 if a is INF else -1e300 if a is NINF else 0.0
            vb = 1e300 if b is INF else -1e300 if b is NINF else 0.0
            if a is not NAN and b is not NAN:
                return {"<": va < vb, "<=": va <= vb, ">": va > vb, ">=": va >= vb}[op]
        if op in ("==", "is"):
            return veq3(a, b)
        if op in ("!=", "is not"):
            return bnot(veq3(a, b))
        return Unk("compare %s %s" % (type(a).__name__, type(b).__name__))
    return dapply(f, x, y)


def veq3(a, b):
    """equality of non-numeric leaves as a condition"""
    if a is None or b is None:
        if a is b:
            return True
        x = b if a is None else a
        return False if isinstance(x, (Rat, bool, str, T, G, Seq, Ref)) else Unk("is None")
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (str, Rat, bool)) and isinstance(b, (str, Rat, bool)):
        return False
    if isinstance(a, Ref) and isinstance(b, Ref) and a is b:
        return True
    if isinstance(a, Special) and isinstance(b, Special):
        return a is b and a is not NAN
    fa, fb = fp(a), fp(b)
    if fa == fb:
        return True
    if "?" in (fa[:1], fb[:1]):
        return Unk("eq")
    k = tuple(sorted((fa, fb)))
    return bvar(("eq",) + k, "%s==%s" % (short(a), short(b)))


def smin(x, y):
    return dapply(leaf2(lambda a, b: sgn(radd(a, b, -1), lambda s: a if s < 0 else b)), x, y)


def smax(x, y):
    return dapply(leaf2(lambda a, b: sgn(radd(a, b, -1), lambda s: b if s < 0 else a)), x, y)


def truth(x):
    """value -> bool / DD of bool / Unk"""
    if isinstance(x, bool):
        return x
    if isinstance(x, DD):
        return dapply(truth, x)
    if x is None:
        return False
    if isinstance(x, Rat):
        return scmp("!=", x, R0)
    if isinstance(x, str):
        return bool(x)
    if isinstance(x, T):
        if len(x.data) == 1:
            return truth(x.data[0])
        return Unk("truth of array")
    if isinstance(x, Seq):
        return len(x.items) > 0
    if isinstance(x, Unk):
        return x
    if isinstance(x, Ref):
        return True
    if isinstance(x, Op):
        if fp(x).startswith("?"):
            return Unk("truth")
        return bvar(("truth", fp(x)), short(x))
    return Unk("truth")


# --------------------------------------------------------------------------
# fingerprints
# --------------------------------------------------------------------------


def fp(x):
    if isinstance(x, Rat):
        return fp_rat(x)
    if isinstance(x, DD):
        if x._fp is None:
            r = "D%d(%s)" % (x.var.id, ",".join(fp(k) for k in x.kids))
            if len(r) > 400:        # a digest: subdiagrams are shared, and their text would be exponential
                r = "D%d~%s%s" % (x.var.id, hashlib.sha256(r.encode()).hexdigest(), "?()" if "?(" in r else "")
            x._fp = r
        return x._fp
    if isinstance(x, bool) or x is None:
        return repr(x)
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, T):
        return "T%s[%s]" % (x.shape, ",".join(fp(d) for d in x.data))
    if isinstance(x, G):
        return "G[%s|%s]" % (",".join(fp(g) for g in x.guards), fp(x.t))
    if isinstance(x, Seq):
        if x.kind == "dict":
            return "dict{%s}" % ",".join(sorted(fp(k) + ":" + fp(v) for k, v in x.items))
        return "S(%s)" % ",".join(fp(i) for i in x.items)
    if isinstance(x, tuple):
        return "t(%s)" % ",".join(fp(i) for i in x)
    if isinstance(x, Op):
        if x._fp is None:
            x._fp = "%s(%s)" % (x.head, ",".join(fp(a) for a in x.args))
            if "?(" in x._fp:
                x._fp = "?" + x._fp
        return x._fp
    if isinstance(x, Ref):
        return "R%d" % x.node.nid
    if isinstance(x, Special):
        return x.name
    if isinstance(x, Unk):
        return "?()"
    return "?%s()" % type(x).__name__


def has_unk(x, seen=None):
    if isinstance(x, Unk):
        return True
    if isinstance(x, DD):
        seen = set() if seen is None else seen
        if id(x) in seen:
            return False
        seen.add(id(x))
        ks = x.kids
    elif isinstance(x, T):
        ks = x.data
    elif isinstance(x, G):
        if has_unk(x.t, seen):
            return True
        ks = x.guards
    elif isinstance(x, Seq):
        ks = x.items
    elif isinstance(x, tuple):
        ks = x
    elif isinstance(x, Op):
        ks = x.args
    else:
        return False
    seen = set() if seen is None else seen
    return any(has_unk(k, seen) for k in ks)


# --------------------------------------------------------------------------
# tensors
# --------------------------------------------------------------------------


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def strides(shape):
    out, k = [], 1
    for s in reversed(shape):
        out.append(k)
        k *= s
    return tuple(reversed(out))


def row(t, i):
    n = prod(t.shape[1:])
    d = t.data[i * n:(i + 1) * n]
    return unwrap(T(t.shape[1:], d))


def unwrap(t):
    if isinstance(t, T) and t.shape == ():
        return t.data[0]
    return t


def scalar(x):
    return isinstance(x, (Rat, bool, Special)) or (isinstance(x, DD) and x.sc)


def arr(x):
    """value -> T | G | Unk (scalars become 0-d)"""
    if isinstance(x, (T, G)):
        return x
    if scalar(x):
        return T((), [x])
    if isinstance(x, Seq) and x.kind == "glist":
        a = arr(Seq("list", [v for _, v in x.items]))
        return a if isinstance(a, Unk) else G([g for g, _ in x.items], a) if isinstance(a, T) else Unk("ragged")
    if isinstance(x, Seq) and x.kind in ("list", "tuple"):
        if not x.items:
            return T((0,), [])
        its = [arr(i) for i in x.items]
        if any(isinstance(i, Unk) for i in its):
            return next(i for i in its if isinstance(i, Unk))
        if any(isinstance(i, G) for i in its):
            return Unk("array of ragged rows")
        if any(i.shape != its[0].shape for i in its):
            # 1-element arrays mixed with scalars are not broadcast by numpy
            return Unk("ragged array")
        return T((len(its),) + its[0].shape, [d for i in its for d in i.data])
    if isinstance(x, Unk):
        return x
    if isinstance(x, (Op, Ref)) or isinstance(x, str) or x is None:
        return Unk("array of %s" % short(x))
    return Unk("array of %s" % type(x).__name__)


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and d != s[j]:
                    return None
                d = s[j]
        out.append(d)
    return tuple(out)


def bcast_to(t, shape):
    if t.shape == shape:
        return t.data
    n = len(shape)
    off = n - len(t.shape)
    st = strides(t.shape)
    sts = [0] * off + [0 if d == 1 else s for d, s in zip(t.shape, st)]
    out = [0]
    for d, s in zip(shape, sts):
        out = [b + i * s for b in out for i in range(d)]
    return [t.data[i] for i in out]


def blogic(f, g):
    """f on numbers, g on pairs of booleans out of arrays"""
    def h(x, y):
        return g(x, y) if boolish(x) and boolish(y) else f(x, y)
    return h


def ew(f, *xs):
    """elementwise with broadcasting; distributes over gated whole values"""
    if any(isinstance(x, DD) and not x.sc for x in xs):
        return dapply(lambda *ys: ew(f, *ys), *xs)
    ts = [arr(x) for x in xs]
    for t in ts:
        if isinstance(t, Unk):
            return t
    gs = [t for t in ts if isinstance(t, G)]
    if gs:
        g0 = gs[0]
        for g in gs[1:]:
            if len(g.guards) != len(g0.guards) or not all(leafeq(a, b) for a, b in zip(g.guards, g0.guards)):
                return Unk("rows selected differently")
        nd = max(len(g.t.shape) for g in gs)
        if any(len(g.t.shape) != nd for g in gs):
            return Unk("ranks of selected rows")
        for t in ts:
            if isinstance(t, T) and len(t.shape) >= nd and t.shape[len(t.shape) - nd] != 1:
                return Unk("dynamic length broadcast")
            if isinstance(t, T) and len(t.shape) > nd:
                return Unk("dynamic axis moved")
        r = ew(f, *[t.t if isinstance(t, G) else t for t in ts])
        return r if isinstance(r, Unk) else G(g0.guards, r if isinstance(r, T) else T((len(g0.guards),), [r]))
    sh = bshape([t.shape for t in ts])
    if sh is None:
        return Unk("shapes %s do not broadcast" % ([t.shape for t in ts],))
    cols = [bcast_to(t, sh) for t in ts]
    return unwrap(T(sh, [f(*c) for c in zip(*cols)]))


def transpose(t, axes=None):
    if isinstance(t, G):
        return t if len(t.t.shape) == 1 else Unk("transpose of selected rows")
    n = len(t.shape)
    axes = tuple(reversed(range(n))) if axes is None else tuple(a % n for a in axes)
    st = strides(t.shape)
    sh = tuple(t.shape[a] for a in axes)
    out = [0]
    for a in axes:
        out = [b + i * st[a] for b in out for i in range(t.shape[a])]
    return T(sh, [t.data[i] for i in out])


def reshape(t, shape):
    if isinstance(t, G):
        if shape == (-1,) and len(t.t.shape) == 1:
            return t
        return Unk("reshape of selected rows")
    shape = list(shape)
    n = len(t.data)
    if -1 in shape:
        k = prod([s for s in shape if s != -1])
        if k == 0 or n % k:
            return Unk("bad reshape")
        shape[shape.index(-1)] = n // k
    if prod(shape) != n:
        return Unk("bad reshape")
    return T(shape, t.data)


def reduce_axis(t, axis, f, keep=False):
    """fold entries along axis with f(list of entries)->entry"""
    if axis is None:
        r = f(t.data)
        return r if not keep else T((1,) * len(t.shape), [r])
    if isinstance(axis, tuple):
        for a in sorted([a % len(t.shape) for a in axis], reverse=True):
            t = arr(reduce_axis(t, a, f, keep))
        return unwrap(t)
    n = len(t.shape)
    if not -n <= axis < n:
        return Unk("axis out of range")
    axis %= n
    st = strides(t.shape)
    outer = [0]
    for k in range(n):
        if k != axis:
            outer = [b + i * st[k] for b in outer for i in range(t.shape[k])]
    data = [f([t.data[o + i * st[axis]] for i in range(t.shape[axis])]) for o in outer]
    sh = tuple(1 if k == axis else s for k, s in enumerate(t.shape) if keep or k != axis)
    return unwrap(T(sh, data))


def concat(ts, axis=0):
    ts = list(ts)
    if any(isinstance(t, Unk) for t in ts):
        return next(t for t in ts if isinstance(t, Unk))
    if any(isinstance(t, G) for t in ts):
        nd = max(len(t.t.shape) if isinstance(t, G) else len(t.shape) for t in ts)
        if axis not in (0,):
            return Unk("concatenate selected rows on axis")
        gs, data, tail = [], [], None
        for t in ts:
            if isinstance(t, G):
                gs += t.guards
                data += t.t.data
                tl = t.t.shape[1:]
            else:
                gs += [True] * t.shape[0]
                data += t.data
                tl = t.shape[1:]
            if tail is not None and tl != tail:
                return Unk("concat shapes")
            tail = tl
        return G(gs, T((len(gs),) + tail, data))
    n = len(ts[0].shape)
    if n == 0 or any(len(t.shape) != n for t in ts):
        return Unk("concat ranks")
    axis %= n
    for t in ts:
        if any(t.shape[k] != ts[0].shape[k] for k in range(n) if k != axis):
            return Unk("concat shapes %s" % ([t.shape for t in ts],))
    if axis == 0:
        return T((sum(t.shape[0] for t in ts),) + ts[0].shape[1:], [d for t in ts for d in t.data])
    mv = lambda t: transpose(t, (axis,) + tuple(k for k in range(n) if k != axis))
    c = concat([mv(t) for t in ts], 0)
    inv = [0] * n
    for i, a in enumerate((axis,) + tuple(k for k in range(n) if k != axis)):
        inv[a] = i
    return transpose(c, inv)


def matmul(a, b):
    if isinstance(a, G) or isinstance(b, G):
        if isinstance(a, G) and isinstance(b, T):
            r = matmul(a.t, b)
            return r if isinstance(r, Unk) else G(a.guards, r if isinstance(r, T) else T((1,), [r]))
        return Unk("matmul with selected rows")
    if not a.shape or not b.shape:
        return ew(smul, a, b)
    if len(a.shape) == 1 and len(b.shape) == 1:
        if a.shape != b.shape:
            return Unk("dot shapes")
        return sdot(a.data, b.data)
    if len(b.shape) == 1:
        if a.shape[-1] != b.shape[0]:
            return Unk("dot shapes %s %s" % (a.shape, b.shape))
        k = a.shape[-1]
        return unwrap(T(a.shape[:-1], [sdot(a.data[i:i + k], b.data) for i in range(0, len(a.data), k)]))
    if len(b.shape) == 2:
        k = a.shape[-1]
        if k != b.shape[0]:
            return Unk("dot shapes %s %s" % (a.shape, b.shape))
        m = b.shape[1]
        cols = [[b.data[r * m + c] for r in range(k)] for c in range(m)]
        data = []
        for i in range(0, len(a.data), k):
            for c in cols:
                data.append(sdot(a.data[i:i + k], c))
        return unwrap(T(a.shape[:-1] + (m,), data))
    return Unk("dot ranks")


def sdot(x, y):
    if x and y and all(boolish(a) for a in x) and all(boolish(b) for b in y):
        r = False                       # boolean arrays multiply to a boolean array
        for a, b in zip(x, y):
            r = bor(r, band(a, b))
        return r
    r = R0
    for a, b in zip(x, y):
        if a is NAN or b is NAN:
            return NAN
        if (isinstance(a, Rat) and a.is0()) or (isinstance(b, Rat) and b.is0()):
            continue
        r = sadd(r, smul(a, b))
    return r


def det(t):
    n = t.shape[0]
    if n == 1:
        return t.data[0]
    if n == 2:
        return ssub(smul(t.data[0], t.data[3]), smul(t.data[1], t.data[2]))
    r = R0
    for j in range(n):
        x = t.data[j]
        if isinstance(x, Rat) and x.is0():
            continue
        m = T((n - 1, n - 1), [t.data[i * n + k] for i in range(1, n) for k in range(n) if k != j])
        v = smul(x, det(m))
        r = sadd(r, v) if j % 2 == 0 else ssub(r, v)
    return r


def inv(t):
    n = t.shape[0]
    if n > 4:
        return Unk("inverse size")
    d = det(t)
    if n == 1:
        return T((1, 1), [sdiv(R1, d)])
    out = []
    for i in range(n):
        for j in range(n):
            m = T((n - 1, n - 1), [t.data[a * n + b] for a in range(n) if a != j for b in range(n) if b != i])
            c = det(m)
            if (i + j) % 2:
                c = sneg(c)
            out.append(sdiv(c, d))
    return T((n, n), out)


def ssum(xs):
    r = R0
    for x in xs:
        r = sadd(r, x)
    return r


def sprod(xs):
    r = R1
    for x in xs:
        r = smul(r, x)
    return r


def cint(x):
    """constant integer of a value, or None"""
    if isinstance(x, T) and len(x.data) == 1:
        x = x.data[0]
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Rat):
        c = x.const()
        if c is not None and c.denominator == 1:
            return int(c)
    return None


class Sl:
    """slice with constant bounds"""
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class SymSl:
    """slice whose bounds are decision diagrams over integers"""
    def __init__(self, a, b):
        self.a, self.b = a, b


def slice_rows(v, sl):
    """leading rows kept by a slice with piecewise constant bounds"""
    if not (isinstance(v, T) and v.shape):
        return Unk("symbolic slice")
    n = v.shape[0]

    def bound(x, dflt):
        if x is None:
            return rconst(dflt)
        return x
    gs = []
    for i in range(n):
        def f(lo, hi, i=i):
            lo, hi = cint(lo), cint(hi)
            if lo is None or hi is None:
                return Unk("slice bound")
            lo, hi, _ = slice(lo, hi).indices(n)
            return lo <= i < hi
        gs.append(dapply(f, bound(sl.a, 0), bound(sl.b, n)))
    if any(isinstance(g, Unk) for g in gs):
        return Unk("symbolic slice")
    return G(gs, v)


ELLIPSIS = Special("Ellipsis")


def getitem(t, i):
    """numpy / sequence indexing"""
    if isinstance(t, DD):
        return dapply(lambda x: getitem(x, i), t)
    if isinstance(i, DD):
        if isinstance(t, (T, G, Seq)) and not (isinstance(t, Seq) and t.kind == "dict"):
            return dapply(lambda j: getitem(t, j), i)
    if isinstance(t, Unk):
        return t
    if isinstance(t, Seq):
        if t.kind == "dict":
            for k, v in t.items:
                if fp(k) == fp(i):
                    return v
            return Unk("key")
        k = cint(i)
        if k is not None:
            if -len(t.items) <= k < len(t.items):
                return t.items[k]
            return Unk("index out of range")
        if isinstance(i, Sl):
            return Seq(t.kind, t.items[slice(i.a, i.b, i.c)])
        return Unk("index " + short(i))
    if isinstance(t, (Op, Ref)):
        return Op("[]", (t, i))
    if isinstance(t, str):
        k = cint(i)
        return t[k] if k is not None and -len(t) <= k < len(t) else Unk("str index")
    if not isinstance(t, (T, G)):
        return Unk("index of " + type(t).__name__)
    parts = list(i) if isinstance(i, tuple) else [i]
    if any(isinstance(p, DD) for p in parts):
        return dapply(lambda *ps: getitem(t, tuple(ps)), *parts)
    if any(isinstance(p, Unk) for p in parts):
        return Unk("index")
    if isinstance(t, G):
        return getitem_g(t, parts)
    return getitem_t(t, parts)


def _is_mask(p):
    return isinstance(p, T) and p.data and all(isinstance(x, bool) or (isinstance(x, DD) and boolish(x)) for x in p.data) \
        and len(p.shape) > 0


def boolish(x):
    if isinstance(x, DD):
        return all(boolish(k) for k in x.kids)
    return isinstance(x, bool)


def getitem_g(g, parts):
    p = parts[0]
    rest = parts[1:]
    if isinstance(p, Sl) and p.a is None and p.b is None and p.c is None or p is ELLIPSIS:
        if not rest:
            return g
        r = getitem_t(g.t, [Sl(None, None, None)] + rest) if p is not ELLIPSIS else getitem_t(g.t, [ELLIPSIS] + rest)
        return r if isinstance(r, Unk) else G(g.guards, r)
    if isinstance(p, G) and len(p.guards) == len(g.guards) and len(p.t.shape) == 1 \
            and all(leafeq(a, b) for a, b in zip(p.guards, g.guards)):
        if all(boolish(x) for x in p.t.data):
            t = g.t
            if rest:
                t = getitem_t(t, [Sl(None, None, None)] + rest)
                if isinstance(t, Unk):
                    return t
            return G([band(a, b) for a, b in zip(g.guards, p.t.data)], t)
    if all(x is True for x in g.guards):
        return getitem_t(g.t, parts)
    return Unk("index into selected rows")


def getitem_t(t, parts):
    # normalise
    nd = len(t.shape)
    parts = [arr(p) if isinstance(p, Seq) else p for p in parts]
    if any(isinstance(p, Unk) for p in parts):
        return Unk("index")
    used = 0
    for p in parts:
        if p is None or p is ELLIPSIS:
            continue
        used += len(p.shape) if _is_mask(p) else 1
    if ELLIPSIS in parts:
        k = parts.index(ELLIPSIS)
        parts = parts[:k] + [Sl(None, None, None)] * (nd - used) + parts[k + 1:]
    else:
        parts = parts + [Sl(None, None, None)] * (nd - used)
    if used > nd:
        return Unk("too many indices")
    # symbolic boolean mask / guarded index list
    for k, p in enumerate(parts):
        if isinstance(p, G) or (_is_mask(p) and not all(isinstance(x, bool) for x in p.data)):
            if any(not (isinstance(q, Sl) and q.a is None and q.b is None and q.c is None) for q in parts[:k]):
                return Unk("mask after other index")
            if k != 0:
                return Unk("mask on a later axis")
            rest = parts[k + 1:]
            if isinstance(p, G):
                if len(p.t.shape) != 1:
                    return Unk("2-d guarded index")
                if all(boolish(x) for x in p.t.data):
                    return Unk("guarded mask")
                sub = getitem_t(t, [p.t] + rest)
                return sub if isinstance(sub, Unk) else G(p.guards, sub)
            m = len(p.shape)
            if t.shape[:m] != p.shape:
                return Unk("mask shape %s for %s" % (p.shape, t.shape))
            flat = T((prod(p.shape),) + t.shape[m:], t.data)
            sub = getitem_t(flat, [Sl(None, None, None)] + rest) if rest else flat
            return sub if isinstance(sub, Unk) else G(p.data, sub)
    out_axes = []     # list of lists of offsets per output axis ; adv groups handled together
    st = strides(t.shape)
    ax = 0
    adv = []          # (position in out order, offsets tensor)
    plan = []         # ('s', offsets) | ('n',) | ('a', idx)
    for p in parts:
        if p is None:
            plan.append(("s", [0]))
            continue
        if _is_mask(p):
            m = len(p.shape)
            if t.shape[ax:ax + m] != p.shape:
                return Unk("mask shape %s for %s" % (p.shape, t.shape))
            sst = strides(p.shape)
            idxs = [j for j, x in enumerate(p.data) if x is True]
            offs = []
            for j in idxs:
                o = 0
                for q in range(m):
                    o += (j // sst[q]) % p.shape[q] * st[ax + q]
                offs.append(o)
            plan.append(("a", T((len(offs),), offs)))
            ax += m
            continue
        if isinstance(p, Sl):
            r = range(*slice(p.a, p.b, p.c).indices(t.shape[ax]))
            plan.append(("s", [i * st[ax] for i in r]))
            ax += 1
            continue
        k = cint(p) if not (isinstance(p, T) and p.shape) else None
        if k is not None and not isinstance(p, bool):
            if not -t.shape[ax] <= k < t.shape[ax]:
                return Unk("index out of bounds")
            plan.append(("i", (k % t.shape[ax]) * st[ax]))
            ax += 1
            continue
        if isinstance(p, T):
            ks = [cint(x) for x in p.data]
            if any(x is None for x in ks):
                if len(p.data) >= 1 and len(parts) >= 1 and any(isinstance(x, DD) for x in p.data) and p.shape and len(p.shape) == 1:
                    # symbolic integer entries: select row by row
                    pos = parts.index(p)
                    rows = [getitem(t, tuple(parts[:pos] + [x] + parts[pos + 1:])) for x in p.data]
                    if pos == 0 or all(isinstance(q, Sl) for q in parts[:pos]):
                        a = [arr(r) for r in rows]
                        if any(isinstance(x, (Unk, G)) for x in a) or any(x.shape != a[0].shape for x in a):
                            return Unk("symbolic index")
                        stacked = T((len(a),) + a[0].shape, [d for x in a for d in x.data])
                        if pos == 0:
                            return stacked
                        axes = list(range(1, len(stacked.shape)))
                        axes.insert(pos, 0)
                        return transpose(stacked, axes)
                return Unk("symbolic index")
            if any(not -t.shape[ax] <= x < t.shape[ax] for x in ks):
                return Unk("index out of bounds")
            plan.append(("a", T(p.shape, [(x % t.shape[ax]) * st[ax] for x in ks])))
            ax += 1
            continue
        return Unk("index " + short(p))
    base = sum(x[1] for x in plan if x[0] == "i")
    advs = [x[1] for x in plan if x[0] == "a"]
    if not advs:
        offs, sh = [base], []
        for x in plan:
            if x[0] == "s":
                offs = [o + q for o in offs for q in x[1]]
                sh.append(len(x[1]))
        return unwrap(T(sh, [t.data[o] for o in offs]))
    sh = bshape([a.shape for a in advs])
    if sh is None:
        return Unk("index broadcast")
    cols = [bcast_to(a, sh) for a in advs]
    comb = [sum(c) for c in zip(*cols)] if cols else [0]
    posn = [k for k, x in enumerate(plan) if x[0] in ("a", "i")]
    apos = [k for k, x in enumerate(plan) if x[0] == "a"]
    contiguous = posn == list(range(posn[0], posn[-1] + 1)) if len(posn) > 1 else True
    first = apos[0] if contiguous else -1
    offs, shp = [base], []
    placed = False
    if not contiguous:
        offs = [o + c for o in offs for c in comb]
        shp += list(sh)
        placed = True
    for k, x in enumerate(plan):
        if x[0] == "s":
            offs = [o + q for o in offs for q in x[1]]
            shp.append(len(x[1]))
        elif x[0] == "a" and not placed:
            offs = [o + c for o in offs for c in comb]
            shp += list(sh)
            placed = True
    return unwrap(T(shp, [t.data[o] for o in offs]))


class Pos:
    """position marker used to resolve stores through the indexing code"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


def setitem(t, i, v):
    if any(isinstance(x, DD) and not x.sc for x in (t,)):
        return dapply(lambda x: setitem(x, i, v), t)
    if isinstance(t, Seq):
        k = cint(i)
        if t.kind == "list" and k is not None and -len(t.items) <= k < len(t.items):
            its = list(t.items)
            its[k] = v
            return Seq("list", its)
        if t.kind == "dict":
            its = [(a, b) for a, b in t.items if fp(a) != fp(i)] + [(i, v)]
            return Seq("dict", its)
        return Unk("store in sequence")
    if isinstance(v, DD) and not v.sc:
        return dapply(lambda x: setitem(t, i, x), v)
    if isinstance(i, DD) or (isinstance(i, tuple) and any(isinstance(p, DD) for p in i)):
        ps = i if isinstance(i, tuple) else (i,)
        return dapply(lambda *q: setitem(t, q if isinstance(i, tuple) else q[0], v), *ps)
    if isinstance(t, G):
        if all(g is True for g in t.guards):
            t = t.t
        else:
            parts = i if isinstance(i, tuple) else (i,)
            p0 = parts[0]
            if isinstance(p0, G) and len(p0.guards) == len(t.guards) and all(leafeq(a, b) for a, b in zip(p0.guards, t.guards)):
                r = setitem(t.t, (p0.t,) + tuple(parts[1:]), v)
                return r if isinstance(r, Unk) else G(t.guards, r)
            if isinstance(p0, Sl) and p0.a is None and p0.b is None and p0.c is None or p0 is ELLIPSIS:
                if not isinstance(v, G):
                    r = setitem(t.t, tuple(parts), v)
                    return r if isinstance(r, Unk) else G(t.guards, r)
            return Unk("store into selected rows")
    if not isinstance(t, T):
        return Unk("store into " + type(t).__name__)
    pos = T(t.shape, [Pos(k) for k in range(len(t.data))])
    sub = getitem(pos, i)
    if isinstance(sub, Unk):
        return sub
    if isinstance(sub, Pos):
        sub = T((), [sub])
    data = list(t.data)
    if data and scalar(v) and isinstance(v, Rat) and v.const() is not None and all(isinstance(x, bool) for x in data):
        v = not v.is0()
    va = arr(v)
    if isinstance(va, Unk):
        # store of an unresolved value: only the addressed cells become unknown
        cells = sub.t.data if isinstance(sub, G) else sub.data
        for c in cells:
            data[c.k] = Unk("stored")
        return T(t.shape, data)
    if isinstance(sub, G):
        n = len(sub.guards)
        w = len(sub.t.data) // n if n else 0
        if isinstance(va, G):
            if len(va.guards) != n or not all(leafeq(a, b) for a, b in zip(va.guards, sub.guards)):
                return Unk("masked store of other rows")
            vals = bcast_to(va.t, sub.t.shape)
        else:
            if va.shape and len(va.shape) == len(sub.t.shape) and va.shape[0] != 1:
                return Unk("masked store of an array")
            vals = bcast_to(va, sub.t.shape) if bshape([va.shape, sub.t.shape]) == sub.t.shape else None
            if vals is None:
                return Unk("masked store shape")
        for j, c in enumerate(sub.t.data):
            data[c.k] = ite(sub.guards[j // w], vals[j], data[c.k])
        return T(t.shape, data)
    if isinstance(va, G):
        return Unk("store of selected rows")
    # numpy allows leading 1s
    vs = va
    while len(vs.shape) > len(sub.shape) and vs.shape[0] == 1:
        vs = T(vs.shape[1:], vs.data)
    if bshape([vs.shape, sub.shape]) != sub.shape:
        return Unk("store shape %s into %s" % (va.shape, sub.shape))
    for c, x in zip(sub.data, bcast_to(vs, sub.shape)):
        data[c.k] = x
    return T(t.shape, data)


LENG = {}    # length of a selection -> its guards


def length(x):
    if isinstance(x, T):
        return rconst(x.shape[0]) if x.shape else Unk("len of scalar")
    if isinstance(x, G):
        n = ssum([ite(g, R1, R0) for g in x.guards])
        if isinstance(n, DD):
            LENG[fp(n)] = x.guards
        return n
    if isinstance(x, Seq):
        if x.kind == "glist":
            return ssum([ite(g, R1, R0) for g, _ in x.items])
        return rconst(len(x.items))
    if isinstance(x, str):
        return rconst(len(x))
    if isinstance(x, DD):
        return dapply(length, x)
    if isinstance(x, Op):
        return fatom("len", (x,), isint=True, sign="nonneg")
    return Unk("len")


def rows(x):
    """list of (guard, item) of an iterable value, or None"""
    if isinstance(x, T):
        return [(True, row(x, i)) for i in range(x.shape[0])] if x.shape else None
    if isinstance(x, G):
        return [(g, row(x.t, i)) for i, g in enumerate(x.guards)]
    if isinstance(x, Seq):
        if x.kind == "dict":
            return [(True, k) for k, v in x.items]
        if x.kind == "glist":
            return list(x.items)
        if x.kind == "masked":
            d, m = x.items
            if not d.shape:
                return None
            if len(d.shape) < 2:
                return None
            return [(True, Seq("masked", [row(d, i), row(m, i)])) for i in range(d.shape[0])]
        return [(True, i) for i in x.items]
    if isinstance(x, str):
        return [(True, c) for c in x]
    return None
