"""Exact algebra used for value numbering: rational functions over named atoms.

Polynomials with rational coefficients over hash-consed atoms.  Atoms are input
symbols, square roots (s*s is rewritten to the radicand), sines (sin^2 is
rewritten to 1-cos^2) and uninterpreted function applications.  Two expressions
are the same value iff their difference reduces to the zero polynomial.
"""
import hashlib
import heapq
import math
from fractions import Fraction as Fr

MAXTERMS = 6000


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ("id", "key", "name", "sign", "isint", "red", "evalf", "args", "kind")
    tab = {}
    lst = []

    def __repr__(self):
        return self.name


def atom(key, name, sign=None, isint=False, red=None, evalf=None, args=(), kind="sym"):
    """sign: None | 'pos' | 'nonneg' | 'nonzero'"""
    a = Atom.tab.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom.lst)
        a.key, a.name, a.sign, a.isint, a.red, a.evalf, a.args, a.kind = key, name, sign, isint, red, evalf, args, kind
        Atom.lst.append(a)
        Atom.tab[key] = a
    return a


def hfloat(text, lo, hi):
    h = int(hashlib.md5(text.encode()).hexdigest()[:13], 16) / 16.0 ** 13
    return lo + (hi - lo) * h


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is0(self):
        return not self.t

    def const(self):
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        return {i for m in self.t for i, _ in m}

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (-sum(e for _, e in x[0]), x[0])):
            s = "*".join((Atom.lst[i].name if e == 1 else "%s^%d" % (Atom.lst[i].name, e)) for i, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
            if len(out) > 12:
                out.append("...")
                break
        return " + ".join(out).replace("+ -", "- ")


P0, P1 = Poly({}), Poly({(): Fr(1)})


def pconst(c):
    c = Fr(c)
    return Poly({(): c}) if c else P0


def patom(a):
    return Poly({((a.id, 1),): Fr(1)})


def padd(a, b, k=1):
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + k * c
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return Poly(t)


def pscale(a, k):
    return Poly({m: c * k for m, c in a.t.items()}) if k else P0


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for i, e in n:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def reducible(m):
    for i, e in m:
        if e > 1 and Atom.lst[i].red is not None:
            return i, e
    return None


def reduce_poly(t):
    """apply s^2 -> radicand rewriting until none applies"""
    work = t
    while True:
        hit = [m for m in work if reducible(m)]
        if not hit:
            return Poly(work)
        out = {m: c for m, c in work.items() if m not in hit}
        for m in hit:
            c = work[m]
            i, e = reducible(m)
            rest = tuple((j, f) for j, f in m if j != i)
            red = Atom.lst[i].red
            r = {(): Fr(1)}
            base = ppow(red, e // 2).t
            if e % 2:
                rest = mmul(rest, ((i, 1),))
            for mm, cc in base.items():
                k = mmul(rest, mm)
                v = out.get(k, 0) + c * cc
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
            if len(out) > MAXTERMS:
                raise TooBig()
        work = out


def pmul(a, b):
    if a.is0() or b.is0():
        return P0
    if len(a.t) * len(b.t) > 200000:
        raise TooBig()
    t = {}
    need = False
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = mmul(m, n)
            v = t.get(k, 0) + c * d
            if v:
                t[k] = v
            else:
                t.pop(k, None)
    if len(t) > MAXTERMS:
        raise TooBig()
    return reduce_poly(t)


def ppow(a, n):
    r = P1
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def lead(p):
    return max(p.t, key=lambda m: (sum(e for _, e in m), m))


def _mdiv(m, n):
    d = dict(m)
    for i, e in n:
        v = d.get(i, 0) - e
        if v < 0:
            return None
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


PRIME = (1 << 61) - 1


def _image(p, t, ids):
    """p modulo a prime, as a polynomial in atom t alone: the other atoms at fixed residues"""
    out = {}
    for m, c in p.t.items():
        v = c.numerator % PRIME
        if c.denominator != 1:
            v = v * pow(c.denominator, -1, PRIME) % PRIME
        k = 0
        for i, e in m:
            if i == t:
                k = e
            else:
                v = v * pow((i * 7919 + 104729) * 2654435761 % PRIME, e, PRIME) % PRIME
        out[k] = (out.get(k, 0) + v) % PRIME
    return [out.get(k, 0) for k in range(max(out, default=0) + 1)]


def _maydivide(a, b):
    """False: b certainly does not divide a (the images modulo a prime leave a remainder)"""
    t = max(b.atoms(), key=lambda i: max(e for m in b.t for j, e in m if j == i) * 100000 - i)
    A, B = _image(a, t, None), _image(b, t, None)
    while B and B[-1] == 0:
        B.pop()
    if len(B) < 2:
        return True
    inv = pow(B[-1], -1, PRIME)
    for k in range(len(A) - len(B), -1, -1):
        c = A[k + len(B) - 1] * inv % PRIME
        if c:
            for j, v in enumerate(B):
                A[k + j] = (A[k + j] - c * v) % PRIME
    return not any(A)


def pdivexact(a, b):
    """a / b when b divides a exactly (as free polynomials), else None"""
    if b.const() is not None:
        return pscale(a, 1 / b.const())
    if a.is0():
        return P0
    if len(a.t) < len(b.t) and len(b.t) > 1 and len(a.t) == 1:
        return None
    # quick reject by atoms, then by images
    if not b.atoms() <= a.atoms():
        return None
    if len(b.t) > 1 and not _maydivide(a, b):
        return None

    # graded lex over a fixed variable order; dense exponents
    ids = sorted(a.atoms())

    def gkey(m):
        d = dict(m)
        e = tuple(d.get(i, 0) for i in ids)
        return (sum(e),) + e
    B = [(gkey(m), c) for m, c in b.t.items()]
    lb, cb = max(B)
    rem = {gkey(m): c for m, c in a.t.items()}
    heap = [tuple(-x for x in k) for k in rem]
    heapq.heapify(heap)
    q = {}
    steps = 0
    while heap:
        lm = tuple(-x for x in heapq.heappop(heap))
        c = rem.get(lm)
        if c is None:
            continue
        steps += 1
        if steps > 2000:
            return None
        d = tuple(x - y for x, y in zip(lm, lb))
        if min(d) < 0:
            return None
        c = c / cb
        q[d] = c
        for m, cc in B:
            k = tuple(x + y for x, y in zip(d, m))
            o = rem.get(k)
            if o is None:
                rem[k] = -c * cc
                heapq.heappush(heap, tuple(-x for x in k))
            else:
                v = o - c * cc
                if v:
                    rem[k] = v
                else:
                    del rem[k]
    return Poly({tuple((i, e) for i, e in zip(ids, k[1:]) if e): c for k, c in q.items()})


def content(p):
    """(rational content > 0 , sign, primitive poly)"""
    if p.is0():
        return Fr(1), 1, p
    g, l = 0, 1
    for c in p.t.values():
        g = math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    k = Fr(g, l)
    s = 1 if p.t[min(p.t)] > 0 else -1
    return k, s, pscale(p, 1 / (k * s))


def psign(p):
    """known sign of a polynomial: 1, 0, -1, '>=', '<=', None"""
    c = p.const()
    if c is not None:
        return (c > 0) - (c < 0)
    lo = hi = 0     # seen strictly positive / nonneg ; strictly neg
    pos = neg = strict = False
    for m, c in p.t.items():
        st = True
        for i, e in m:
            s = Atom.lst[i].sign
            if s == "pos":
                continue
            if e % 2 == 0:
                if s != "nonzero":
                    st = False
                continue
            if s == "nonneg":
                st = False
                continue
            return _psign_def(p)
        if c > 0:
            pos = True
        else:
            neg = True
        strict = strict or st
    if pos and neg:
        return _psign_def(p)
    if pos:
        return 1 if strict else ">="
    return -1 if strict else "<="


ASSUME_POS = set()       # polynomials declared strictly positive by a driver


def _psign_def(p):
    k, s, q = content(p)
    if q in ASSUME_POS:
        return s
    if pscale(q, -1) in ASSUME_POS:
        return -s
    return _psign_iv(p)


ANGLES = [0.0, math.pi]      # range of angles between vectors (narrowed by drivers about general position)


def _numeric(r):
    for p in [r.n] + [f for f, _ in r.d]:
        for i in p.atoms():
            a = Atom.lst[i]
            if a.kind != "const" and not (a.kind == "sqrt" and a.red.const() is not None):
                return False
    return True


def numeric_value(r):
    """float value of an expression of constants and roots of constants"""
    if not _numeric(r):
        return None
    try:
        v = Sample(0).rat(r)
    except Exception:
        return None
    return v if abs(v) < 1e6 else None


def _range(a):
    if a.kind == "const" or (a.kind == "sqrt" and a.red.const() is not None):
        v = a.evalf(None) if a.kind == "const" else math.sqrt(a.red.const())
        return v, v
    if a.kind in ("arctan2", "arccos", "arcsin", "arctan") and all(isinstance(x, Rat) and _numeric(x) for x in a.args):
        try:
            v = a.evalf(Sample(0))
        except Exception:
            return None
        return v - 1e-13, v + 1e-13
    if a.kind == "u01":
        return 0.0, 1.0
    if a.kind in ("arctan2", "arccos") and (a.kind == "arccos" or a.sign in ("pos", "nonneg")):
        return tuple(ANGLES)
    return None


def _psign_iv(p):
    """interval evaluation over constants and angles"""
    lo = hi = mag = 0.0
    for m, c in p.t.items():
        a, b = float(c), float(c)
        for i, e in m:
            r = _range(Atom.lst[i])
            if r is None or e < 0:
                return None
            w = [x * y ** e for x in (a, b) for y in r]
            a, b = min(w), max(w)
        lo, hi, mag = lo + a, hi + b, mag + max(abs(a), abs(b))
    eps = 1e-12 * mag
    if lo > eps:
        return 1
    if hi < -eps:
        return -1
    return None


class Rat:
    """num / prod(den[f]**e)"""
    __slots__ = ("n", "d", "_fp")

    def __init__(self, n, d=()):
        self.n, self.d = n, d
        self._fp = None

    def is0(self):
        return self.n.is0()

    def const(self):
        return self.n.const() if not self.d else None

    def __repr__(self):
        s = repr(self.n)
        if self.d:
            s = "(%s)/(%s)" % (s, " * ".join(("(%r)" % f) + ("^%d" % e if e > 1 else "") for f, e in self.d))
        return s

    def denpoly(self):
        r = P1
        for f, e in self.d:
            r = pmul(r, ppow(f, e))
        return r


def rconst(c):
    return Rat(pconst(c))


R0, R1 = rconst(0), rconst(1)


def ratom(a):
    return Rat(patom(a))


def cancel(n, d):
    if n.is0():
        return Rat(P0)
    out = []
    for f, e in d:
        while e > 0:
            q = None
            if len(n.t) <= 3000:
                q = pdivexact(n, f)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out.append((f, e))
    return Rat(n, tuple(out))


def radd(a, b, k=1):
    if a.is0():
        return b if k == 1 else rneg(b)
    if b.is0():
        return a
    if a.d == b.d:
        n = padd(a.n, b.n, k)
        return cancel(n, a.d) if a.d else Rat(n)
    da, db = dict(a.d), dict(b.d)
    den = dict(da)
    for f, e in db.items():
        den[f] = max(den.get(f, 0), e)
    ma, mb = P1, P1
    for f, e in den.items():
        x = e - da.get(f, 0)
        if x:
            ma = pmul(ma, ppow(f, x))
        x = e - db.get(f, 0)
        if x:
            mb = pmul(mb, ppow(f, x))
    n = padd(pmul(a.n, ma), pmul(b.n, mb), k)
    return cancel(n, tuple(sorted(den.items(), key=lambda t: t[0].key())))


def rneg(a):
    return Rat(pscale(a.n, Fr(-1)), a.d)


def rmul(a, b):
    if a.is0() or b.is0():
        return R0
    n = pmul(a.n, b.n)
    if not a.d and not b.d:
        return Rat(n)
    den = dict(a.d)
    for f, e in b.d:
        den[f] = den.get(f, 0) + e
    return cancel(n, tuple(sorted(den.items(), key=lambda t: t[0].key())))


DIVISORS = []       # what the analysed code divides by: an input at which one of them vanishes is outside every formula


def rinv(a):
    """1/a ; None when a is identically zero"""
    if a.is0():
        return None
    if a.const() is None and len(DIVISORS) < 20000:
        DIVISORS.append(a)
    n = P1
    for f, e in a.d:
        n = pmul(n, ppow(f, e))
    p = a.n
    c = p.const()
    if c is not None:
        return Rat(pscale(n, 1 / c))
    # split off monomial content
    ids = None
    for m in p.t:
        d = dict(m)
        ids = d if ids is None else {i: min(e, d.get(i, 0)) for i, e in ids.items() if i in d}
    den = []
    res = Rat(n)
    if ids:
        mono = tuple(sorted((i, e) for i, e in ids.items() if e))
        if mono:
            p = Poly({_mdiv(m, mono): c for m, c in p.t.items()})
            for i, e in mono:
                at = Atom.lst[i]
                if at.kind == "sqrt":
                    # 1/s = s/q
                    for _ in range(e):
                        iq = rinv(Rat(at.red))
                        if iq is None:
                            return None
                        res = rmul(res, rmul(Rat(patom(at)), iq))
                else:
                    res = rmul(res, Rat(P1, ((patom(at), e),)))
    c = p.const()
    if c is not None:
        return Rat(pscale(res.n, 1 / c), res.d)
    # rationalise a denominator that is linear in a single square root
    k, s, q = content(p)
    return rmul(res, Rat(pconst(1 / (k * s)), ((q, 1),)))


def rpow(a, n):
    if n == 0:
        return R1
    if n < 0:
        a = rinv(a)
        if a is None:
            return None
        n = -n
    r = R1
    while n:
        if n & 1:
            r = rmul(r, a)
        n >>= 1
        if n:
            a = rmul(a, a)
    return r


def req(a, b):
    if a is b:
        return True
    if a.d == b.d:
        return padd(a.n, b.n, -1).is0()
    return radd(a, b, -1).is0()


def isint(a):
    if a.d:
        return False
    return all(c.denominator == 1 and all(Atom.lst[i].isint for i, _ in m) for m, c in a.n.t.items())


def rsign_parts(a):
    """polynomial with the same sign as a (denominators folded in), reduced to a primitive core:
    -> (known sign) or (polarity, core Poly)"""
    if a.is0():
        return 0, None
    p = a.n
    pol = 1
    for f, e in a.d:
        if e % 2 == 0:
            continue
        s = psign(f)
        if s in (1, ">="):
            continue
        if s in (-1, "<="):
            pol = -pol
            continue
        p = pmul(p, f)
    # strip positive atoms common to all monomials
    ids = None
    for m in p.t:
        d = dict(m)
        ids = d if ids is None else {i: min(e, d[i]) for i, e in ids.items() if i in d}
    if ids:
        mono = []
        for i, e in ids.items():
            s = Atom.lst[i].sign
            if s == "pos":
                mono.append((i, e))
            elif s == "nonzero" and e >= 2:
                mono.append((i, e - e % 2))
        if mono:
            mono = tuple(sorted(mono))
            p = Poly({_mdiv(m, mono): c for m, c in p.t.items()})
    # strip positive declared factors
    for f in ASSUME_POS:
        if len(p.t) > 1:
            q = pdivexact(p, f)
            while q is not None:
                p = q
                q = pdivexact(p, f)
    s = psign(p)
    if s in (0, 1, -1):
        return pol * s, None
    # A*s + B with s = sqrt(q) >= 0
    roots = [i for i in p.atoms() if Atom.lst[i].kind == "sqrt"]
    for i in roots:
        A, B = {}, {}
        ok = True
        for m, c in p.t.items():
            d = dict(m)
            if i in d:
                d.pop(i)
                A[tuple(sorted(d.items()))] = c
            else:
                B[m] = c
        A, B = Poly(A), Poly(B)
        sa, sb = psign(A), psign(B)
        q = Atom.lst[i].red
        if sa in (1, ">=") and sb in (-1, "<=", 0):
            r = padd(pmul(pmul(A, A), q), pmul(B, B), -1)
            x = rsign_parts(Rat(r))
            return (pol * x[0], x[1])
        if sa in (-1, "<=") and sb in (1, ">=", 0):
            r = padd(pmul(B, B), pmul(pmul(A, A), q), -1)
            x = rsign_parts(Rat(r))
            return (pol * x[0], x[1])
        if sa == 1 and sb == 1:
            return pol, None
        if sa == -1 and sb == -1:
            return -pol, None
    k, sg, q = content(p)
    return pol * sg, q


# -- numeric instances (used only to exhibit a witness of a difference) ------

class Sample:
    strict = False      # give up instead of returning a value dominated by rounding

    def __init__(self, seed, special=None):
        self.seed = seed
        self.cache = {}
        self.special = special or {}

    def atom(self, i):
        v = self.cache.get(i)
        if v is None:
            a = Atom.lst[i]
            if a.evalf is not None:
                v = a.evalf(self)
            elif a.name in self.special:
                v = self.special[a.name]
            else:
                # opaque applications share their key, hence their value
                nm = "%s|%s" % (a.name if a.kind == "sym" else repr(a.key), self.seed)
                if a.isint:
                    v = float(int(hfloat(nm, 0, 6)) if a.sign == "nonneg" else int(hfloat(nm, 1, 9)) if a.sign == "pos" else int(hfloat(nm, -6, 7)))
                elif a.sign in ("pos", "nonneg"):
                    v = hfloat(nm, 0.3, 2.7)
                else:
                    v = hfloat(nm, -2.3, 2.6)
            self.cache[i] = v
        return v

    def poly(self, p):
        r = mag = 0.0
        for m, c in p.t.items():
            x = float(c)
            for i, e in m:
                x *= self.atom(i) ** e
            r += x
            mag += abs(x)
        if self.strict and r and abs(r) < 1e-10 * mag:
            raise ZeroDivisionError("cancellation")
        return r

    def rat(self, a):
        r = self.poly(a.n)
        for f, e in a.d:
            r /= self.poly(f) ** e
        return r


class FPSample(Sample):
    """generic point for fingerprints: step functions and values outside a function's domain get a value of their own
    (keyed by the fingerprints of the arguments), else different expressions would coincide there"""

    def atom(self, i):
        v = self.cache.get(i)
        if v is None:
            a = Atom.lst[i]
            if a.isint:
                v = hfloat("%r|%s" % (a.key, self.seed), 1, 9) * (-1 if a.sign is None and hfloat("%r|s%s" % (a.key, self.seed), 0, 1) < .5 else 1)
            elif a.kind == "sqrt":
                v = math.sqrt(abs(self.poly(a.red))) if a.red is not None else Sample.atom(self, i)
            else:
                v = Sample.atom(self, i)
            if v != v or v in (float("inf"), float("-inf")):
                v = hfloat("%r|%s" % (a.key, self.seed), -3, 3)
            self.cache[i] = v
        return v


FPS = [FPSample("fp1"), FPSample("fp2")]


def qz(x):
    if x != x or x in (float("inf"), float("-inf")):
        return repr(x)
    if abs(x) < 1e-9:
        return "0"
    return "%.7e" % x


def fp_rat(a):
    if a._fp is None:
        c = a.const()
        if c is not None:
            a._fp = "#" + str(c)
        else:
            try:
                a._fp = "~" + "|".join(qz(s.rat(a)) for s in FPS)
            except (ZeroDivisionError, OverflowError, ValueError):
                a._fp = "!" + repr(a.n.key()) + repr([(f.key(), e) for f, e in a.d])
    return a._fp


# -- function atoms --------------------------------------------------------

def _isqrt_frac(c):
    """c = k^2 * r with r squarefree integer -> (k, r)"""
    n = c.numerator * c.denominator
    k, r, f = 1, 1, 2
    while f * f <= n and f < 2000:
        while n % (f * f) == 0:
            n //= f * f
            k *= f
        if n % f == 0:
            n //= f
            r *= f
        f += 1
    if n > 1:
        q = math.isqrt(n)
        if q * q == n:
            k *= q
        else:
            r *= n
    return Fr(k, c.denominator), r


def sqrt_atom(p):
    key = ("sqrt", p.key())
    return atom(key, "sqrt(%r)" % (p,), sign="pos" if psign(p) == 1 else "nonneg", red=p,
                evalf=lambda s, p=p: math.sqrt(max(s.poly(p), 0.0)), kind="sqrt")


def split_product(p):
    """(f, g) with p == f * g and f, g over disjoint groups of symbols, or None"""
    if len(p.t) > 80 or len(p.t) < 4:
        return None
    groups = {}
    for i in p.atoms():
        groups.setdefault(Atom.lst[i].name.split("[")[0], set()).add(i)
    if len(groups) < 2:
        return None
    for S in groups.values():
        m0 = min(p.t)
        inn = tuple((i, e) for i, e in m0 if i in S)
        out = tuple((i, e) for i, e in m0 if i not in S)
        f, g = {}, {}
        for m, c in p.t.items():
            a = tuple((i, e) for i, e in m if i in S)
            b = tuple((i, e) for i, e in m if i not in S)
            if b == out:
                f[a] = c
            if a == inn:
                g[b] = c / p.t[m0]
        if len(f) * len(g) == len(p.t) and len(f) > 1 and len(g) > 1:
            f, g = Poly(f), Poly(g)
            if pmul(f, g) == p:
                if psign(f) in (-1, "<=") and psign(g) in (-1, "<="):
                    f, g = pscale(f, -1), pscale(g, -1)
                return f, g
    return None


def poly_sqrt(p):
    """exact square root polynomial (up to sign) of p, or None (small cases only)"""
    if len(p.t) > 60:
        return None
    ids = sorted(p.atoms())

    def gkey(m):
        d = dict(m)
        e = tuple(d.get(i, 0) for i in ids)
        return (sum(e), e)

    def halve(m):
        if any(e % 2 for _, e in m):
            return None
        return tuple((i, e // 2) for i, e in m)
    lm = max(p.t, key=gkey)
    h = halve(lm)
    if h is None:
        return None
    c = p.t[lm]
    if c <= 0:
        return None
    k, r = _isqrt_frac(c)
    if r != 1:
        return None
    q = Poly({h: k})
    rem = padd(p, pmul(q, q), -1)
    for _ in range(40):
        if rem.is0():
            return q
        m = max(rem.t, key=gkey)
        d = _mdiv(m, h)
        if d is None:
            return None
        nq = Poly({d: rem.t[m] / (2 * k)})
        rem = padd(padd(rem, pscale(pmul(q, nq), 2), -1), pmul(nq, nq), -1)
        q = padd(q, nq)
        if len(q.t) > 30:
            return None
    return None
