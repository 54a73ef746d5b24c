"""Equality of abstract values.

HOLDS      the two canonical forms coincide (boundary branches of sign
           conditions are ignored when the obligation says so);
DIFFERS    a concrete valuation of the symbols separates them (the separating
           valuation is part of the report);
UNKNOWN    neither.
"""
import math

from . import alg, dom
from .alg import Rat, Sample, req
from .dom import DD, G, Op, Ref, Seq, Special, T, Unk, leafeq

HOLDS, DIFFERS, UNKNOWN = "holds", "differs", "unknown"


def canon_eq(a, b, zero=False, memo=None):
    memo = {} if memo is None else memo
    if a is b:
        return not dom.has_unk(a)
    if isinstance(a, DD) or isinstance(b, DD):
        key = (a.uid if isinstance(a, DD) else id(a), b.uid if isinstance(b, DD) else id(b))
        if key in memo:
            return memo[key]
        v = min((x.var for x in (a, b) if isinstance(x, DD)), key=lambda q: q.id)
        n = 2 if v.kind == "b" else 3
        r = True
        ps = alg.psign(v.info) if n == 3 else None
        for i in range(n):
            if n == 3 and i == 1 and not zero and not all(alg.Atom.lst[j].isint for j in v.info.atoms()):
                continue       # a boundary of measure zero
            if (ps in (">=", ">") and i == 0) or (ps in ("<=", "<") and i == 2):
                continue
            p = a.kids[i] if isinstance(a, DD) and a.var is v else a
            q = b.kids[i] if isinstance(b, DD) and b.var is v else b
            if not canon_eq(p, q, zero, memo):
                r = False
                break
        memo[key] = r
        return r
    if isinstance(a, Unk) or isinstance(b, Unk):
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, Rat) and isinstance(b, Rat):
        return req(a, b) or same_constant(a, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, T):
        return a.shape == b.shape and all(canon_eq(x, y, zero, memo) for x, y in zip(a.data, b.data))
    if isinstance(a, G):
        return len(a.guards) == len(b.guards) and a.t.shape == b.t.shape and \
            all(canon_eq(x, y, zero, memo) for x, y in zip(a.guards, b.guards)) and canon_eq(a.t, b.t, zero, memo)
    if isinstance(a, Seq):
        if a.kind == "dict" and b.kind == "dict":
            if len(a.items) != len(b.items):
                return False
            d = {dom.fp(k): v for k, v in b.items}
            return all(dom.fp(k) in d and canon_eq(v, d[dom.fp(k)], zero, memo) for k, v in a.items)
        if (a.kind == "glist") != (b.kind == "glist") or (a.kind == "rot") != (b.kind == "rot"):
            return False
        return len(a.items) == len(b.items) and all(canon_eq(x, y, zero, memo) for x, y in zip(a.items, b.items))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(canon_eq(x, y, zero, memo) for x, y in zip(a, b))
    if isinstance(a, Op):
        if a.head != b.head or len(a.args) != len(b.args):
            return False
        return all(canon_eq(x, y, zero, memo) for x, y in zip(a.args, b.args))
    if isinstance(a, (str, type(None))):
        return a == b
    return a is b


def same_constant(a, b):
    """two constants that differ by rounding only"""
    x, y = alg.numeric_value(a), alg.numeric_value(b)
    return x is not None and y is not None and x == x and abs(x - y) <= 4e-15 * max(abs(x), abs(y))


class Inconclusive(Exception):
    pass


def nv(x, s):
    """numeric instance of an abstract value under a sample"""
    if isinstance(x, DD):
        return nv(x.kids[x.var.evalf(s)], s)
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, Rat):
        try:
            v = s.rat(x)
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Inconclusive()
        if isinstance(v, complex) or v != v or abs(v) > 1e12:
            raise Inconclusive()
        return v
    if isinstance(x, T):
        return nest(x.shape, [nv(d, s) for d in x.data])
    if isinstance(x, G):
        n = dom.prod(x.t.shape[1:])
        out = []
        for i, g in enumerate(x.guards):
            gv = nv(g, s)
            if not isinstance(gv, bool):
                raise Inconclusive()
            if gv:
                out.append(nest(x.t.shape[1:], [nv(d, s) for d in x.t.data[i * n:(i + 1) * n]]))
        return ("arr", len(out)) + tuple(out) if n != 0 else ("arr", len(out))
    if isinstance(x, Seq):
        if x.kind == "dict":
            return ("dict",) + tuple(sorted(((repr(nv(k, s)), nv(v, s)) for k, v in x.items), key=lambda t: t[0]))
        if x.kind == "glist":
            out = []
            for g, v in x.items:
                gv = nv(g, s)
                if not isinstance(gv, bool):
                    raise Inconclusive()
                if gv:
                    out.append(nv(v, s))
            return ("seq",) + tuple(out)
        return ("seq",) + tuple(nv(i, s) for i in x.items)
    if isinstance(x, tuple):
        return tuple(nv(i, s) for i in x)
    if isinstance(x, Op):
        if dom.has_unk(x):
            raise Inconclusive()
        return ("op:" + x.head,) + tuple(nv(a, s) for a in x.args)
    if isinstance(x, Ref):
        return ("ref", x.node.nid)
    if isinstance(x, Special):
        return x.name
    raise Inconclusive()


def nest(shape, data):
    if not shape:
        return data[0]
    n = dom.prod(shape[1:])
    return ("arr", shape[0]) + tuple(nest(shape[1:], data[i * n:(i + 1) * n]) for i in range(shape[0]))


def close(a, b, path=""):
    """None when equal, else a path to the difference"""
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return None if a == b else path or "value"
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return None if float(a) == float(b) else path or "value"
        return path or "value"
    if isinstance(a, float) and isinstance(b, float):
        return None if abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)) else path or "value"
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and b and {a[0], b[0]} == {"arr", "seq"}:
            # a list and an array of the same entries
            a2 = a[2:] if a[0] == "arr" else a[1:]
            b2 = b[2:] if b[0] == "arr" else b[1:]
            a, b = ("seq",) + a2, ("seq",) + b2
        if len(a) != len(b):
            return (path or "value") + ".length"
        for i, (x, y) in enumerate(zip(a, b)):
            r = close(x, y, "%s[%d]" % (path, i - 1))
            if r is not None:
                return r
        return None
    return None if type(a) is type(b) and a == b else path or "value"


def uncertain_op(a, b):
    """different uninterpreted applications prove nothing"""
    def ops(x, out):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0].startswith("op:"):
                out.add(x[0])
            for y in x:
                ops(y, out)
        return out
    return ops(a, set()) != ops(b, set())


def zero_hit(x, s, tol=1e-9):
    return False


def symbols(x, out=None, seen=None):
    """the symbols an abstract value mentions"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, (list, tuple)):
        for y in x:
            symbols(y, out, seen)
    elif isinstance(x, DD):
        if x.uid not in seen:
            seen.add(x.uid)
            if x.var.info is not None:
                symbols(x.var.info, out, seen)
            for k in x.kids:
                symbols(k, out, seen)
    elif isinstance(x, Rat):
        symbols(x.n, out, seen)
        for p, _ in x.d:
            symbols(p, out, seen)
    elif isinstance(x, alg.Poly):
        for i in x.atoms():
            if ("a", i) in seen:
                continue
            seen.add(("a", i))
            at = alg.Atom.lst[i]
            if at.kind == "sym":
                out.add(i)
            elif at.red is not None:
                symbols(at.red, out, seen)
            symbols(at.args, out, seen)
    elif isinstance(x, T):
        symbols(x.data, out, seen)
    elif isinstance(x, G):
        symbols(x.guards, out, seen)
        symbols(x.t, out, seen)
    elif isinstance(x, (Seq, Op)):
        symbols(list(x.items if isinstance(x, Seq) else x.args), out, seen)
    return out


def zero_specials(*xs):
    """valuations that make one whole vector or number vanish, where nothing says it cannot"""
    groups = {}
    for i in symbols(list(xs)):
        a = alg.Atom.lst[i]
        if a.evalf is None:
            groups.setdefault(a.name.split("[")[0], []).append(a)
    out = []
    for g, at in sorted(groups.items()):
        if all(a.sign is None or a.sign == "nonneg" for a in at):
            out.append({a.name: 0.0 for a in at})
    return out


def near_specials(*xs, limit=40):
    """valuations at which code with a threshold may switch: numbers and vectors of small and large magnitude, of nearly
    unit length, and nearly equal to one another"""
    groups = {}
    for i in sorted(symbols(list(xs))):
        a = alg.Atom.lst[i]
        if a.evalf is None and not a.isint:
            groups.setdefault(a.name.split("[")[0], []).append(a)

    def gen(a, k):
        return alg.hfloat("%s|n%d" % (a.name, k), 0.4, 2.4) * (1 if a.sign is not None or alg.hfloat("%s|m%d" % (a.name, k), 0, 1) < .5 else -1)
    out = []
    for k, (g, at) in enumerate(sorted(groups.items())):
        base = [gen(a, k) for a in at]
        for f in (1e-3, 0.03, 20.0, 500.0):
            out.append({a.name: f * v for a, v in zip(at, base)})
        if len(at) > 1:
            n = sum(v * v for v in base) ** .5
            out.append({a.name: v / n * 1.004 for a, v in zip(at, base)})
            big = max(range(len(base)), key=lambda j: abs(base[j]))
            out.append({a.name: v * (1 if j == big else 1e-3) for j, (a, v) in enumerate(zip(at, base))})
    gs = sorted(groups)
    for x, g in enumerate(gs):
        for h in gs[x + 1:]:
            if len(groups[g]) == len(groups[h]) and all(a.sign == b.sign for a, b in zip(groups[g], groups[h])):
                v = [gen(a, 7) for a in groups[g]]
                out.append(dict([(a.name, y) for a, y in zip(groups[g], v)] +
                                [(a.name, y * (1 + 1e-4 * (j + 1))) for j, (a, y) in enumerate(zip(groups[h], v))]))
    return out[:limit] if len(out) <= limit else [out[j * len(out) // limit] for j in range(limit)]


def undefined(s):
    for q in alg.DIVISORS:
        try:
            if abs(s.rat(q)) < 1e-12:
                return True
        except (ZeroDivisionError, OverflowError, ValueError):
            return True
    return False


def difference(a, b, s, strict_ops=True):
    """None | 'bad' | detail"""
    s.strict = True
    try:
        x, y = nv(a, s), nv(b, s)
        d = close(x, y)
    except Inconclusive:
        return "bad"
    except (ZeroDivisionError, OverflowError, ValueError):
        return "bad"
    if d is None:
        return None
    if strict_ops and uncertain_op(x, y):
        return "bad"
    what = "at %s: found %s, required %s (valuation %s)" % (d, pick(x), pick(y), valuation(s))
    s.strict = False
    return "bad" if undefined(s) else what


def verdict(a, b, zero=False, samples=24, specials=(), strict_ops=True, thresholds=True):
    """-> (status, detail)"""
    try:
        if canon_eq(a, b, zero):
            if not zero:
                for k, sp in enumerate(zero_specials(a, b)):
                    d = difference(a, b, Sample("z%d" % k, sp), strict_ops)
                    if d is not None and d != "bad":
                        return DIFFERS, d
            return HOLDS, ""
    except RecursionError:
        pass
    bad = 0
    for k in range(samples):
        s = Sample("w%d" % k, specials[k % len(specials)] if specials else None)
        s.strict = True
        try:
            x, y = nv(a, s), nv(b, s)
            d = close(x, y)
        except Inconclusive:
            bad += 1
            continue
        except (ZeroDivisionError, OverflowError, ValueError):
            bad += 1
            continue
        if d is not None:
            if strict_ops and uncertain_op(x, y):
                bad += 1
                continue
            return DIFFERS, "at %s: found %s, required %s (valuation %s)" % (d, pick(x), pick(y), valuation(s))
    if not specials and thresholds:
        for k, sp in enumerate(([] if zero else zero_specials(a, b)) + near_specials(a, b)):
            d = difference(a, b, Sample("n%d" % k, sp), strict_ops)
            if d is not None and d != "bad":
                return DIFFERS, d
    return UNKNOWN, "no separating valuation in %d samples (%d inconclusive)" % (samples, bad)


def pick(x):
    s = repr(x)
    return s if len(s) < 240 else s[:237] + "..."


def valuation(s):
    out = []
    for i, v in sorted(s.cache.items()):
        a = alg.Atom.lst[i]
        if a.kind == "sym" and a.evalf is None:
            out.append("%s=%.4g" % (a.name, v))
    return ", ".join(out[:24])
