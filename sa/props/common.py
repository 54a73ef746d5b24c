"""Shared models of opaque collaborators."""
import itertools

from sa import compare, dom
from sa.alg import rconst
from sa.vfg import K, SYM


def weak_orders(n):
    """all weak orderings of n labelled elements as rank tuples"""
    out = []
    for t in itertools.product(range(n), repeat=n):
        s = sorted(set(t))
        if s == list(range(len(s))):
            out.append(t)
    return out


def interior_model(ev, o, a, k):
    """membership of a point in an opaque region: one boolean per (region, point)"""
    if isinstance(o, dom.Ref) and o.node.op == "obj":
        return dom.Unk("membership of an object the analysis did not enter")
    x = a[0] if a else k.get("testPoints")
    P = dom.arr(x)

    def one(r):
        return dom.bvar(("in", dom.fp(o), dom.fp(r)), "in(%s,%s)" % (dom.short(o), dom.short(r)))

    def go(t):
        if len(t.shape) == 1:
            t = dom.reshape(t, (1,) + t.shape)
        return dom.T((t.shape[0],), [one(dom.row(t, i)) for i in range(t.shape[0])])
    if isinstance(P, dom.G):
        return dom.G(P.guards, go(P.t))
    if isinstance(P, dom.T):
        return go(P)
    return NotImplemented


MODELS = {"methods": {"checkIfInterior": interior_model}}


def populate_hook(counts, cls_attr=("atoms", "species")):
    """populating an opaque object replaces its atoms and species by fresh ones"""
    def pop(e, b, pos, kw, st, ex):
        if b.op != "sym" or b.args[0] not in counts:
            return NotImplemented
        n = b.args[0]
        v = st.heap.get((b, "#pop"))
        v = (v.args[0] if v is not None else 0) + 1
        st.heap[(b, "#pop")] = K(v)
        k = counts[n]
        st.heap[(b, "atoms")] = SYM("at%s%d" % (n, v), ("arr", (k, 3)))
        st.heap[(b, "species")] = SYM("sp%s%d" % (n, v), ("arr", (k,)))
        return K(None)
    return pop


def gated_rows(x):
    """[(guard, row value)] of a (possibly filtered) array, or None"""
    x = dom.arr(x) if not isinstance(x, (dom.T, dom.G)) else x
    if isinstance(x, dom.G):
        return [(g, dom.row(x.t, i)) for i, g in enumerate(x.guards)]
    if isinstance(x, dom.T):
        return [(True, dom.row(x, i)) for i in range(x.shape[0])]
    if isinstance(x, dom.Seq) and x.kind in ("list", "tuple", "glist"):
        return dom.rows(x)
    return None


def in_var(obj, row):
    return dom.bvar(("in", dom.fp(obj), dom.fp(row)), "in(%s,%s)" % (dom.short(obj), dom.short(row)))


# ---- convex hulls and triangulations ------------------------------------------
_ids = itertools.count()
HULL, TRI = "scipy.spatial.ConvexHull", "scipy.spatial.Delaunay"


def flat(en, x):
    """all points are certainly one and the same: they have no hull"""
    v = dom.arr(en.oracle.ev.ev(x))
    return isinstance(v, dom.T) and len(v.shape) == 2 and v.shape[0] > 1 and not dom.has_unk(v) and \
        len({repr(dom.fp(dom.row(v, i))) for i in range(v.shape[0])}) == 1


def hull_hooks(e):
    """every constructed hull is a distinct object; add_points extends exactly that one"""
    from sa.vfg import N

    def mk(en, pos, kw, st, ex):
        a = tuple(en.frozen(x, st) for x in pos)
        k = tuple((n, en.frozen(x, st)) for n, x in kw)
        if a and flat(en, a[0]):
            return en.throw("QhullError", st, ex)
        n = N("call", N("ext", HULL), a, k + (("#id", K(next(_ids))),))
        en.emit("call", st, n, ex)
        return n

    def add(en, b, pos, kw, st, ex):
        if not (b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] == HULL):
            return NotImplemented
        a = b.args[1]
        p = pos[0] if pos else dict(kw).get("points")
        x = a[0] if a else dict(b.args[2]).get("points")
        if p is None or x is None:
            return NotImplemented
        if dict(kw).get("restart") is not None:
            pass
        new = N("call", N("ext", "numpy.append"), (x, en.frozen(p, st)), (("axis", K(0)),))
        en.rebind(b, N("call", b.args[0], (new,), b.args[2]), st)
        return K(None)
    e.fhooks[HULL] = mk
    e.mhooks["add_points"] = add


def ptset(X):
    """canonical name of the convex hull of a set of rows"""
    X = dom.arr(X)
    if not isinstance(X, dom.T):
        return None
    return tuple(sorted({repr(dom.fp(dom.row(X, i))) for i in range(X.shape[0])}))


def _pts(a, k):
    return a[0] if a else k.get("points")


def f_hull(ev, a, k):
    X = dom.arr(_pts(a, k))
    return dom.Op("Hull", (X,)) if isinstance(X, dom.T) else NotImplemented


def f_tri(ev, a, k):
    X = dom.arr(_pts(a, k))
    return dom.Op("Tri", (X,)) if isinstance(X, dom.T) else NotImplemented


def a_points(ev, v):
    if isinstance(v, dom.Op) and v.head in ("Hull", "Tri"):
        return v.args[0]
    return NotImplemented


def a_vertices(ev, v):
    if isinstance(v, dom.Op) and v.head == "Hull":
        n = v.args[0].shape[0]
        return dom.T((n,), [rconst(i) for i in range(n)])
    return NotImplemented


def inhull(X, r, tol):
    return dom.bvar(("inhull", ptset(X), dom.fp(r), dom.fp(tol)), "inhull(%s)" % dom.short(r))


def m_find_simplex(ev, o, a, k):
    if not (isinstance(o, dom.Op) and o.head == "Tri"):
        return NotImplemented
    a = list(a)
    P = dom.arr(a[0] if a else k.get("xi"))
    tol = k.get("tol", a[2] if len(a) > 2 else None)
    if not isinstance(P, dom.T):
        return NotImplemented

    def one(r):
        v = inhull(o.args[0], r, tol)
        which = dom.fatom("simplex", (o.args[0], r), isint=True, sign="nonneg")
        return dom.ite(v, which, rconst(-1))
    if len(P.shape) == 1:
        return one(P)
    return dom.T((P.shape[0],), [one(dom.row(P, i)) for i in range(P.shape[0])])


GEO = {"methods": {"checkIfInterior": interior_model, "find_simplex": m_find_simplex},
       "functions": {HULL: f_hull, TRI: f_tri},
       "attrs": {"points": a_points, "vertices": a_vertices}}


# ---- generators ------------------------------------------------------------------
LATT = "pymatgen.core.Lattice"
STRUCT = "pymatgen.core.Structure"


def structure(name, natoms, bases=None):
    """env and setup entries for an unknown unit cell of natoms sites"""
    env = {name: ("ext", STRUCT), name + "_l": ("ext", LATT), name + "_fc": ("arr", (natoms, 3)), name + "_sp": ("arr", (natoms,)),
           name + "_m": ("arr", (3, 3))}

    def setup(e, en):
        lat = en[name + "_l"]
        return {(en[name], "lattice"): lat, (lat, "matrix"): en[name + "_m"], (en[name], "frac_coords"): en[name + "_fc"],
                (en[name], "atomic_numbers"): en[name + "_sp"]}
    return env, setup


def match_rows(found, required, extra_ok=None, samples=6):
    """every required row is among the found rows (order is free), none twice; extra_ok(row) judges the rest.
    -> (status, detail) with status holds / differs / unknown"""
    left = {}
    for i, r in enumerate(found):
        left.setdefault(dom.fp(r), []).append(i)
    miss = []
    for r in required:
        k = left.get(dom.fp(r[1] if isinstance(r, tuple) else r))
        if k:
            k.pop()
        else:
            miss.append(r)
    rest = [i for v in left.values() for i in v]
    if not miss and (not rest or extra_ok is None):
        return ("holds", "") if not rest else ("holds", "%d further rows" % len(rest))
    hit = 0
    for k in range(samples):
        s = compare.Sample("m%d" % k)
        try:
            fv = [compare.nv(found[i], s) for i in rest]
            bad = None
            used = set()
            for r in miss:
                nm, x = r if isinstance(r, tuple) else (dom.short(r), r)
                v = compare.nv(x, s)
                j = next((j for j, w in enumerate(fv) if j not in used and compare.close(v, w) is None), None)
                if j is None:
                    bad = "%s is missing (valuation %s)" % (nm, compare.valuation(s))
                    break
                used.add(j)
            if bad is None and extra_ok is not None:
                for j, w in enumerate(fv):
                    if j not in used:
                        m = extra_ok(w, s)
                        if m:
                            bad = m
                            break
        except (compare.Inconclusive, ZeroDivisionError, OverflowError, ValueError):
            continue
        if bad:
            return "differs", bad
        hit += 1
    return ("holds", "numerically matched") if hit == samples and all(not dom.has_unk(x) for x in found) else ("unknown", "rows could not be matched")


def items(x):
    """entries of a list or the rows of an array"""
    if isinstance(x, dom.Seq):
        return list(x.items)
    x = dom.arr(x)
    return [dom.row(x, i) for i in range(x.shape[0])]
