"""Abstract interpretation of the bounding regions: the extents a sphere or a cylinder's box must reach, as normal
forms over symbolic centres, axes and radii, compared with those of the returned corners. For planes, the linear
programme and the half-space intersection are interpreted as what they compute (the region of the planes they were
given), equivariantly under translations, so that whatever shift the code applies before has to be undone after."""
import itertools
from fractions import Fraction

from sa import alg, compare, dom
from sa.alg import req
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed, arrty as A
from sa.dom import Op, Rat, Seq, T, rconst, sadd, smul, ssub
from . import common as cm

LP, HS = "scipy.optimize.linprog", "scipy.spatial.HalfspaceIntersection"
FREE = (None, None)
HALF = rconst(Fraction(1, 2))


def cst(x):
    return x.const() if isinstance(x, Rat) else None


def tensor(x):
    x = dom.arr(x)
    return x if isinstance(x, T) else None


def entry(x):
    return None if x is None else cst(x) if isinstance(x, Rat) else "?"


def f_lp(ev, a, k):
    """linear programme of the largest ball inside the half-spaces n.x <= b"""
    names = ("c", "A_ub", "b_ub", "A_eq", "b_eq", "bounds", "method")
    d = dict(zip(names, a))
    d.update(k)
    c, M, b = (tensor(d.get(n)) for n in ("c", "A_ub", "b_ub"))
    if c is None or M is None or b is None or d.get("A_eq") is not None or c.shape != (4,) or len(M.shape) != 2 or M.shape[1] != 4:
        return NotImplemented
    m = M.shape[0]
    if dom.prod(b.shape) != m:
        return NotImplemented
    cc = [cst(x) for x in c.data]
    if any(x is None for x in cc) or any(cc[:3]) or not cc[3] < 0:
        return NotImplemented
    bd = d.get("bounds")
    if bd is None:
        bounds = [(0, None)] * 4
    elif isinstance(bd, Seq):
        rows = [r.items if isinstance(r, Seq) else None for r in bd.items]
        if len(rows) == 2 and None in [r and len(r) for r in rows]:
            rows = [bd.items] * 4
        if len(rows) == 1:
            rows = rows * 4
        if len(rows) != 4 or any(r is None or len(r) != 2 for r in rows):
            return NotImplemented
        bounds = [tuple(entry(x) for x in r) for r in rows]
    else:
        return NotImplemented
    for i in range(m):
        n2 = rconst(0)
        for j in range(3):
            n2 = sadd(n2, smul(M.data[4 * i + j], M.data[4 * i + j]))
        if not req(n2, smul(M.data[4 * i + 3], M.data[4 * i + 3])):
            return NotImplemented
    A3 = T((m, 3), [M.data[4 * i + j] for i in range(m) for j in range(3)])
    if not all(x in (FREE, (float("-inf"), float("inf"))) for x in bounds[:3]):
        if any(x != (0, None) for x in bounds[:3]):
            return NotImplemented
        return Op("LP", (A3, T((m,), [dom.sneg(x) for x in b.data]), "positive"))
    if bounds[3] not in (FREE, (0, None)):
        return NotImplemented
    return Op("LP", (A3, T((m,), [dom.sneg(x) for x in b.data]), "free"))


def canon(A3, d):
    """order of the half-spaces that does not depend on how they are listed, and three independent ones"""
    m = A3.shape[0]
    rows = [[cst(A3.data[3 * i + j]) for j in range(3)] for i in range(m)]
    if any(x is None for r in rows for x in r) or not all(map(any, rows)):
        return None
    # a half-space is given up to a positive factor
    f = [1 / max(map(abs, r)) for r in rows]
    d = T((m,), [smul(rconst(f[i]), d.data[i]) for i in range(m)])
    rows = [[f[i] * x for x in r] for i, r in enumerate(rows)]
    o = sorted(range(m), key=lambda i: (rows[i], repr(dom.fp(d.data[i]))))
    rows = [rows[i] for i in o]
    dd = [d.data[i] for i in o]
    for s in itertools.combinations(range(m), 3):
        M = [rows[i] for i in s]
        det = sum(M[0][i] * (M[1][(i + 1) % 3] * M[2][(i + 2) % 3] - M[1][(i + 2) % 3] * M[2][(i + 1) % 3]) for i in range(3))
        if det:
            inv = [[(M[(j + 1) % 3][(i + 1) % 3] * M[(j + 2) % 3][(i + 2) % 3] - M[(j + 1) % 3][(i + 2) % 3] * M[(j + 2) % 3][(i + 1) % 3]) / det for j in range(3)] for i in range(3)]
            w = []
            for i in range(3):
                x = rconst(0)
                for j in range(3):
                    x = ssub(x, smul(rconst(inv[i][j]), dd[s[j]]))
                w.append(x)
            return rows, dd, w
    return None


def place(kind, A3, d, count):
    """points that move with the region: vertices (or centre) of the region n.x + d <= 0"""
    cn = canon(A3, d)
    if cn is None:
        return None
    rows, dd, w = cn
    rel = []
    for r, x in zip(rows, dd):
        for j in range(3):
            x = sadd(x, smul(rconst(r[j]), w[j]))
        rel.append(x)
    key = T((len(rows), 3), [rconst(x) for r in rows for x in r])
    return T((count, 3), [sadd(w[j], dom.fatom("facet", ("#" + kind, rconst(v), rconst(j), key, T((len(rel),), rel)))) for v in range(count) for j in range(3)])


def f_hs(ev, a, k):
    d = dict(zip(("halfspaces", "interior_point"), a))
    d.update(k)
    H, x = tensor(d.get("halfspaces")), tensor(d.get("interior_point"))
    if H is None or x is None or len(H.shape) != 2 or H.shape[1] != 4 or x.shape != (3,):
        return NotImplemented
    m = H.shape[0]
    A3, dd = T((m, 3), [H.data[4 * i + j] for i in range(m) for j in range(3)]), T((m,), [H.data[4 * i + 3] for i in range(m)])
    c = place("centre", A3, dd, 1)
    if c is None:
        return NotImplemented
    if all(req(p, q) for p, q in zip(c.data, x.data)):
        return Op("HS", (A3, dd))
    from sa.alg import Atom
    if any(Atom.lst[i].kind == "facet" for y in x.data if isinstance(y, Rat) for mono in y.n.t for i, _ in mono):
        # the centre of something else: outside in general, which is an error of the intersection
        return Op("HS", (A3, dd, "outside"))
    return NotImplemented


def f_min(ev, a, k):
    """a shift taken from the least coordinates is arbitrary"""
    X = tensor(a[0])
    ax = a[1] if len(a) > 1 else k.get("axis")
    if X is None or len(X.shape) != 2 or cst(ax) != 0 or all(cst(x) is not None for x in X.data):
        return NotImplemented
    n, m = X.shape
    return T((m,), [dom.fatom("facet", ("#least",) + tuple(sorted((X.data[i * m + j] for i in range(n)), key=lambda x: repr(dom.fp(x))))) for j in range(m)])


def f_min2(ev, a, k):
    x = [tensor(y) for y in a[:2]]
    if len(x) != 2 or None in x or any(y.shape != (3,) for y in x):
        return NotImplemented
    return f_min(ev, [T((2, 3), list(x[0].data) + list(x[1].data)), rconst(0)], {})


def world(status):
    """status the linear programme reports: of the region the caller's planes have in this world"""
    def a_status(ev, o):
        if isinstance(o, Op) and o.head == "LP":
            return rconst(status if o.args[2] == "free" else 2)
        return NotImplemented

    def a_success(ev, o):
        if isinstance(o, Op) and o.head == "LP":
            return status == 0 and o.args[2] == "free"
        return NotImplemented

    def a_x(ev, o):
        if isinstance(o, Op) and o.head == "LP":
            c = place("centre", o.args[0], o.args[1], 1)
            if c is not None:
                return T((4,), list(c.data) + [dom.fatom("facet", ("#radius", o.args[0], o.args[1]))])
        return NotImplemented

    def a_int(ev, o):
        if isinstance(o, Op) and o.head == "HS":
            if len(o.args) == 3:
                return T((4, 3), [dom.fatom("facet", ("#none", rconst(i))) for i in range(12)])
            r = place("vertex", o.args[0], o.args[1], 4)
            return NotImplemented if r is None else r
        return NotImplemented
    return {"functions": {LP: f_lp, HS: f_hs, "numpy.min": f_min, "numpy.amin": f_min, "numpy.max": f_min, "numpy.amax": f_min, "numpy.minimum": f_min2, "numpy.maximum": f_min2}, "attrs": {"status": a_status, "success": a_success, "x": a_x, "intersections": a_int}}


# unit normals; every arrangement bounds a region
TILT = ["(3,4,0)", "(-3,-4,0)", "(4,-3,0)", "(-4,3,0)", "(0,0,1)", "(0,0,-1)"]
SKEW = ["(2,3,6)", "(-2,-3,-6)", "(1,-2,2)", "(-1,2,-2)", "(4,0,-3)", "(-4,0,3)", "(0,1,0)"]
TETRA = ["(1,2,2)", "(-2,-1,2)", "(2,-2,1)", "(-3,0,-4)", "(0,-4,-3)"]
SETS = [("turned box", TILT), ("turned box, other order", TILT[::-1]), ("seven turned planes", SKEW), ("five turned planes", TETRA)]


def planes_src(ns):
    return "[%s]" % ",".join("Plane(np.array(%s,dtype=float),P[%d])" % (n, i) for i, n in enumerate(ns))


def unit(n):
    v = eval(n)
    s = sum(x * x for x in v)
    r = int(round(s ** 0.5))
    assert r * r == s
    return [Fraction(x, r) for x in v]


def region(ns, P, move=None):
    rows = [unit(n) for n in ns]
    d = []
    for i, r in enumerate(rows):
        p = dom.row(P, i)
        x = rconst(0)
        for j in range(3):
            pj = p.data[j] if move is None else sadd(p.data[j], move.data[j])
            x = ssub(x, smul(rconst(r[j]), pj))
        d.append(x)
    return place("vertex", T((len(rows), 3), [rconst(x) for r in rows for x in r]), T((len(d),), d), 4)


def reaches(x, y):
    d = ssub(x, y)
    return isinstance(d, Rat) and not d.d and alg.psign(d.n) in (0, 1, ">=")


def cyl_post(run, v):
    """corners of a box are listed in any order: heights up first, then by their place around the axis. A box that is
    larger encloses as well."""
    if not (isinstance(v, Seq) and len(v.items) == 4):
        return v
    h, g, L, r = v.items
    h, g = tensor(h), tensor(g)
    if h is None or g is None or h.shape != (8,) or g.shape != (8, 8):
        return v
    if not all(isinstance(x, Rat) for x in list(h.data) + list(g.data) + [L, r]):
        return v

    half = smul(L, HALF)
    r2 = smul(rconst(2), smul(r, r))
    G = lambda i, j: g.data[8 * i + j]
    lam, mu = h.data[0], G(0, 0)
    if not reaches(lam, half):
        lam = dom.sneg(lam)
    if not (reaches(lam, half) and reaches(mu, r2)):
        return v
    same = lambda x, y: req(x, y)
    hs = [1 if same(x, lam) else -1 if same(x, dom.sneg(lam)) else None for x in h.data]
    gs = [0 if x.const() == 0 else 1 if same(x, mu) else -1 if same(x, dom.sneg(mu)) else None for x in g.data]
    if None in hs or None in gs:
        return v
    G = lambda i, j: gs[8 * i + j]
    lam = mu = 1
    up = [i for i in range(8) if hs[i] == lam]
    dn = [i for i in range(8) if hs[i] == -lam]
    if len(up) != 4 or len(dn) != 4:
        return v
    o = []
    for end in (up, dn):
        base = 0 if 0 in up else up[0]
        first = next((i for i in end if G(i, up[0]) == mu), None)
        last = next((i for i in end if G(i, up[0]) == -mu), None)
        mid = [i for i in end if G(i, up[0]) == 0]
        if first is None or last is None or len(mid) != 2:
            return v
        if end is dn:
            ref = o[1]
            mid.sort(key=lambda i: -G(i, ref))
        o += [first, mid[0], mid[1], last]
    H = T((8,), [smul(half, rconst(hs[i])) for i in o])
    GG = T((8, 8), [smul(r2, rconst(G(i, j))) for i in o for j in o])
    return Seq("tuple", [H, GG, L, r])


CYL_SPEC = """
z=2*r*r*np.array([[1.,0,0,-1],[0,1,-1,0],[0,-1,1,0],[-1,0,0,1]])
return np.array([1.,1,1,1,-1,-1,-1,-1])*L/2,np.vstack([np.hstack([z,z]),np.hstack([z,z])]),L*1.0,r*1.0
"""


def box_encloses(X, c, r):
    e = 1e-9 * (1 + abs(r) + max(map(abs, c)))
    need = {tuple((k >> j) & 1 for j in range(3)) for k in range(8)}
    for x in X:
        s = tuple(int(x[j] > c[j]) for j in range(3))
        if all(abs(x[j] - c[j]) >= r - e for j in range(3)):
            need.discard(s)
    return not need


def corner_post(run, v):
    """corners in any order: sorted by the sign pattern about their mean"""
    X = tensor(v)
    if X is None or X.shape != (8, 3) or not all(isinstance(x, Rat) for x in X.data):
        return v
    mean = []
    for j in range(3):
        s = rconst(0)
        for i in range(8):
            s = sadd(s, X.data[3 * i + j])
        mean.append(smul(s, rconst(Fraction(1, 8))))
    rows = sorted(range(8), key=lambda i: [_positive(ssub(X.data[3 * i + j], mean[j])) for j in range(3)])
    return T((8, 3), [X.data[3 * i + j] for i in rows for j in range(3)])


def _positive(x):
    c = alg.psign(x.n)
    return 1 if c == 1 and not x.d else 0 if c == -1 and not x.d else 2


def no_failures(e):
    e.excworld = False


def failing(e):
    e.excworld = True


BOX_SPEC = "np.array([[i,j,k] for i in (-1.,1.) for j in (-1.,1.) for k in (-1.,1.)])"


def run(c):
    env = dict(P=A(8, 3), p=A(3), q=A(3), n=A(3), t=A(3), M=A(3, 3), r="float", L="float", s="float", tol="float", X=A(5, 3), a=A(3))
    pos = {"r": "pos", "L": "pos", "s": "pos", "n": "nonzero", "tol": "pos"}
    V = "czone/volume/volume.py"
    # hull points
    R = "the region of a volume with points is its points"
    for nm, drv, sp in [("points", "return Volume(points=X).get_bounding_box()", "return X"),
                        ("points and surfaces", "return Volume(points=X,alg_objects=[Sphere(1.0,p),Plane(n,q)]).get_bounding_box()", "return X"),
                        ("points added", "v=Volume(points=X)\nv.get_bounding_box()\nv.addPoints(P)\nreturn v.get_bounding_box()", "return np.vstack([X,P])"),
                        ("points replaced", "v=Volume(points=X)\nv.get_bounding_box()\nv.points=P\nreturn v.get_bounding_box()", "return P"),
                        ("points moved", "v=Volume(points=X)\nv.get_bounding_box()\nv.transform(MatrixTransform(M))\nv.transform(Translation(t))\nreturn v.get_bounding_box()", "return X@M.T+t"),
                        ("points of a copy", "v=Volume(points=X)\nw=v.from_volume(transformation=[Translation(t)])\nreturn w.get_bounding_box()", "return X+t"),
                        ]:
        c.eq(nm, drv, sp, env, pos, at=V + " get_bounding_box", rule=R, models=cm.GEO, hooks=cm.hull_hooks)
    # spheres
    R = "the region of a bounding sphere is the cube around it"
    for nm, drv, ctr, rad in [
            ("a sphere", "v=Volume(alg_objects=[Sphere(r,p)])\n", "p", "r"),
            ("a sphere added", "v=Volume()\nv.add_alg_object(Sphere(r,p))\n", "p", "r"),
            ("a sphere moved", "v=Volume(alg_objects=[Sphere(r,p)])\nv.get_bounding_box()\nv.transform(Translation(t))\n", "p+t", "r"),
            ("a sphere mapped", "v=Volume(alg_objects=[Sphere(r,p)])\nv.get_bounding_box()\nv.transform(Rotation(np.array([[0.,-1,0],[1,0,0],[0,0,1]]),origin=t))\n", "np.array([t[0]-(p[1]-t[1]),t[1]+p[0]-t[0],p[2]])", "r"),
            ("a sphere changed", "v=Volume(alg_objects=[Sphere(r,p)])\nv.get_bounding_box()\nb=v.alg_objects[0]\nb.radius=s\nb.center=q\n", "q", "s"),
            ("a sphere among planes", "v=Volume(alg_objects=[Plane(n,q),Sphere(r,p),Plane(-n,p),Plane(n,p),Plane(n,p)])\n", "p", "r"),
            ("a sphere after a cylinder", "v=Volume(alg_objects=[Cylinder(n,q,s,L),Sphere(r,p)])\n", "p", "r"),
            ("a sphere of a copy", "v=Volume(alg_objects=[Sphere(r,p)]).from_volume(transformation=[Translation(t)])\n", "p+t", "r"),
    ]:
        c.eq(nm, drv + "return v.get_bounding_box()", "return (%s)+%s*%s" % (ctr, rad, BOX_SPEC), env, pos, at=V + " get_bounding_box", rule=R, post=corner_post)
    R = "with several spheres, the region is the cube around one of them"
    for k in (2, 3) if not c.thorough else (2, 3, 4):
        for o in cm.weak_orders(k):
            for extra in ("", "Plane(n,q),", "Cylinder(n,q,s,L),"):
                drv = "v=Volume(alg_objects=[%s%s])\nreturn v.get_bounding_box()" % (extra, ",".join("Sphere(%d.5,P[%d])" % (x, i) for i, x in enumerate(o)))
                c.run("spheres of radii %s%s" % (",".join("%d.5" % x for x in o), " and " + extra[:5] if extra else ""),
                      lambda drv=drv, o=o: several(c, drv, [x + .5 for x in o], env, pos), R, V + " get_bounding_box")
    # rectangular prisms
    c.eq("rectangular prism", "return makeRectPrism(r,L,s)", "return np.array([r,L,s])*(%s+1)/2" % BOX_SPEC, env, pos, at="czone/volume/volume.py makeRectPrism",
         rule="the corners of a box span its extents", post=corner_post)
    c.eq("rectangular prism with a centre", "return makeRectPrism(r,L,s,center=p)", "return p+np.array([r,L,s])*%s/2" % BOX_SPEC, env, pos, at="czone/volume/volume.py makeRectPrism",
         rule="the corners of a box span its extents", post=corner_post)
    # cylinders
    R = "eight corners, four per end, of a square around the cylinder"
    tail = "\na=(%s)/np.sqrt((%s)@(%s))\nB=B-(%s)\nh=B@a\nR=B-np.outer(h,a)\nreturn h,R@R.T,%s*1.0,%s*1.0"
    for nm, drv, ax, pt, rad, ln in [
            ("a cylinder", "B=Cylinder(n,p,r,L).get_bounding_box()", "n", "p", "r", "L"),
            ("a cylinder along x", "B=Cylinder(np.array([2.,0,0]),p,r,L).get_bounding_box()", "np.array([1.,0,0])", "p", "r", "L"),
            ("a cylinder along -z", "B=Cylinder(np.array([0,0,-1.]),p,r,L).get_bounding_box()", "np.array([0,0,-1.])", "p", "r", "L"),
            ("a turned cylinder", "B=Cylinder(np.array([2.,3,6]),p,r,L).get_bounding_box()", "np.array([2.,3,6])", "p", "r", "L"),
            ("a cylinder in a plane", "B=Cylinder(np.array([3.,0,4]),p,r,L).get_bounding_box()", "np.array([3.,0,4])", "p", "r", "L"),
            ("a cylinder changed", "k=Cylinder(np.array([0.,0,1]),p,s,s)\nk.get_bounding_box()\nk.axis=n\nk.radius=r\nk.length=L\nk.point=q\nB=k.get_bounding_box()", "n", "q", "r", "L"),
            ("a cylinder moved", "k=Cylinder(n,p,r,L)\nk.get_bounding_box()\nx=Translation(t).applyTransformation_alg(k)\nB=x.get_bounding_box()", "n", "p+t", "r", "L"),
            ("a volume with a cylinder", "B=Volume(alg_objects=[Cylinder(n,p,r,L)]).get_bounding_box()", "n", "p", "r", "L"),
            ("a volume with a cylinder and planes", "B=Volume(alg_objects=[Plane(a,q),Cylinder(n,p,r,L),Plane(-a,p)]).get_bounding_box()", "n", "p", "r", "L"),
            ("a volume with a cylinder, translated", "v=Volume(alg_objects=[Cylinder(n,p,r,L)])\nv.get_bounding_box()\nv.transform(Translation(t))\nB=v.get_bounding_box()", "n", "p+t", "r", "L"),
            ("a volume with a cylinder, turned", "v=Volume(alg_objects=[Cylinder(np.array([0,0,1.]),p,r,L)])\nv.get_bounding_box()\nv.transform(Rotation(np.array([[1.,0,0],[0,0,-1],[0,1,0]]),origin=t))\nB=v.get_bounding_box()", "np.array([0,-1.,0])", "np.array([p[0],t[1]-(p[2]-t[2]),t[2]+p[1]-t[1]])", "r", "L"),
            ("a cylinder with a tolerance", "B=Cylinder(n,p,r,L,tol=tol).get_bounding_box()", "n", "p", "r", "L"),
    ]:
        e = dict(env)
        c.eq(nm, drv + tail % (ax, ax, ax, pt, ln, rad), CYL_SPEC, e, dict(pos, a="nonzero"), at="czone/volume/algebraic.py Cylinder.get_bounding_box", rule=R, post=cyl_post)
    # planes
    R = "the region of planes is the vertices of their half-spaces' intersection"
    for nm, ns in SETS:
        def spec(run, ns=ns, mv=None):
            from sa.vfg import SYM
            return region(ns, run.ev.ev(SYM("P", A(8, 3))), None if mv is None else run.ev.ev(SYM(mv, A(3))))
        for k, (what, drv, mv) in enumerate([
                ("planes", "v=Volume(alg_objects=%s)\n" % planes_src(ns), None),
                ("planes and a cylinder", "v=Volume(alg_objects=[Cylinder(n,q,r,L)]+%s)\n" % planes_src(ns), None),
                ("planes moved", "v=Volume(alg_objects=%s)\nv.get_bounding_box()\nv.transform(Translation(t))\n" % planes_src(ns), "t")]):
            c.eq("%s: %s" % (nm, what), drv + "return v.get_bounding_box()", lambda run, ns=ns, mv=mv: spec(run, ns, mv), env, pos,
                 at="czone/volume/algebraic.py get_bounding_box", rule=R, models=world(0), hooks=no_failures)
        c.eq("%s: no region" % nm, "v=Volume(alg_objects=%s)\nreturn v.get_bounding_box()" % planes_src(ns), "return None", env, pos,
             at=V + " get_bounding_box", rule="planes without a region define none", models=world(2))
        c.eq("%s: degenerate region" % nm, "v=Volume(alg_objects=%s)\nreturn v.get_bounding_box()" % planes_src(ns), "return None", env, pos,
             at=V + " get_bounding_box", rule="planes without a region define none", models=world(0), hooks=failing)
        c.eq("%s: status of an unbounded region" % nm, "from czone.volume.algebraic import get_bounding_box as f\nb,s=f(%s)\nreturn b.shape[0],s" % planes_src(ns), "return 0,3", env, pos,
             at="czone/volume/algebraic.py get_bounding_box", rule="planes without a region define none", models=world(3))
        c.eq("%s: no region but a cylinder" % nm, "v=Volume(alg_objects=%s+[Cylinder(n,p,r,L)])\nB=v.get_bounding_box()" % planes_src(ns) + tail % ("n", "n", "n", "p", "L", "r"), CYL_SPEC, env, pos,
             at=V + " get_bounding_box", rule="planes without a region define none", models=world(3), post=cyl_post)


def several(c, drv, radii, env, assume):
    r = c.analyse(drv, env, assume)
    w = analysed(r)
    f = c.failures(r)
    if f:
        return VIOLATION, "does not complete: " + f[0][1], [f[0][0]] + w
    X = tensor(r.value())
    if X is None or len(X.shape) != 2 or X.shape[1] != 3 or dom.has_unk(X):
        return UNDECIDED, "region is not an array of known rows", w
    cand = [c.analyse("return P[%d]" % i, env, assume).value() for i in range(len(radii))]
    n = X.shape[0]
    # rows relative to a centre that are constants
    for p, rd in zip(cand, radii):
        rel = [cst(ssub(X.data[3 * i + j], p.data[j])) for i in range(n) for j in range(3)]
        if None not in rel and box_encloses([rel[i:i + 3] for i in range(0, 3 * n, 3)], [0, 0, 0], rd):
            return HOLDS, "", w
    for s in range(24):
        smp = compare.Sample("s%d" % s)
        try:
            x = [[compare.nv(y, smp) for y in X.data[3 * i:3 * i + 3]] for i in range(n)]
            if not any(box_encloses(x, [compare.nv(y, smp) for y in p.data], rd) for p, rd in zip(cand, radii)):
                return VIOLATION, "corners enclose none of the spheres (valuation %s)" % compare.valuation(smp), w
        except (compare.Inconclusive, ZeroDivisionError, OverflowError, ValueError):
            continue
    return UNDECIDED, "corners are not a constant box about one sphere", w
