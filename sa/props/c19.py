"""Abstract interpretation of the rotation helpers over symbolic vectors and
angles: the matrix is compared in an exact algebra with the documented rotation;
exactly parallel and anti-parallel inputs, axis-aligned inputs and small angles
are separate obligations.  The angle between vectors is additionally checked for
an inverse cosine whose argument is not kept inside [-1, 1]."""
import itertools
import math

from sa import dom
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed, arrty as A

ENV = dict(v=A(3), w=A(3), u=A(3), k="float", th="float", a="float", b="float", g="float", V=A(3, 3), W=A(3, 3), V2=A(2, 3), W2=A(2, 3))
POS = {"k": "pos"}
ROT = ("Z=lambda t: np.array([[np.cos(t),-np.sin(t),0],[np.sin(t),np.cos(t),0],[0,0,1]])\n"
       "X=lambda t: np.array([[1,0,0],[0,np.cos(t),-np.sin(t)],[0,np.sin(t),np.cos(t)]])\n")
N = "np.linalg.norm"


def run(c):
    def ob(name, drv, spec, at, rule, **kw):
        c.eq(name, drv, spec, ENV, POS, at=[at], rule=rule, **kw)
    # vector to vector ---------------------------------------------------------
    r1 = "the first direction is mapped onto the second"
    r2 = "a proper rotation"
    gen = dict(angles=(1e-6, math.pi - 1e-6))
    ob("vector to vector, general", "return rot_vtv(v,w)@v*%s(w)" % N, "return w*%s(v)" % N, "rot_vtv", r1, **gen)
    ob("vector to vector, general, third direction", "R=rot_vtv(v,w)\nreturn R@np.cross(np.cross(v,w),v)*%s(w)" % N,
       "return np.cross(np.cross(v,w),w)*%s(v)" % N, "rot_vtv", r2, **gen)
    ob("vector to vector, general, axis", "R=rot_vtv(v,w)\nreturn R@np.cross(v,w)", "return np.cross(v,w)", "rot_vtv", "a rotation in the plane of the two vectors", **gen)
    for nm, x, y in (("rows", "v.reshape(1,3)", "w.reshape(1,3)"), ("columns", "v.reshape(3,1)", "w.reshape(3,1)"),
                     ("lists", "[v[0],v[1],v[2]]", "[w[0],w[1],w[2]]")):
        ob("vector to vector, %s" % nm, "return rot_vtv(%s,%s)@v*%s(w)" % (x, y, N), "return w*%s(v)" % N, "rot_vtv", r1, **gen)
    for s, nm in (("", "parallel"), ("-", "anti-parallel")):
        at = "rot_vtv"
        ob(nm, "return rot_vtv(v,%sv*k)@v*k" % s, "return %sv*k" % s, at, r1)
        ob(nm + ", orthogonal", "R=rot_vtv(v,%sv*k)\nreturn R@R.T,np.linalg.det(R)" % s, "return np.eye(3),1.0", at, r2)
        for q in itertools.product((0, 1, -2), repeat=3):
            if any(q):
                y = "np.array([%d,%d,%d])" % q
                ob("%s, direction %d %d %d" % ((nm,) + q), "R=rot_vtv(%s*k,%s%s)\nreturn R@%s,R@R.T,np.linalg.det(R)" % (y, s, y, y),
                   "return %s%s,np.eye(3),1.0" % (s, y), at, r1)
        # integer vectors given as lists or integer arrays
        ob(nm + ", integers", "R=rot_vtv([1,2,2],[%s1,%s2,%s2])\nreturn R@np.array([1,2,2])" % (s, s, s), "return %snp.array([1,2,2])" % s, at, r1)
    ax = [tuple(s if i == j else 0 for j in range(3)) for i in range(3) for s in (1, -1)]
    for p, q in itertools.product(ax, ax):
        ob("axis %d %d %d to %d %d %d" % (p + q), "R=rot_vtv(np.array(%r)*k,%r)\nreturn R@np.array(%r),R@R.T,np.linalg.det(R)" % (p, q, p),
           "return np.array(%r),np.eye(3),1.0" % (q,), "rot_vtv", r1)
    for e, s, i in itertools.product((20, 500, 5000), (1, -1), range(3)):
        # exact integer coordinates at the angle 2 atan(1/e)
        y, x = [0] * 3, [0] * 3
        x[i] = 1
        y[i], y[(i + 1) % 3] = s * (e * e - 1), 2 * e
        ob("2/%d from %s, axis %d" % (e, "parallel" if s > 0 else "anti-parallel", i),
           "x=np.array(%r)\ny=np.array(%r)\nR=rot_vtv(x*k,y)\nreturn (R@x-y/%s(y))*%d,R@R.T" % (x, y, N, e),
           "return np.zeros(3),np.eye(3)", "rot_vtv", r1)
    # about a vector ------------------------------------------------------------
    ro = "right-handed rotation about the vector by the angle"
    RV = "n=v/%s(v)\nreturn w*np.cos(th)+np.cross(n,w)*np.sin(th)+n*(n@w)*(1-np.cos(th))" % N
    ob("about a vector", "return rot_v(v,th)@w", RV, "rot_v", ro)
    for nm, x in (("row", "v.reshape(1,3)"), ("column", "v.reshape(3,1)"), ("list", "[v[0],v[1],v[2]]"), ("scaled axis", "v*k")):
        ob("about a vector, " + nm, "return rot_v(%s,th)@w" % x, RV, "rot_v", ro)
    for i, t in itertools.product(range(3), ("0.0", "np.pi/2", "np.pi", "-np.pi/3", "2*np.pi/3", "3*np.pi/2")):
        y = "np.eye(3)[%d]" % i
        ob("about axis %d by %s" % (i, t), "return rot_v(%s*k,%s)@w" % (y, t), RV.replace("th", t).replace("v/%s(v)" % N, y), "rot_v", ro)
    # ordered vector sets -------------------------------------------------------
    ra = "best rotation of the first set onto the second"
    AL = "from scipy.spatial.transform import Rotation as SR\nreturn SR.align_vectors(%s,%s)[0].as_matrix()"
    ob("ordered sets", "return rot_align(V,W)", AL % ("W", "V"), "rot_align", ra)
    ob("ordered pairs", "return rot_align(V2,W2)", AL % ("W2", "V2"), "rot_align", ra)
    ob("ordered sets, keywords", "return rot_align(vt=W,v=V)", AL % ("W", "V"), "rot_align", ra)
    # Euler angles ---------------------------------------------------------------
    re_ = "z-x-z rotation in the documented order"
    ZI = ROT + "return Z(a)@X(b)@Z(g)"
    ob("Euler, default", "return rot_zxz(a,b,g)", ZI, "rot_zxz", re_)
    ob("Euler, intrinsic", "return rot_zxz(a,b,g,convention='intrinsic')", ZI, "rot_zxz", re_)
    ob("Euler, extrinsic", "return rot_zxz(a,b,g,convention='extrinsic')", ZI, "rot_zxz", re_)
    ob("Euler, extrinsic, keywords", "return rot_zxz(gamma=g,alpha=a,beta=b,convention='extrinsic')", ZI, "rot_zxz", re_)
    for t in ((0, 1, 2), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 3), (-1, 1, 1)):
        x = ",".join("%d*np.pi/2" % i for i in t)
        for conv in ("intrinsic", "extrinsic"):
            ob("Euler, quarter turns %d %d %d %s" % (t + (conv,)), "return rot_zxz(%s,convention=%r)" % (x, conv),
               ROT + "a,b,g=%s\nreturn Z(a)@X(b)@Z(g)" % x, "rot_zxz", re_)
    # angles ----------------------------------------------------------------------
    rv = "arc cosine of the normalised dot product, defined everywhere"
    ob("angle, general", "return vangle(v,w)", "return np.arccos(np.clip(v@w/(%s(v)*%s(w)),-1,1))" % (N, N), "vangle", rv)
    ob("angle, parallel", "return vangle(v,v*k)", "return 0.0", "vangle", rv)
    ob("angle, anti-parallel", "return vangle(v,-v*k)", "return np.pi", "vangle", rv)
    ob("angle, same", "return vangle(v,v)", "return 0.0", "vangle", rv)
    ob("angle, perpendicular", "return vangle(v,np.array([v[1],-v[0],0]))", "return np.pi/2", "vangle", rv)
    ob("angle, other dimension", "return vangle(v[:2],w[:2])", "return np.arccos(np.clip(v[:2]@w[:2]/(%s(v[:2])*%s(w[:2])),-1,1))" % (N, N), "vangle", rv)
    ob("angle, symmetric", "return vangle(v,w)-vangle(w,v)", "return 0.0", "vangle", rv)

    c.run("angle between vectors stays defined under rounding", lambda: bounded_with(c, "return vangle(v,w)"), "inverse cosine arguments are clipped",
          at=["vangle"])


def bounded_with(c, drv):
    r = c.analyse(drv, ENV, POS)
    n = 0
    for ev in r.e.events:
        if ev.kind == "call" and ev.data.op == "call" and ev.data.args[0].op == "ext" and ev.data.args[0].args[0].split(".")[-1] in (
                "arccos", "arcsin", "acos", "asin"):
            n += 1
            x = ev.data.args[1][0] if ev.data.args[1] else None
            v = r.ev.ev(x) if x is not None else None
            if v is None or dom.has_unk(v):
                return UNDECIDED, "argument not known", analysed(r)
            if not clipped(v) and ev.path:
                return UNDECIDED, "conditional inverse cosine", analysed(r)
            if not clipped(v):
                return VIOLATION, "inverse cosine of an argument that rounding can carry outside [-1, 1]: %s" % dom.short(v)[:160], \
                    ["%s" % (ev.loc,)] + analysed(r)
    return HOLDS, "%d inverse cosine sites" % n, analysed(r)


def clipped(v):
    """some comparison bounds the value from above by at most 1 and from below by at least -1"""
    if isinstance(v, dom.T):
        return all(clipped(x) for x in v.data)
    cs = set()

    def go(x):
        if isinstance(x, dom.DD):
            for k in x.kids:
                go(k)
        elif isinstance(x, dom.Rat) and x.const() is not None:
            cs.add(x.const())
        else:
            cs.add(None)
    go(v)
    if None not in cs:
        return all(abs(x) <= 1 for x in cs)
    return any(x is not None and 0 < x <= 1 for x in cs) and any(x is not None and -1 <= x < 0 for x in cs)
