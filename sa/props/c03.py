"""Abstract interpretation of Volume.checkIfInterior and
MultiVolume.checkIfInterior with opaque surfaces, members and triangulations:
the membership condition of every query point is computed as a decision diagram
over one boolean per (surface or member or hull, point) and compared with the
conjunction, respectively disjunction, the property states."""
from sa import dom
from sa.check import arrty as A
from sa.vfg import SYM
from . import common as cm


def member(c, names, cls, n, pts="P", tol=None, hull=None, conj=True, shape=None):
    V = c.p.cls(cls)

    def spec(run):
        P = run.ev.ev(SYM(pts, A(*(shape or (n, 3)))))
        if len(P.shape) == 1:
            P = dom.reshape(P, (1, 3))
        out = []
        for i in range(P.shape[0]):
            r = dom.row(P, i)
            v = bool(conj)
            if hull is not None:
                v = dom.band(v, cm.inhull(run.ev.ev(hull), r, run.ev.ev(tol) if tol is not None else c.analyse("return Volume().tolerance").value()))
            for a in names:
                b = cm.in_var(run.ev.ev(SYM(a, ("opq", V))), r)
                v = dom.band(v, b) if conj else dom.bor(v, b)
            out.append(v)
        return dom.T((len(out),), out)
    return spec


def run(c):
    B, V = c.p.cls("BaseAlgebraic"), c.p.cls("BaseVolume")
    L = "ABCDE"
    n = 4 if c.thorough else 2
    X = SYM("X", A(5, 3))
    tol = SYM("tol", "float")
    at = "Volume.checkIfInterior"

    def vol(name, drv, spec, extra=None):
        env = {k: ("opq", B) for k in L}
        env.update(P=A(n, 3), q=A(3), X=A(5, 3), tol="float")
        env.update(extra or {})
        c.eq(name, drv, spec, env, {"tol": "pos"}, at=at, rule="conjunction over hull and surfaces",
             hooks=cm.hull_hooks, models=cm.GEO)
    for k in range(0, 5 if c.thorough else 4):
        ns = L[:k]
        lst = "[" + ",".join(ns) + "]"
        if k:
            vol("volume of %d surfaces" % k, "v=Volume(alg_objects=%s)\nreturn v.checkIfInterior(P)" % lst,
                member(c, ns, "BaseAlgebraic", n))
            vol("volume of %d surfaces, one point" % k, "v=Volume(alg_objects=%s)\nreturn v.checkIfInterior(q)" % lst,
                member(c, ns, "BaseAlgebraic", n, "q", shape=(3,)))
            vol("volume of %d added surfaces" % k, "v=Volume()\n" + "".join("v.add_alg_object(%s)\n" % a for a in ns)
                + "return v.checkIfInterior(P)", member(c, ns, "BaseAlgebraic", n))
        vol("volume of hull and %d surfaces" % k,
            "v=Volume(points=X,alg_objects=%s,tolerance=tol)\nreturn v.checkIfInterior(P)" % lst,
            member(c, ns, "BaseAlgebraic", n, tol=tol, hull=X))
        vol("volume of hull and %d surfaces, one point" % k,
            "v=Volume(points=X,alg_objects=%s,tolerance=tol)\nreturn v.checkIfInterior(q)" % lst,
            member(c, ns, "BaseAlgebraic", n, "q", tol=tol, hull=X, shape=(3,)))
    for m in (4, 6, 8, 11):
        vol("hull of %d points and a surface" % m, "v=Volume(points=Y,alg_objects=[A],tolerance=tol)\nreturn v.checkIfInterior(P)",
            member(c, "A", "BaseAlgebraic", n, tol=tol, hull=SYM("Y", A(m, 3))), {"Y": A(m, 3)})
    vol("volume of 20 surfaces", "v=Volume(alg_objects=[A]*9+[B]+[A]*9+[C])\nreturn v.checkIfInterior(P)", member(c, "ABC", "BaseAlgebraic", n))
    vol("hull with the default tolerance", "v=Volume(points=X)\nreturn v.checkIfInterior(P)",
        member(c, "", "BaseAlgebraic", n, hull=X))
    vol("hull after a new tolerance", "v=Volume(points=X)\nv.tolerance=tol\nreturn v.checkIfInterior(P)",
        member(c, "", "BaseAlgebraic", n, hull=X, tol=tol))
    vol("surface added to a hull volume", "v=Volume(points=X,alg_objects=[A],tolerance=tol)\nv.checkIfInterior(P)\n"
        "v.add_alg_object(B)\nreturn v.checkIfInterior(P)",
        member(c, "AB", "BaseAlgebraic", n, hull=X, tol=tol))
    vol("points added to a surface volume", "v=Volume(alg_objects=[A,B],tolerance=tol)\nv.checkIfInterior(P)\n"
        "v.addPoints(X)\nreturn v.checkIfInterior(P)",
        member(c, "AB", "BaseAlgebraic", n, hull=X, tol=tol))
    vol("copy of a volume", "v=Volume(points=X,alg_objects=[A,B],tolerance=tol)\nw=v.from_volume()\n"
        "return w.checkIfInterior(P)", member(c, "AB", "BaseAlgebraic", n, hull=X, tol=tol))
    vol("volume with a generator and priority", "v=Volume(points=X,alg_objects=[A],generator=NullGenerator(),priority=3,"
        "tolerance=tol)\nreturn v.checkIfInterior(P)", member(c, "A", "BaseAlgebraic", n, hull=X, tol=tol))

    def mul(name, drv, spec):
        env = {k: ("opq", V) for k in L}
        env.update(P=A(n, 3), q=A(3), **{"pr" + k: "int" for k in L})

        def setup(e, en):
            return {(en[k], "priority"): en["pr" + k] for k in L}
        c.eq(name, drv, spec, env, setup=setup, at="MultiVolume.checkIfInterior", rule="disjunction over members",
             hooks=cm.hull_hooks, models=cm.GEO)
    for k in range(1, 6 if c.thorough else 4):
        ns = L[:k]
        lst = ",".join(ns)
        mul("multi-volume of %d members" % k, "v=MultiVolume([%s])\nreturn v.checkIfInterior(P)" % lst,
            member(c, ns, "BaseVolume", n, conj=False))
        mul("multi-volume of %d members, one point" % k, "v=MultiVolume([%s])\nreturn v.checkIfInterior(q)" % lst,
            member(c, ns, "BaseVolume", n, "q", conj=False, shape=(3,)))
        mul("multi-volume of %d added members" % k, "v=MultiVolume()\n" + "".join("v.add_volume(%s)\n" % a for a in ns)
            + "return v.checkIfInterior(P)", member(c, ns, "BaseVolume", n, conj=False))
        mul("multi-volume of nested %d members" % k,
            "v=MultiVolume([MultiVolume([%s]),%s])\nreturn v.checkIfInterior(P)" % (lst, "D"),
            member(c, ns + "D" if "D" not in ns else ns, "BaseVolume", n, conj=False))
    mul("member added after a query", "v=MultiVolume([A])\nv.checkIfInterior(P)\nv.add_volume(B)\nreturn v.checkIfInterior(P)",
        member(c, "AB", "BaseVolume", n, conj=False))
    mul("list of members added", "v=MultiVolume([A])\nv.add_volume([B,C])\nreturn v.checkIfInterior(P)",
        member(c, "ABC", "BaseVolume", n, conj=False))
    mul("multi-volume of 20 members", "v=MultiVolume([A]*9+[B]+[A]*9+[C])\nreturn v.checkIfInterior(P)", member(c, "ABC", "BaseVolume", n, conj=False))
    for pr in (-3, 2):
        mul("multi-volume of priority %d" % pr, "v=MultiVolume([A,MultiVolume([B,C],priority=%d)],priority=%d)\nreturn v.checkIfInterior(P)" % (pr, pr - 1),
            member(c, "ABC", "BaseVolume", n, conj=False))
    mul("multi-volume without members", "v=MultiVolume()\nreturn v.checkIfInterior(P)",
        member(c, "", "BaseVolume", n, conj=False))
