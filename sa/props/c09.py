"""Abstract interpretation of histories: every sequence of adding, replacing and moving points, with queries in
between, is followed symbolically; each constructed hull is a distinct object, and the triangulation the final
interior query consults is compared with that of exactly the points the history leaves. For Wulff constructions,
the particle of the reassigned inputs is compared with that of a construction made from them directly."""
import itertools

from sa.check import arrty as A
from . import common as cm

# one step: (name, program, what it makes of the points)
STEPS = [
    ("one point added", "v.addPoints(a%d)\n", "np.vstack([%s,a%d.reshape(1,3)])"),
    ("points added", "v.addPoints(B%d)\n", "np.vstack([%s,B%d])"),
    ("points replaced", "v.points=C%d\n", None),
    ("translated", "v.transform(Translation(t))\n", "(%s+t)"),
    ("mapped", "v.transform(MatrixTransform(M))\n", "(%s@M.T)"),
    ("queried", "v.checkIfInterior(Q)\n", "%s"),
    ("wrong assignment", "try:\n    v.points=W\nexcept Exception:\n    pass\n", "%s"),
    ("too few points assigned", "try:\n    v.points=W3\nexcept Exception:\n    pass\n", "%s"),
    ("wrong points added", "try:\n    v.addPoints(W)\nexcept Exception:\n    pass\n", "%s"),
    ("flat points assigned", "try:\n    v.points=np.ones((5,3))\nexcept Exception:\n    pass\n", "%s"),
    ("no array assigned", "try:\n    v.points=None\nexcept Exception:\n    pass\n", "%s"),
    ("copied", "v=v.from_volume()\n", "%s"),
    ("volume transformed by from_volume", "v=v.from_volume(transformation=[Translation(t)])\n", "(%s+t)"),
    ("bounding box taken", "v.get_bounding_box()\n", "%s"),
    ("given a generator", "v.add_generator(NullGenerator())\n", "%s"),
]


def run(c):
    env = dict(P=A(5, 3), Q=A(2, 3), t=A(3), M=A(3, 3), W=A(2, 2), W3=A(3, 3), X=A(2, 3), tol="float")
    for i in range(4):
        env.update({"a%d" % i: A(3), "B%d" % i: A(2, 3), "C%d" % i: A(5, 3)})

    def spec_for(expr):
        def spec(run):
            pts = c.analyse("return " + expr, env, {"tol": "pos"}).value()
            q = run.ev
            from sa.vfg import SYM
            from sa import dom
            X = q.ev(SYM("X", A(2, 3)))
            tl = q.ev(SYM("tol", "float"))
            return dom.T((2,), [cm.inhull(pts, dom.row(X, i), tl) for i in range(2)])
        return spec

    # ---- moves by a hair ---------------------------------------------------------
    B0 = "np.array([[1.0,1,1],[2,1,1],[1,2,1],[1,1,2],[2,2,2]])"
    for h in ("1e-6", "-3e-6", "1e-7"):
        for nm, step, e in (("points assigned", "v.points=%s+%s" % (B0, h), "%s+%s" % (B0, h)), ("translated", "v.transform(Translation(%s*np.ones(3)))" % h, "%s+%s" % (B0, h)),
                            ("scaled", "v.transform(MatrixTransform((1+%s)*np.eye(3)))" % h, "%s*(1+%s)" % (B0, h)), ("point added", "v.addPoints(np.array([2.0,2,2+%s]))" % h, "np.vstack([%s,[[2,2,2+%s]]])" % (B0, h)),
                            ("translated twice", "v.transform(Translation(%s*np.ones(3)))\nv.checkIfInterior(Q)\nv.transform(Translation(%s*np.ones(3)))" % (h, h), "%s+2*%s" % (B0, h))):
            drv = "v=Volume(points=%s,tolerance=tol)\nv.checkIfInterior(Q)\n%s\n" % (B0, step)
            c.eq("%s by %s" % (nm, h), drv + "return v.points,v.hull.points", "return (%s,%s)" % (e, e), env, {"tol": "pos"},
                 at="Volume.points", rule="the hull is that of the current points", hooks=cm.hull_hooks, models=cm.GEO)
    n = 4 if c.thorough else 3
    seqs = []
    for k in range(1, n + 1):
        for s in itertools.product(range(len(STEPS)), repeat=k):
            names = [STEPS[i][0] for i in s]
            if k == 4 and len(set(s)) < 3:
                continue
            # at most one step that leaves the points alone, except for a query after a change
            still = sum(STEPS[i][2] == "%s" for i in s)
            if still > (1 if k < 4 else 1) or k >= 3 and still and STEPS[s[-1]][2] == "%s":
                continue
            if k == 4 and s.count(4) > 1:
                continue
            seqs.append((s, names))
    for m in (4, 7):
        env["P_%d" % m] = A(m, 3)
        for i in range(4):
            env["C%d_%d" % (i, m)] = A(m, 3)
    short = [x for x in seqs if len(x[0]) <= 2]
    bases = [("points", "v=Volume(points=P,tolerance=tol)\n", "P", "C%d", seqs),
             ("four points", "v=Volume(points=P_4,tolerance=tol)\n", "P_4", "C%d_4", short),
             ("four points, seven assigned", "v=Volume(points=P_4,tolerance=tol)\n", "P_4", "C%d_7", [x for x in short if 2 in x[0]]),
             ("seven points, four assigned", "v=Volume(points=P_7,tolerance=tol)\n", "P_7", "C%d_4", [x for x in short if 2 in x[0]])]
    for bn, mk, e0, cn, which in bases:
        for s, names in which:
            drv, expr = mk, e0
            for j, i in enumerate(s):
                _, p, f = STEPS[i]
                drv += (p.replace("C%d", cn) % j) if "%d" in p else p
                if f is None:
                    expr = cn % j
                else:
                    expr = f % (expr, j) if "%d" in f else f % expr
            c.eq("%s, then %s" % (bn, ", ".join(names)), drv + "return v.checkIfInterior(X)", spec_for(expr), env, {"tol": "pos"},
                 at="Volume.checkIfInterior", rule="the triangulation is that of the current points", hooks=cm.hull_hooks, models=cm.GEO)
            if len(s) <= 2:
                c.eq("%s, then %s: points" % (bn, ", ".join(names)), drv + "return v.points", "return " + expr, env, {"tol": "pos"},
                     at="Volume.points", rule="the points are the current points", hooks=cm.hull_hooks, models=cm.GEO)
                c.eq("%s, then %s: hull" % (bn, ", ".join(names)), drv + "return v.hull.points", "return " + expr, env, {"tol": "pos"},
                     at="Volume.hull", rule="the hull is that of the current points", hooks=cm.hull_hooks, models=cm.GEO)
    # ---- volumes made empty, members of a MultiVolume --------------------------
    c.eq("empty volume given points", "v=Volume(tolerance=tol)\nv.checkIfInterior(Q)\nv.addPoints(P)\nreturn v.checkIfInterior(X)", spec_for("P"), env, {"tol": "pos"},
         at="Volume.addPoints", rule="the triangulation is that of the current points", hooks=cm.hull_hooks, models=cm.GEO)
    c.eq("empty volume assigned points", "v=Volume(tolerance=tol)\nv.checkIfInterior(Q)\nv.points=P\nreturn v.checkIfInterior(X)", spec_for("P"), env, {"tol": "pos"},
         at="Volume.points", rule="the triangulation is that of the current points", hooks=cm.hull_hooks, models=cm.GEO)
    for nm, step, e in (("translated", "m.transform(Translation(t))", "(P+t)"), ("translated twice", "m.transform(Translation(t))\nm.checkIfInterior(Q)\nm.transform(Translation(t))", "(P+t+t)"),
                        ("mapped", "m.transform(MatrixTransform(M))", "(P@M.T)")):
        c.eq("member of a MultiVolume %s" % nm, "m=MultiVolume([Volume(points=P,tolerance=tol)])\nm.checkIfInterior(Q)\n%s\nreturn m.checkIfInterior(X)" % step, spec_for(e), env, {"tol": "pos"},
             at="MultiVolume.transform", rule="the triangulation is that of the current points", hooks=cm.hull_hooks, models=cm.GEO)
    wulff(c)


# ---- Wulff constructions ----------------------------------------------------
def wulff(c):
    from sa import dom
    from sa.vfg import SYM
    from .wulffmodel import HOOKS, MODELS, env as wenv, spec_facets, spec_particle, sym
    e, setup = wenv()
    asm = {"e1": "pos", "e2": "pos", "e3": "pos", "n1": "int", "n2": "int"}
    rule = "the particle is computed from the current inputs"
    E = {"E1": "{(1,0,0):e1,(1,1,1):e2}", "E2": "{(1,1,0):e3}"}
    new = {"generator": ("Generator(structure=S2)", 0, "S2"), "surface_energies": (E["E2"], 1, "E2"), "natoms": ("n2", 2, "n2")}
    a1, s1 = ["Generator(structure=S)", E["E1"], "n1"], ["S", "E1", "n1"]

    def facets(run, p):
        return dom.T((3, 4), [x for n, d in spec_facets(p) for x in list(n.data) + [d]])

    def inside(run, p):
        """all facets, with the default surface tolerance"""
        src = "v=Volume(alg_objects=[%s])\nreturn v.checkIfInterior(X)" % ",".join("Plane(N%d,N%d*D%d)" % (i, i, i) for i in range(3))
        en, sub = dict(e), {}
        for i, (n, d) in enumerate(spec_facets(p)):
            en["N%d" % i], en["D%d" % i] = A(3), "float"
            sub["N%d" % i], sub["D%d" % i] = n, d
        r = c.ctx.analyse(src, en, asm, setup, None)
        for k, v in sub.items():
            r.ev.memo[SYM(k, en[k]).nid] = v
        return r.value()
    F = "np.array([np.append(f.normal,f.distance_from_origin) for f in %s.wulff._yield_facets()])"
    res = {"particle": (F, facets), "areas": ("%s.get_areas()", lambda run, p: sym("areas", p)), "areas of the construction": ("%s.get_construction(return_facet_areas=True)[1]", lambda run, p: sym("areas", p)),
           "construction": ("%s.get_construction().checkIfInterior(X)", inside), "lattice of the construction": ("%s.get_construction().generator.voxel.bases", None),
           "Winterbottom construction": ("%s.winterbottom((1,1,1),e3).checkIfInterior(X)", inside)}
    for k in range(0, 4):
        for ch in itertools.permutations(new, k):
            s2 = list(s1)
            for x in ch:
                s2[new[x][1]] = new[x][2]
            for rn, (rx, sp) in res.items():
                def spec(run, s2=tuple(s2), sp=sp, rn=rn):
                    if sp is None:
                        return c.analyse("return Generator(structure=%s).voxel.bases" % s2[0], e, asm, setup).value()
                    en = c.analyse("return " + E[s2[1]], e, asm, setup).value()
                    w = rn.startswith("Winter")
                    p = spec_particle(run.ev, "Winterbottom" if w else "SingleCrystal", s2[0], en, run.ev.ev(SYM(s2[2], "int")),
                                      c.analyse("return (1,1,1)").value() if w else None, run.ev.ev(SYM("e3", "float")) if w else None)
                    return sp(run, p)
                for early in ([0, 1] if k in (1, 2) or c.thorough else [1]):
                    drv = "w=WulffSingle(generator=%s,surface_energies=%s,natoms=%s)\n" % tuple(a1)
                    for x in ch:
                        drv += ("%s\n" % (rx % "w") if early else "") + "w.%s=%s\n" % (x, new[x][0])
                    c.eq("%s %s%s" % (rn, "after %s reassigned" % " and ".join(ch) if ch else "of the first inputs", "" if early else " before any use"), drv + "return " + rx % "w", spec, e, asm,
                         at="WulffSingle.get_construction", rule=rule, setup=setup, hooks=HOOKS, models=MODELS)
