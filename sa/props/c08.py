"""Abstract interpretation of every transform entry point (volumes,
multi-volumes, generators, molecules, and copies made with a list of
transforms) with symbolic affine transforms whose locked and basis-only flags are
symbolic: the final points, surface parameters, bases, origins and atom
positions are compared with exactly one application of each transform, guarded
by the flags."""
from sa.check import arrty as A
from sa.vfg import SYM

ENV = dict(X=A(5, 3), M=A(3, 3), M2=A(3, 3), o=A(3), o2=A(3), t=A(3), t2=A(3), n=A(3), p=A(3), q=A(3), c=A(3), r="float", L="float",
           bd=A(3), go=A(3), lk="bool", bo="bool", lk2="bool", bo2="bool", sp=A(3), ps=A(3, 3), mo=A(3), d="float",
           bd2=A(3), go2=A(3), X2=A(4, 3), c2=A(3))
POS = {"bd": "pos", "bd2": "pos", "r": "pos", "L": "pos", "sp": "int", "d": "pos"}
GEN = "g=Generator(origin=go)\ng.voxel.bases=Bs\n"
AGEN = "g=AmorphousGenerator(origin=go)\n"
VOL = "v=Volume(points=X,alg_objects=[Sphere(r,c),Plane(n,p),Cylinder(n,q,r,L)],generator=g)\n"
OUT = "return v.points,v.alg_objects[0].center,v.alg_objects[1].point,v.alg_objects[2].point,%s"
GO = "v.generator.voxel.bases,v.generator.origin"
MT = "MatrixTransform(M,o,locked=lk,basis_only=bo)"
TR = "Translation(t,locked=lk2,basis_only=bo2)"
F = "F=lambda x: (x-o)@M.T+o\nF2=lambda x: x+t\n"


def run(c):
    def ob(name, drv, spec, at, rule="each part is moved exactly once", models=None):
        from . import common as cm
        pre = "Bs=np.diag(bd)\nBs2=np.diag(bd2)\n"
        c.eq(name, pre + drv, pre + spec, ENV, POS, at=at, rule=rule, hooks=cm.hull_hooks, models=cm.GEO)
    vt = "Volume.transform"
    # volumes
    ob("volume under a matrix", GEN + VOL + "v.transform(%s)\n" % MT + OUT % GO,
       F + "return F(X),F(c),F(p),F(q),(M@Bs if lk else Bs),((go if bo else F(go)) if lk else go)", vt)
    ob("volume under a translation", GEN + VOL + "v.transform(%s)\n" % TR + OUT % GO,
       F + "return F2(X),F2(c),F2(p),F2(q),Bs,((go if bo2 else F2(go)) if lk2 else go)", vt)
    ob("volume under two transforms", GEN + VOL + "v.transform(%s)\nv.transform(%s)\n" % (MT, TR) + OUT % GO,
       F + "g1=((go if bo else F(go)) if lk else go)\n"
       "return F2(F(X)),F2(F(c)),F2(F(p)),F2(F(q)),(M@Bs if lk else Bs),((g1 if bo2 else F2(g1)) if lk2 else g1)", vt)
    ob("volume with an amorphous generator", AGEN + VOL + "v.transform(%s)\n" % MT + OUT % "v.generator.origin",
       F + "return F(X),F(c),F(p),F(q),((go if bo else F(go)) if lk else go)", vt)
    ob("volume with an empty generator", "g=NullGenerator()\n" + VOL + "v.transform(%s)\n" % MT + OUT % "0",
       F + "return F(X),F(c),F(p),F(q),0", vt)
    ob("volume without generator", "v=Volume(points=X,alg_objects=[Sphere(r,c),Plane(n,p),Cylinder(n,q,r,L)])\n"
       "v.transform(%s)\n" % MT + OUT % "v.generator is None", F + "return F(X),F(c),F(p),F(q),True", vt)
    ob("volume without points", GEN + "v=Volume(alg_objects=[Plane(n,p),Sphere(r,c)],generator=g)\nv.transform(%s)\n" % MT
       + "return v.points is None,v.alg_objects[0].point,v.alg_objects[1].center," + GO,
       F + "return True,F(p),F(c),(M@Bs if lk else Bs),((go if bo else F(go)) if lk else go)", vt)
    ob("volume without surfaces", GEN + "v=Volume(points=X,generator=g)\nv.transform(%s)\n" % MT
       + "return v.points,len(v.alg_objects)," + GO,
       F + "return F(X),0,(M@Bs if lk else Bs),((go if bo else F(go)) if lk else go)", vt)
    # every make-up of a volume: points or not, no to four surfaces, generator or not
    SURF = ["Sphere(r,c)", "Plane(n,p)", "Cylinder(n,q,r,L)", "Sphere(L,q)"]
    SOUT = ["center", "point", "point", "center"]
    SIN = ["c", "p", "q", "q"]
    for pts in (True, False):
        for k in range(5):
            for rot in (0, 1):
                for gen in (True, False):
                    if k < 2 and rot and not k:
                        continue
                    idx = [(i + rot) % 4 for i in range(k)]
                    d = (GEN if gen else "") + "v=Volume(%salg_objects=[%s]%s)\nv.transform(MatrixTransform(M,o))\n" % (
                        "points=X," if pts else "", ",".join(SURF[i] for i in idx), ",generator=g" if gen else "")
                    d += "return " + "".join(["v.points," if pts else "v.points is None,"]
                                             + ["v.alg_objects[%d].%s," % (j, SOUT[i]) for j, i in enumerate(idx)]
                                             + ([GO] if gen else ["v.generator is None"]))
                    sp = F + "return " + "".join(["F(X)," if pts else "True,"] + ["F(%s)," % SIN[i] for i in idx]
                                                 + (["M@Bs,F(go)"] if gen else ["True"]))
                    ob("volume of %s, surfaces %s, %s" % ("points" if pts else "no points", idx, "generator" if gen else "no generator"),
                       d, sp, vt)
    ob("volume normals and axes", GEN + VOL + "v.transform(MatrixTransform(np.diag([2.0,3.0,d]),o))\n"
       "return v.alg_objects[1].normal,v.alg_objects[2].axis",
       "D=np.diag([2.0,3.0,d])\nw=np.linalg.inv(D).T@n\nu=D@n\nreturn w/np.linalg.norm(w),u/np.linalg.norm(u)", vt)
    for first, second in ((0, 1), (1, 0)):
        fl = [(False, True), (True, False)]
        mt = "MultiTransform([MatrixTransform(M,o,locked=%s),Translation(t,locked=%s)])" % (fl[first][0], fl[first][1])
        ob("volume under a composed transform, one part locked (%d)" % first, GEN + VOL + "v.transform(%s)\n" % mt + OUT % GO,
           F + "return F2(F(X)),F2(F(c)),F2(F(p)),F2(F(q)),M@Bs,F2(F(go))", vt)
    ob("volume under an unlocked composed transform", GEN + VOL +
       "v.transform(MultiTransform([MatrixTransform(M,o,locked=False),Translation(t,locked=False)]))\n" + OUT % GO,
       F + "return F2(F(X)),F2(F(c)),F2(F(p)),F2(F(q)),Bs,go", vt)
    ob("volume reflected", GEN + VOL + "v.transform(Reflection(Plane(np.array([0.0,0.0,1.0]),o)))\n" + OUT % GO,
       "D=np.diag([1.0,1.0,-1.0])\nF=lambda x:(x-o)@D.T+o\nreturn F(X),F(c),F(p),F(q),D@Bs,F(go)", vt)
    ob("volume inverted", GEN + VOL + "v.transform(Inversion(origin=o,locked=lk,basis_only=bo))\n" + OUT % GO,
       "F=lambda x:2*o-x\nreturn F(X),F(c),F(p),F(q),(-Bs if lk else Bs),((go if bo else F(go)) if lk else go)", vt)
    # multi-volumes
    G2 = GEN + "g2=Generator(origin=go2)\ng2.voxel.bases=Bs2\n"
    M3 = G2 + "a=Volume(points=X,generator=g)\nb=Volume(alg_objects=[Sphere(r,c),Plane(n,p)],generator=g2)\nw=Volume(points=X2)\n"
    MO = ("return a.points,a.generator.voxel.bases,a.generator.origin,b.alg_objects[0].center,b.alg_objects[1].point,"
          "b.generator.voxel.bases,b.generator.origin,w.points")
    MS = F + ("H=lambda y:((y if bo else F(y)) if lk else y)\n"
              "return F(X),(M@Bs if lk else Bs),H(go),F(c),F(p),(M@Bs2 if lk else Bs2),H(go2),F(X2)")
    ob("multi-volume of three", M3 + "v=MultiVolume([a,b,w])\nv.transform(%s)\n" % MT + MO, MS, "MultiVolume.transform")
    ob("nested multi-volume", M3 + "v=MultiVolume([MultiVolume([a,b]),w])\nv.transform(%s)\n" % MT + MO, MS,
       "MultiVolume.transform")
    ob("nested multi-volumes of other priorities",
       M3 + "v=MultiVolume([MultiVolume([a],priority=-2),MultiVolume([MultiVolume([b],priority=4),w],priority=7)],priority=3)\n"
       "a.priority=5\nb.priority=-1\nv.transform(%s)\n" % MT + MO, MS, "MultiVolume.transform")
    for pr in ("", ",priority=0", ",priority=3"):
        ob("nested multi-volumes of one priority" + pr, M3 + "v=MultiVolume([MultiVolume([a]%s),MultiVolume([b]%s),MultiVolume([w]%s)])\nv.transform(%s)\n" % (pr, pr, pr, MT) + MO, MS,
           "MultiVolume.transform")
        ob("nested multi-volumes of one priority%s, added one by one" % pr, M3 + "v=MultiVolume()\nfor x in (a,b,w):\n    v.add_volume(MultiVolume([x]%s))\nv.transform(%s)\n" % (pr, MT) + MO, MS,
           "MultiVolume.transform")
    ob("members of one priority", M3 + "a.priority=b.priority=w.priority=2\nv=MultiVolume([a,b,w])\nv.transform(%s)\n" % MT + MO, MS, "MultiVolume.transform")
    ob("one member listed by two multi-volumes", G2 + "a=Volume(points=X,generator=g)\nv=MultiVolume([a])\nw=MultiVolume([a])\n"
       "v.transform(%s)\nw.transform(%s)\nreturn a.points,a.generator.voxel.bases,a.generator.origin" % (MT, TR),
       F + "g1=((go if bo else F(go)) if lk else go)\nreturn F2(F(X)),(M@Bs if lk else Bs),((g1 if bo2 else F2(g1)) if lk2 else g1)", "MultiVolume.transform")
    ob("volume with many surfaces", "v=Volume(alg_objects=[Sphere(r,c)]*14+[Plane(n,p)]*2+[Sphere(L,q)])\nv.transform(%s)\n" % MT
       + "return [s.center for s in v.alg_objects[:14]],v.alg_objects[14].point,v.alg_objects[15].point,v.alg_objects[16].center",
       F + "return [F(c)]*14,F(p),F(p),F(q)", vt)
    # generators
    ob("crystal generator", GEN + "g.transform(%s)\nreturn g.voxel.bases,g.origin" % MT,
       F + "return M@Bs,(go if bo else F(go))", "Generator.transform")
    ob("crystal generator translated", GEN + "g.transform(%s)\nreturn g.voxel.bases,g.origin" % TR,
       F + "return Bs,(go if bo2 else F2(go))", "Generator.transform")
    ob("crystal generator twice", GEN + "g.transform(%s)\ng.transform(%s)\nreturn g.voxel.bases,g.origin" % (MT, TR),
       F + "g1=(go if bo else F(go))\nreturn M@Bs,(g1 if bo2 else F2(g1))", "Generator.transform")
    ob("crystal generator composed", GEN + "g.transform(MultiTransform([Translation(t),MatrixTransform(M,o)]))\n"
       "return g.voxel.bases,g.origin", F + "return M@Bs,F(F2(go))", "Generator.transform")
    ob("amorphous generator", AGEN + "g.transform(%s)\nreturn g.origin" % MT, F + "return (go if bo else F(go))",
       "AmorphousGenerator.transform")
    ob("amorphous generator without origin", "g=AmorphousGenerator()\ng.transform(%s)\nreturn g.origin is None" % MT,
       "return True", "AmorphousGenerator.transform")
    for k, (rest, sp) in enumerate((("", "(C if bo else F(C))"), ("g.use_old_result=True\n", "(C if bo else F(C))"))):
        c.eq("block of an amorphous generator" + (", reused" if k else ""), AGEN + "g.supply_atoms(X2)\n" + rest + "g.transform(%s)\nr=%s\nreturn g.origin,r[0],r[1]"
             % (MT, "g.supply_atoms(X)" if k else "g.old_result"), F + "C=C0+np.min(X2,axis=0)\nreturn (go if bo else F(go)),%s,6*np.ones(4)" % sp,
             dict(ENV, C0=A(4, 3)), POS, at=["AmorphousGenerator.transform"], rule="the block supplied earlier moves with the generator",
             hooks=lambda e: e.ihooks.__setitem__("gen_p_substrate", lambda en, pos, kw, st, ex: SYM("C0", A(4, 3))))
    ob("empty generator", "g=NullGenerator()\ng.transform(%s)\nreturn 1" % MT, "return 1", "NullGenerator.transform")
    # molecules
    mt = "BaseMolecule.transform"
    ob("molecule", "m=Molecule(sp,ps,origin=mo)\nm.transform(%s)\nreturn m.atoms,m.origin,m.species" % MT,
       F + "return F(ps),F(mo),sp", mt)
    ob("molecule with the default origin", "m=Molecule(sp,ps)\nm.transform(%s)\nreturn m.atoms,m.origin" % MT,
       F + "return F(ps),F(np.zeros(3))", mt)
    ob("molecule keeping its origin", "m=Molecule(sp,ps,origin=mo)\nm.transform(%s,transform_origin=False)\n"
       "return m.atoms,m.origin" % MT, F + "return F(ps),mo", mt)
    ob("molecule twice", "m=Molecule(sp,ps,origin=mo)\nm.transform(%s)\nm.transform(%s)\nreturn m.atoms,m.origin" % (MT, TR),
       F + "return F2(F(ps)),F2(F(mo))", mt)
    for k in range(3):
        ob("molecule tracking atom %d" % k, "m=Molecule(sp,ps,origin=%d)\nm.transform(%s)\nreturn m.atoms,m.origin" % (k, MT),
           F + "return F(ps),F(ps[%d])" % k, mt)
    # copies with transforms
    fv = "Volume.from_volume"
    lst = "transformation=[%s,%s]" % (MT, TR)
    ob("volume copy with transforms", GEN + VOL + "v=v.from_volume(%s)\n" % lst + OUT % GO,
       F + "g1=((go if bo else F(go)) if lk else go)\n"
       "return F2(F(X)),F2(F(c)),F2(F(p)),F2(F(q)),(M@Bs if lk else Bs),((g1 if bo2 else F2(g1)) if lk2 else g1)", fv)
    ob("volume copy with transforms in the other order", GEN + VOL + "v=v.from_volume(transformation=[%s,%s])\n" % (TR, MT)
       + OUT % GO,
       F + "g1=((go if bo2 else F2(go)) if lk2 else go)\n"
       "return F(F2(X)),F(F2(c)),F(F2(p)),F(F2(q)),(M@Bs if lk else Bs),((g1 if bo else F(g1)) if lk else g1)", fv)
    ob("volume copy with a new generator and a transform", G2 + VOL + "v=v.from_volume(generator=g2,transformation=[%s])\n" % MT
       + OUT % GO, F + "return F(X),F(c),F(p),F(q),(M@Bs2 if lk else Bs2),((go2 if bo else F(go2)) if lk else go2)", fv)
    ob("volume copy without transforms", GEN + VOL + "v=v.from_volume()\n" + OUT % GO, "return X,c,p,q,Bs,go", fv)
    ob("multi-volume copy with transforms", M3 + "v=MultiVolume([a,b,w]).from_volume(%s)\na,b,w=v.volumes\n" % lst + MO,
       F + "H1=lambda y:((y if bo else F(y)) if lk else y)\nH2=lambda y:((y if bo2 else F2(y)) if lk2 else y)\nK=lambda x:F2(F(x))\n"
       "return K(X),(M@Bs if lk else Bs),H2(H1(go)),K(c),K(p),(M@Bs2 if lk else Bs2),H2(H1(go2)),K(X2)",
       "MultiVolume.from_volume")
    for nm, l, sp in (("the same transform twice", "[T,T]", "F(F(%s))"), ("a transform again after another", "[T,Translation(t),T]", "F(F2(F(%s)))")):
        pre = GEN + VOL + "T=MatrixTransform(M,o)\n"
        b = "M@(M@Bs)"
        ob("volume copy with " + nm, pre + "v=v.from_volume(transformation=%s)\n" % l + OUT % GO,
           F + "return " + ",".join(sp % x for x in ("X", "c", "p", "q")) + ",%s,%s" % (b, sp % "go"), fv)
        ob("generator copy with " + nm, pre + "g=g.from_generator(transformation=%s)\nreturn g.voxel.bases,g.origin" % l,
           F + "return %s,%s" % (b, sp % "go"), "BaseGenerator.from_generator")
        ob("molecule copy with " + nm, pre + "m=Molecule(sp,ps,origin=mo).from_molecule(transformation=%s)\nreturn m.atoms,m.origin" % l,
           F + "return %s,%s" % (sp % "ps", sp % "mo"), "BaseMolecule.from_molecule")
        ob("multi-volume copy with " + nm, pre + "v,=MultiVolume([v]).from_volume(transformation=%s).volumes\n" % l + OUT % GO,
           F + "return " + ",".join(sp % x for x in ("X", "c", "p", "q")) + ",%s,%s" % (b, sp % "go"), "MultiVolume.from_volume")
        ob("composed transform of " + nm, pre + "v.transform(MultiTransform(%s))\n" % l + OUT % GO,
           F + "return " + ",".join(sp % x for x in ("X", "c", "p", "q")) + ",%s,%s" % (b, sp % "go"), vt)
        for kind, mk, args in (("sphere", "Sphere(r,c)", ["center"]), ("cylinder", "Cylinder(n,q,r,L)", ["point"]), ("plane", "Plane(n,p)", ["point"])):
            src = {"sphere": "c", "cylinder": "q", "plane": "p"}[kind]
            ob("%s copy with %s" % (kind, nm), pre + "a=%s.from_alg_object(transformation=%s)\nreturn a.%s" % (mk, l, args[0]),
               F + "return " + sp % src, "BaseAlgebraic.from_alg_object")
    # everything else a copy carries over
    ob("volume copy keeps its other settings", GEN + "v=Volume(points=X,generator=g,priority=3,tolerance=0.25).from_volume(%s)\n" % lst
       + "return v.priority,v.tolerance", "return 3,0.25", fv)
    ob("multi-volume copy keeps its other settings", M3 + "a.priority=4\nb.priority=-2\nv=MultiVolume([a,MultiVolume([b],priority=9),w],priority=-5).from_volume(%s)\n" % lst
       + "return v.priority,[x.priority for x in v.volumes],v.volumes[1].volumes[0].priority", "return -5,[4,9,0],-2", "MultiVolume.from_volume")
    ob("surfaces of a volume copy keep their sizes", GEN + VOL + "v=v.from_volume(transformation=[%s])\ns=v.alg_objects\nreturn s[0].radius,s[2].radius,s[2].length" % TR, "return r,r,L", fv)
    # flags of the listed transforms never change their order
    for f1 in ((True, False), (True, True), (False, False)):
        for f2 in ((True, False), (True, True), (False, False)):
            if f1 == f2:
                continue
            mt2 = "MatrixTransform(M,o,locked=%s,basis_only=%s)" % f1
            tr2 = "Translation(t,locked=%s,basis_only=%s)" % f2
            sp2 = (F + "g1=%s\nreturn F2(F(X)),F2(F(c)),F2(F(p)),F2(F(q)),%s,%s" % (
                "F(go)" if f1 == (True, False) else "go", "M@Bs" if f1[0] else "Bs",
                "F2(g1)" if f2 == (True, False) else "g1"))
            ob("volume copy with transforms flagged %s, %s" % (f1, f2),
               GEN + VOL + "v=v.from_volume(transformation=[%s,%s])\n" % (mt2, tr2) + OUT % GO, sp2, fv)
            ob("composed transform flagged %s, %s moves points" % (f1, f2),
               GEN + VOL + "v.transform(MultiTransform([%s,%s]))\nreturn v.points,v.alg_objects[0].center" % (mt2, tr2),
               F + "return F2(F(X)),F2(F(c))", vt)
    ob("generator copy with transforms", GEN + "g=g.from_generator(%s)\nreturn g.voxel.bases,g.origin" % lst,
       F + "g1=(go if bo else F(go))\nreturn M@Bs,(g1 if bo2 else F2(g1))", "BaseGenerator.from_generator")
    ob("generator copy without transforms", GEN + "g=g.from_generator()\nreturn g.voxel.bases,g.origin", "return Bs,go",
       "BaseGenerator.from_generator")
    ob("amorphous copy with transforms", AGEN + "g=g.from_generator(%s)\nreturn g.origin" % lst,
       F + "g1=(go if bo else F(go))\nreturn (g1 if bo2 else F2(g1))", "BaseGenerator.from_generator")
    ob("molecule copy with transforms", "m=Molecule(sp,ps,origin=mo).from_molecule(%s)\nreturn m.atoms,m.origin,m.species" % lst,
       F + "return F2(F(ps)),F2(F(mo)),sp", "BaseMolecule.from_molecule")
    ob("molecule copy tracking an atom", "m=Molecule(sp,ps,origin=1).from_molecule(%s)\nreturn m.atoms,m.origin" % lst,
       F + "return F2(F(ps)),F2(F(ps[1]))", "BaseMolecule.from_molecule")
