"""Abstract interpretation of every validated assignment and construction with valid and
invalid values (symbolic where the rule is a bound): the condition under which the call
raises and the value stored afterwards are compared with the documented validity rule."""
from sa.check import arrty as A
from sa.props import common as cm

FL2 = "f=0\ntry:\n    %s\n    f=1\nexcept (Exception,EXPLICIT):\n    f=2\n"
FL = "f=0\ntry:\n    %s\n    f=1\nexcept Exception:\n    f=2\n"
ENV = dict(r="float", v="float", k="int", c=A(3), n=A(3), p=A(3), M=A(3, 3), q=A(3), b="float", cc="float", d="float", r0="float", l0="float", t0="float",
           ps=A(5, 3), ps2=A(2, 3), sp=A(5), m4=A(4), o=A(3), bb=A(2, 3), b3=A(3, 3))
POS = {"r0": "pos", "l0": "pos", "t0": "pos", "sp": "int"}
ROT = ("s=1+b*b+cc*cc+d*d\n"
       "R=np.array([[1+b*b-cc*cc-d*d,2*(b*cc-d),2*(b*d+cc)],[2*(b*cc+d),1-b*b+cc*cc-d*d,2*(cc*d-b)],[2*(b*d-cc),2*(cc*d+b),1-b*b-cc*cc+d*d]])/s\n")


def run(c):
    def ob(name, pre, stmt, read, spec, at, rule, env=None, assume=None, fl=FL, **kw):
        c.eq(name, pre + fl % stmt + "return %s,f" % read, spec, dict(ENV, **(env or {})), dict(POS, **(assume or {})), at=at.split(), rule=rule, **kw)

    BAD = "an invalid value is refused and the stored value stays"
    GOOD = "a valid value is stored"

    def rej(name, pre, stmt, read, at, **kw):
        ob(name, pre, stmt, read, pre + "return %s,2" % read, at, BAD, **kw)

    def acc(name, pre, stmt, read, val, at, **kw):
        ob(name, pre, stmt, read, pre + "return %s,1" % val, at, GOOD, fl=FL2, **kw)

    def refused(name, expr, at, pre="", **kw):
        c.eq(name, pre + FL % ("w=" + expr) + "return f", "return 2", dict(ENV, **kw.pop("env", {})), dict(POS, **kw.pop("assume", {})), at=at.split(),
             rule="construction from an invalid value is refused", **kw)

    def accepted(name, expr, at, pre="", **kw):
        c.eq(name, pre + FL2 % ("w=" + expr) + "return f", "return 1", dict(ENV, **kw.pop("env", {})), dict(POS, **kw.pop("assume", {})), at=at.split(),
             rule="construction from valid values succeeds", **kw)

    # ---- surfaces
    SU = {"Sphere": "w=Sphere(r0,c)\n", "Plane": "w=Plane(np.array([1.0,2.0,0.5]),p)\n", "Cylinder": "w=Cylinder(np.array([1.0,2.0,0.5]),p,r0,l0)\n"}
    for cls, at in SU.items():
        attrs = ["tol"] + (["radius"] if cls != "Plane" else []) + (["length"] if cls == "Cylinder" else [])
        for a in attrs:
            where = "%s.%s" % ("BaseAlgebraic" if a == "tol" else cls, a)
            if cls == "Cylinder" and a in ("radius", "length"):
                for x in ("-1.0", "0.0", "0", "-3", "-1e-3", "-1e30"):
                    rej("%s %s %s" % (cls, a, x), SU[cls], "w.%s=%s" % (a, x), "w." + a, where)
                for x in ("1.0", "3", "1e-3", "1e30"):
                    acc("%s %s %s" % (cls, a, x), SU[cls], "w.%s=%s" % (a, x), "w." + a, x, where)
                rej("%s %s any negative" % (cls, a), SU[cls], "w.%s=-v" % a, "w." + a, where, assume={"v": "pos"})
            else:
                ob("%s %s any value" % (cls, a), SU[cls], "w.%s=v" % a, "w." + a, SU[cls] + "if v>0:\n    return v,1\nelse:\n    return w.%s,2" % a, where,
                   "stored exactly when positive")
                for x in ("-1.0", "0.0", "0", "-3"):
                    rej("%s %s %s" % (cls, a, x), SU[cls], "w.%s=%s" % (a, x), "w." + a, where)
                for x in ("1.0", "3"):
                    acc("%s %s %s" % (cls, a, x), SU[cls], "w.%s=%s" % (a, x), "w." + a, x, where)
            rej("%s %s not a number" % (cls, a), SU[cls], "w.%s='wide'" % a, "w." + a, where)
    args = {"Sphere": ("radius=%s,center=%s,tol=%s", ["r0", "c", "t0"]), "Plane": ("normal=%s,point=%s,tol=%s", ["np.array([1.0,2.0,0.5])", "p", "t0"]),
            "Cylinder": ("axis=%s,point=%s,radius=%s,length=%s,tol=%s", ["np.array([1.0,2.0,0.5])", "p", "r0+1.0", "l0+1.0", "t0"])}
    bad = {"r0": ["0.0", "-2.0", "0"], "l0+1.0": ["0.0", "-2.0"], "r0+1.0": ["0.0", "-2.0", "0"], "t0": ["0.0", "-1e-5"], "c": ["m4", "m4[:2]", "[1.0,2.0]"], "p": ["m4", "m4[:2]", "[1.0,2.0]"],
           "np.array([1.0,2.0,0.5])": ["np.zeros(3)", "[0,0,0]", "m4", "m4[:2]", "np.zeros((1,3))"]}
    for cls, (fmt, vals) in args.items():
        accepted("%s construction" % cls, "%s(%s)" % (cls, fmt % tuple(vals)), cls + ".__init__")
        for i, v in enumerate(vals):
            for x in bad[v]:
                vs = list(vals)
                vs[i] = x
                refused("%s construction with %s" % (cls, (fmt % tuple(vs))), "%s(%s)" % (cls, fmt % tuple(vs)), cls + ".__init__")
    for x in ("m4", "m4[:2]", "ps2", "[1.0,2.0]", "[1.0,2.0,3.0,4.0]", "M", "ps2.T", "np.zeros((3,2))", "np.zeros((3,3))", "[[1.0,2.0],[3.0,4.0],[5.0,6.0]]", "[1.0]"):
        rej("Sphere center %s" % x, SU["Sphere"], "w.center=%s" % x, "w.center", "Sphere.center")
        rej("Plane point %s" % x, SU["Plane"], "w.point=%s" % x, "w.point", "Plane.point")
        rej("Cylinder point %s" % x, SU["Cylinder"], "w.point=%s" % x, "w.point", "Cylinder.point")
        rej("Plane normal %s" % x, SU["Plane"], "w.normal=%s" % x, "w.normal", "Plane.normal")
        rej("Cylinder axis %s" % x, SU["Cylinder"], "w.axis=%s" % x, "w.axis", "Cylinder.axis")
    for x in ("np.zeros(3)", "[0,0,0]", "(0.0,0.0,0.0)", "np.zeros((3,1))"):
        rej("Plane normal vanishing %s" % x, SU["Plane"], "w.normal=%s" % x, "w.normal", "Plane.normal")
        rej("Cylinder axis vanishing %s" % x, SU["Cylinder"], "w.axis=%s" % x, "w.axis", "Cylinder.axis")
    for x in ("[1.0,2.0,2.0]", "(0.0,0.0,-4.0)", "np.array([[0.0,3.0,4.0]])", "np.array([3,0,-4])"):
        u = "np.array(%s).reshape(3)/np.sqrt(np.sum(np.array(%s)**2))" % (x, x)
        acc("Plane normal %s" % x, SU["Plane"], "w.normal=%s" % x, "w.normal", u, "Plane.normal")
        acc("Cylinder axis %s" % x, SU["Cylinder"], "w.axis=%s" % x, "w.axis", u, "Cylinder.axis")
    for x in ("q", "list(q)", "tuple(q)"):
        acc("Sphere center %s" % x, SU["Sphere"], "w.center=%s" % x, "w.center", "q", "Sphere.center")
        acc("Plane point %s" % x, SU["Plane"], "w.point=%s" % x, "w.point", "q", "Plane.point")
        acc("Cylinder point %s" % x, SU["Cylinder"], "w.point=%s" % x, "w.point", "q", "Cylinder.point")

    # ---- voxel
    V = "w=Voxel(bases=np.array([[2.0,0.0,1.0],[0.0,3.0,0.0],[0.5,0.0,4.0]]),origin=o)\n"
    for x in ("M[:2]", "q", "M[:,:2]", "np.zeros((4,4))", "[[1.0,0.0,0.0],[0.0,1.0,0.0]]"):
        rej("Voxel bases of shape %s" % x, V, "w.bases=%s" % x, "w.bases", "Voxel.bases")
        refused("Voxel with bases of shape %s" % x, "Voxel(bases=%s)" % x, "Voxel.__init__ Voxel.bases")
    for i, j, l in ((0, 1, 2), (0, 2, 1), (1, 2, 0)):
        for f in ("1.0", "2.0", "-1.0", "-3.0", "0.5"):
            rows = [None] * 3
            rows[i], rows[j], rows[l] = "[1.0,2.0,3.0]", repr([float(f) * x for x in (1.0, 2.0, 3.0)]), "[0.0,1.0,-1.0]"
            x = "np.array([%s])" % ",".join(rows)
            rej("Voxel bases %d and %d collinear by %s" % (i, j, f), V, "w.bases=%s" % x, "w.bases", "Voxel.bases Voxel._collinear")
            refused("Voxel with bases %d and %d collinear by %s" % (i, j, f), "Voxel(bases=%s)" % x, "Voxel.bases Voxel._collinear")
    for x in ("np.eye(3)", "np.array([[1.0,2.0,3.0],[3.0,-1.0,2.0],[0.0,1.0,1.0]])", "[[1,0,0],[0,2,0],[0,0,3]]", "-2.0*np.eye(3)",
              "np.array([[0.0,1.0,1.0],[1.0,0.0,1.0],[1.0,1.0,0.0]])", "np.array([[1.0,0.0,0.0],[0.5,0.9,0.0],[0.0,0.0,-1.0]])"):
        acc("Voxel bases %s" % x, V, "w.bases=%s" % x, "w.bases", "np.array(%s)" % x, "Voxel.bases Voxel._collinear")
    for x in ("m4", "m4[:2]", "M", "ps2"):
        rej("Voxel origin of shape %s" % x, V, "w.origin=%s" % x, "w.origin", "Voxel.origin")
        rej("Voxel scale of shape %s" % x, V, "w.scale=%s" % x, "w.sbases", "Voxel.scale") if x != "M" else None
    acc("Voxel origin", V, "w.origin=q", "w.origin", "q", "Voxel.origin")
    for x in ("2.0", "q", "q.reshape(1,3)", "q.reshape(3,1)"):
        acc("Voxel scale %s" % x, V, "w.scale=%s" % x, "w.sbases", "w.bases*(%s)" % x, "Voxel.scale Voxel.sbases")

    # ---- generators
    senv, sset = cm.structure("S", 2)
    G = "w=Generator(structure=S,origin=o)\n"
    AG = "w=AmorphousGenerator(origin=o,min_dist=r0,density=l0,species=6)\n"
    for x in ("3", "'Au'", "None", "G2", "np.eye(3)", "Voxel()"):
        s = G + "G2=NullGenerator()\n"
        rej("Generator structure %s" % x, s, "w.structure=%s" % x, "w.structure,w.origin,w.voxel.bases", "Generator.structure", env=senv, setup=sset)
        if x != "Voxel()":
            rej("Generator voxel %s" % x, s, "w.voxel=%s" % x, "w.origin,w.voxel.bases", "Generator.voxel", env=senv, setup=sset)
        refused("Generator from structure %s" % x, "Generator(structure=%s)" % x, "Generator.structure", pre="G2=NullGenerator()\n") if x != "None" else None
        rej("Generator strain field %s" % x, s + "h=HStrain(matrix=q,origin=p)\nw.strain_field=h\n", "w.strain_field=%s" % x, "w.strain_field is h", "Generator.strain_field",
            env=senv, setup=sset)
        rej("Generator post transform %s" % x, s + "h=ChemicalSubstitution([79],[78],0.5)\nw.post_transform=h\n", "w.post_transform=%s" % x, "w.post_transform is h",
            "Generator.post_transform", env=senv, setup=sset)
        if x != "None":
            refused("Generator with strain field %s" % x, "Generator(structure=S,strain_field=%s)" % x, "Generator.__init__", pre="G2=NullGenerator()\n", env=senv) if False else None
    for x in ("m4", "m4[:2]", "M"):
        rej("Generator origin %s" % x, G, "w.origin=%s" % x, "w.origin", "Generator.origin Voxel.origin", env=senv, setup=sset)
        rej("AmorphousGenerator origin %s" % x, AG, "w.origin=%s" % x, "w.origin", "AmorphousGenerator.origin")
    for a in ("density", "min_dist"):
        ob("AmorphousGenerator %s any value" % a, AG, "w.%s=v" % a, "w." + a, AG + "if v>0:\n    return v,1\nelse:\n    return w.%s,2" % a, "AmorphousGenerator." + a,
           "stored exactly when positive")
        for x in ("0", "0.0", "-1.0", "'x'"):
            rej("AmorphousGenerator %s %s" % (a, x), AG, "w.%s=%s" % (a, x), "w." + a, "AmorphousGenerator." + a)
            refused("AmorphousGenerator with %s %s" % (a, x), "AmorphousGenerator(%s=%s)" % (a, x), "AmorphousGenerator.__init__")
        acc("AmorphousGenerator %s 2" % a, AG, "w.%s=2" % a, "w." + a, "2", "AmorphousGenerator." + a)

    # ---- volumes
    VO = "w=Volume(alg_objects=[Sphere(r0,c)],priority=k)\n"
    MV = "w=MultiVolume([Volume(alg_objects=[Sphere(r0,c)],priority=1)],priority=k)\n"
    MO = "w=Molecule(sp,ps)\nw.priority=k\n"
    for nm, s in (("Volume", VO), ("MultiVolume", MV), ("Molecule", MO)):
        base = "BaseMolecule.priority" if nm == "Molecule" else "BaseVolume.priority"
        for x in ("1.5", "2.0", "'1'", "None", "[1]", "(0,)", "np.array([1])", "v"):
            rej("%s priority %s" % (nm, x), s, "w.priority=%s" % x, "w.priority", base)
        for x in ("0", "7", "-3"):
            acc("%s priority %s" % (nm, x), s, "w.priority=%s" % x, "w.priority", x, base)
    for x in ("1.5", "'1'", "None"):
        refused("Volume with priority %s" % x, "Volume(alg_objects=[Sphere(r0,c)],priority=%s)" % x, "Volume.__init__")
        refused("MultiVolume with priority %s" % x, "MultiVolume([Volume(alg_objects=[Sphere(r0,c)])],priority=%s)" % x, "MultiVolume.__init__") if x != "None" else None
    VG = "g=NullGenerator()\nw=Volume(alg_objects=[Sphere(r0,c)],generator=g)\n"
    for x in ("3", "'a'", "None", "Volume()", "np.eye(3)", "[Sphere(r0,c)]", "Translation(q)"):
        rej("Volume surface %s" % x, VG, "w.add_alg_object(%s)" % x, "len(w.alg_objects),w.alg_objects[0].params", "Volume.add_alg_object")
        if x not in ("None",):
            rej("Volume generator %s" % x, VG, "w.add_generator(%s)" % x, "type(w.generator).__name__", "Volume.add_generator")
            refused("Volume with generator %s" % x, "Volume(generator=%s)" % x, "Volume.__init__ Volume.add_generator")
            rej("MultiVolume member %s" % x, MV, "w.add_volume(%s)" % x, "len(w.volumes)", "MultiVolume.add_volume") if x != "Volume()" else None
            rej("MultiVolume list with %s last" % x, MV, "w.add_volume([Volume(),%s])" % x, "len(w.volumes)", "MultiVolume.add_volume") if x != "Volume()" else None
        if not x.startswith("["):
            refused("Volume with surfaces ending in %s" % x, "Volume(alg_objects=[Sphere(r0,c),%s])" % x, "Volume.__init__")
        for cls in ("Volume", "MultiVolume", "Generator", "AmorphousGenerator", "Molecule"):
            s = {"Volume": VO, "MultiVolume": MV, "Generator": G, "AmorphousGenerator": AG, "Molecule": MO}[cls]
            if not x.startswith("Translation"):
                rd = {"Volume": "w.alg_objects[0].params", "MultiVolume": "w.volumes[0].alg_objects[0].params", "Generator": "w.origin", "AmorphousGenerator": "w.origin",
                      "Molecule": "w.atoms"}[cls]
                rej("%s transformed by %s" % (cls, x), s, "w.transform(%s)" % x, rd, cls.replace("Molecule", "BaseMolecule") + ".transform", env=senv if cls == "Generator" else None,
                    setup=sset if cls == "Generator" else None)
    for x in ("1", "'a'", "None", "np.eye(3)"):
        rej("Volume hull tolerance %s" % x, VO + "w.tolerance=0.25\n", "w.tolerance=%s" % x, "w.tolerance", "Volume.tolerance")
    acc("Volume hull tolerance 1e-3", VO, "w.tolerance=1e-3", "w.tolerance", "1e-3", "Volume.tolerance")
    for x in ("m4.reshape(2,2)", "q", "np.zeros((3,4))"):
        refused("Volume with points %s" % x, "Volume(points=%s)" % x, "Volume.__init__")
    # ---- scene
    S = "w=Scene(bounds=bb)\n"
    for x in ("q", "M", "bb.T", "ps2.reshape(6)", "bb[:,:2]"):
        rej("Scene bounds %s" % x, S, "w.bounds=%s" % x, "w.bounds", "Scene.bounds")
        refused("Scene with bounds %s" % x, "Scene(bounds=%s)" % x, "Scene.__init__")
    acc("Scene bounds", S, "w.bounds=ps2", "w.bounds", "ps2", "Scene.bounds")

    # ---- transforms
    for cls, a in (("Translation", "shift=o"), ("MatrixTransform", "matrix=b3"), ("Rotation", "matrix=np.eye(3)"), ("Reflection", "plane=Plane([0.0,0.0,1.0],o)"),
                   ("Inversion", "origin=o")):
        for fl in ("locked", "basis_only"):
            for x in ("1", "0", "None", "'yes'", "[True]", "1.0"):
                rej("%s %s %s" % (cls, fl, x), "w=%s(%s,%s=True)\n" % (cls, a, fl), "w.%s=%s" % (fl, x), "w." + fl, "BaseTransform." + fl)
                refused("%s with %s=%s" % (cls, fl, x), "%s(%s,%s=%s)" % (cls, a, fl, x), "BaseTransform.%s %s.__init__" % (fl, cls))
            for x in ("True", "False"):
                acc("%s %s %s" % (cls, fl, x), "w=%s(%s,%s=%s)\n" % (cls, a, fl, "False" if x == "True" else "True"), "w.%s=%s" % (fl, x), "w." + fl, x, "BaseTransform." + fl)
                accepted("%s with %s=%s" % (cls, fl, x), "%s(%s,%s=%s)" % (cls, a, fl, x), "BaseTransform.%s" % fl)
    for x in ("m4", "m4[:2]", "M", "q.reshape(1,3)", "[1.0,2.0]"):
        rej("Translation shift %s" % x, "w=Translation(o)\n", "w.shift=%s" % x, "w.shift", "Translation.shift")
        refused("Translation by %s" % x, "Translation(%s)" % x, "Translation.__init__")
    acc("Translation shift list", "w=Translation(o)\n", "w.shift=list(q)", "w.shift", "q", "Translation.shift")
    for x in ("q", "M[:2]", "M[:,:2]", "np.eye(4)"):
        for cls in ("MatrixTransform", "Rotation"):
            i = "b3" if cls == "MatrixTransform" else "np.eye(3)"
            rej("%s matrix %s" % (cls, x), "w=%s(%s)\n" % (cls, i), "w.matrix=%s" % x, "w.matrix", cls + ".matrix")
            refused("%s of %s" % (cls, x), "%s(%s)" % (cls, x), cls + ".__init__")
    for x in ("m4", "M", "m4[:2]"):
        rej("MatrixTransform origin %s" % x, "w=MatrixTransform(b3,origin=o)\n", "w.origin=%s" % x, "w.origin", "MatrixTransform.origin")
    acc("MatrixTransform any matrix", "w=MatrixTransform(b3)\n", "w.matrix=M", "w.matrix", "M", "MatrixTransform.matrix")
    W = "w=Rotation(np.array([[0.0,-1.0,0.0],[1.0,0.0,0.0],[0.0,0.0,1.0]]))\n"
    badrot = ["np.zeros((3,3))", "-np.eye(3)", "2.0*np.eye(3)", "1.01*np.eye(3)", "0.99*np.eye(3)", "np.diag([2.0,0.5,1.0])", "np.diag([1.0,4.0,0.25])", "np.diag([-1.0,2.0,-0.5])",
              "np.array([[0.0,1.0,0.0],[1.0,0.0,0.0],[0.0,0.0,1.0]])", "np.ones((3,3))"]
    # deviations from orthogonality that cancel in sums, traces, determinants, rows or columns
    cancel = ["np.array([[1.0,-2.0,0.0],[0.0,1.0,0.0],[0.0,0.0,1.0]])", "np.array([[1.0,0.0,0.0],[0.0,1.0,0.0],[-2.0,0.0,1.0]])",
              "np.diag([np.sqrt(1.5),np.sqrt(0.5),1/np.sqrt(0.75)])", "np.diag([1.0,np.sqrt(0.5),np.sqrt(1.5)])", "np.array([[1.0,1.0,1.0],[0.0,1.0,1.0],[0.0,0.0,1.0]])"]
    badrot += cancel
    badrot += ["np.diag([%s])" % ",".join("-1.0" if i == j else "1.0" for j in range(3)) for i in range(3)]
    for i in range(3):
        for j in range(3):
            if i != j:
                for e in ("0.01", "-0.3", "5.0"):
                    badrot.append("np.array([%s])" % ",".join("[" + ",".join("1.0" if a == b else (e if (a, b) == (i, j) else "0.0") for b in range(3)) + "]" for a in range(3)))
    for x in badrot:
        rej("Rotation matrix %s" % x, W, "w.matrix=%s" % x, "w.matrix", "Rotation.matrix")
        refused("Rotation of %s" % x, "Rotation(%s)" % x, "Rotation.matrix")
    for nm, x in (("negated", "-R"), ("reflected", "R@np.diag([1.0,1.0,-1.0])"), ("swapped", "R[[1,0,2]]"), ("doubled", "2.0*R"), ("stretched", "R@np.diag([1.0,4.0,0.25])")):
        if nm == "stretched":
            continue
        rej("any rotation %s as Rotation matrix" % nm, W + ROT, "w.matrix=%s" % x, "w.matrix", "Rotation.matrix")
    acc("any rotation as Rotation matrix", W + ROT, "w.matrix=R", "w.matrix", "R", "Rotation.matrix")
    acc("any transposed rotation as Rotation matrix", W + ROT, "w.matrix=R.T", "w.matrix", "R.T", "Rotation.matrix")
    for x in ("3", "None", "q", "Sphere(r0,c)", "'z'", "Translation(q)"):
        rej("Reflection plane %s" % x, "w=Reflection(Plane([0.0,0.0,1.0],o))\n", "w.plane=%s" % x, "w.plane.params,w.matrix,w.origin", "Reflection.plane")
        refused("Reflection about %s" % x, "Reflection(%s)" % x, "Reflection.__init__") if x != "None" else None
        for y in (x, "[Translation(q),%s]" % x):
            if y in ("Translation(q)", "[Translation(q),Translation(q)]", "None"):
                continue
            rej("MultiTransform adding %s" % y, "w=MultiTransform([Translation(o)])\n", "w.add_transform(%s)" % y, "len(w.transforms),w.transforms[0].shift", "MultiTransform.add_transform")
            refused("MultiTransform of %s" % y, "MultiTransform(%s)" % y, "MultiTransform.__init__")

    # ---- strain
    H = "w=HStrain(matrix=b3,origin=o,mode='standard')\n"
    I = "w=IStrain(fun=lambda x,**kw:x,origin=o,mode='standard',a=1)\n"
    for nm, s in (("HStrain", H), ("IStrain", I)):
        for x in ("'Crystal'", "'cubic'", "None", "1", "''"):
            rej("%s mode %s" % (nm, x), s, "w.mode=%s" % x, "w.mode", "BaseStrain.mode")
            refused("%s with mode %s" % (nm, x), "%s(mode=%s)" % (nm, x), nm + ".__init__ BaseStrain.mode")
        for x in ("'crystal'", "'standard'"):
            acc("%s mode %s" % (nm, x), s, "w.mode=%s" % x, "w.mode", x, "BaseStrain.mode")
        for x in ("m4", "M", "m4[:2]", "q.reshape(1,3)"):
            rej("%s origin %s" % (nm, x), s, "w.origin=%s" % x, "w.origin", "BaseStrain.origin")
            refused("%s with origin %s" % (nm, x), "%s(origin=%s)" % (nm, x), nm + ".__init__ BaseStrain.origin")
        acc("%s origin" % nm, s, "w.origin=q", "w.origin", "q", "BaseStrain.origin")
    for x in ("m4", "m4[:2]", "M[:2]", "np.zeros(5)", "np.zeros(7)", "np.zeros((3,4))", "3.0", "np.zeros((2,2,3))"):
        rej("HStrain matrix %s" % x, H, "w.matrix=%s" % x, "w.matrix", "HStrain.matrix") if x != "M[:2]" or True else None
        refused("HStrain of %s" % x, "HStrain(matrix=%s)" % x, "HStrain.__init__ HStrain.matrix")
    acc("HStrain matrix nine", H, "w.matrix=M.reshape(9)", "w.matrix", "M", "HStrain.matrix")
    acc("HStrain matrix three", H, "w.matrix=q", "w.matrix", "np.diag([q[0],q[1],q[2]])", "HStrain.matrix")
    for x in ("3", "[1]", "None", "'a'"):
        rej("IStrain kwargs %s" % x, I, "w.fun_kwargs=%s" % x, "w.fun_kwargs['a']", "IStrain.fun_kwargs")
    for x in ("lambda x,**kw:x[:,:2]", "lambda x,**kw:x.T", "lambda x,**kw:x[:50]", "lambda x,**kw:x.sum(axis=1)"):
        rej("IStrain function %s" % x, I, "w.strain_fun=%s" % x, "w.strain_fun(q)", "IStrain.strain_fun")
        refused("IStrain of %s" % x, "IStrain(fun=%s)" % x, "IStrain.strain_fun")
    acc("IStrain function", I, "w.strain_fun=lambda x,**kw:2.0*x", "w.strain_fun(q)", "2.0*q", "IStrain.strain_fun")

    # ---- post transforms
    refused("ChemicalSubstitution with unequal lists", "ChemicalSubstitution([1,2],[3],0.5)", "ChemicalSubstitution.__init__")
    refused("ChemicalSubstitution with more substitutes", "ChemicalSubstitution([1],[3,4],0.5)", "ChemicalSubstitution.__init__")
    for x in ("3", "Translation(q)", "'a'", "[ChemicalSubstitution([1],[2],0.5),3]", "[Translation(q)]"):
        rej("PostSequence adding %s" % x, "w=PostSequence([ChemicalSubstitution([1],[2],0.5)])\n", "w.add_transform(%s)" % x, "len(w._transforms)", "PostSequence.add_transform")
        refused("PostSequence of %s" % x, "PostSequence(%s)" % x, "PostSequence.__init__")

    # ---- prefabs
    P = "w=fccMixedTwinSF(generator=Generator(structure=S),volume=Volume(alg_objects=[Sphere(r0,c)]),ratio=0.25)\n"
    ob("prefab ratio any value", P, "w.ratio=v", "w.ratio", "if v<0:\n    return 0.25,2\nelif v>1:\n    return 0.25,2\nelse:\n    return v,1", "fccMixedTwinSF.ratio",
       "stored exactly when within [0,1]", env=senv, setup=sset)
    for x in ("-0.1", "1.1", "2", "-1", "1e9"):
        rej("prefab ratio %s" % x, P, "w.ratio=%s" % x, "w.ratio", "fccMixedTwinSF.ratio", env=senv, setup=sset)
        refused("prefab with ratio %s" % x, "fccMixedTwinSF(ratio=%s)" % x, "fccMixedTwinSF.__init__")
    for x in ("0", "1", "0.0", "1.0", "0.5"):
        acc("prefab ratio %s" % x, P, "w.ratio=%s" % x, "w.ratio", x, "fccMixedTwinSF.ratio", env=senv, setup=sset)
    for cls in ("fccMixedTwinSF", "fccTwin", "fccStackingFault", "wurtziteStackingFault"):
        own = "fccMixedTwinSF" if cls.startswith("fcc") else cls
        s = "g=Generator(structure=S)\nu=Volume(alg_objects=[Sphere(r0,c)])\nw=%s(generator=g,volume=u,N=4,min_sep=5)\n" % cls
        for x in ("1.5", "'3'", "None", "[3]", "v"):
            rej("%s min_sep %s" % (cls, x), s, "w.min_sep=%s" % x, "w.min_sep", own + ".min_sep", env=senv, setup=sset)
            refused("%s with min_sep %s" % (cls, x), "%s(min_sep=%s)" % (cls, x), own + ".min_sep %s.__init__" % cls)
        for x in ("'many'", "None", "[1]"):
            rej("%s N %s" % (cls, x), s, "w.N=%s" % x, "w.N", own + ".N", env=senv, setup=sset)
        for x in ("3", "'Au'", "None", "NullGenerator()", "AmorphousGenerator()", "u", "S"):
            rej("%s generator %s" % (cls, x), s, "w.generator=%s" % x, "w.generator is g", own + ".generator", env=senv, setup=sset)
            if x not in ("None", "u", "S"):
                refused("%s with generator %s" % (cls, x), "%s(generator=%s)" % (cls, x), own + ".generator %s.__init__" % cls)
        for x in ("3", "'Au'", "None", "g", "[u]", "Sphere(r0,c)", "ps"):
            rej("%s volume %s" % (cls, x), s, "w.volume=%s" % x, "w.volume is u", own + ".volume", env=senv, setup=sset)
        acc("%s min_sep 2" % cls, s, "w.min_sep=2", "w.min_sep", "2", own + ".min_sep", env=senv, setup=sset)
        acc("%s N 7" % cls, s, "w.N=7", "w.N", "7", own + ".N", env=senv, setup=sset)
        acc("%s volume a multi-volume" % cls, s + "mv=MultiVolume([u])\n", "w.volume=mv", "w.volume is mv", "True", own + ".volume", env=senv, setup=sset)
    for a in ("z1", "z2"):
        s = "w=SimpleGrainBoundary(o,0.0,z2=q)\n"
        for x in ("m4", "[1,1]", "M"):
            rej("grain boundary %s %s" % (a, x), s, "w.%s=%s" % (a, x), "w.%s" % a, "SimpleGrainBoundary." + a)
        acc("grain boundary %s" % a, s, "w.%s=[1,1,0]" % a, "w.%s" % a, "np.array([1,1,0])", "SimpleGrainBoundary." + a)
    for cls, extra in (("WulffSingle", ""), ("WulffDecahedron", ",twin_energy=0.5"), ("WulffIcosahedron", ",twin_energy=0.5")):
        s = "g=Generator(structure=S)\ne={(1,1,1):1.0,(1,0,0):1.25}\nw=%s(g,e,natoms=500%s)\n" % (cls, extra)
        for x in ("'many'", "None", "[1]", "{}"):
            rej("%s natoms %s" % (cls, x), s, "w.natoms=%s" % x, "w.natoms", "WulffBase.natoms", env=senv, setup=sset)
        for x, y in (("200", "200"), ("350.0", "350"), ("'12'", "12")):
            acc("%s natoms %s" % (cls, x), s, "w.natoms=%s" % x, "w.natoms", y, "WulffBase.natoms", env=senv, setup=sset)
        for x in ("3", "None", "NullGenerator()", "AmorphousGenerator()", "S"):
            rej("%s generator %s" % (cls, x), s, "w.generator=%s" % x, "w.generator is g", "WulffBase.generator", env=senv, setup=sset)
        for x in ("{'111':1.0}", "{(1,1,1):1}", "{(1,1,1):'low'}", "{(1,1,1):1.0,111:1.0}", "{(1,1,1):1.0,(1,0,0):None}", "{(1,0,0):2,(1,1,1):1.0}", "None", "[1.0]"):
            rej("%s surface energies %s" % (cls, x), s, "w.surface_energies=%s" % x, "len(w.surface_energies),w.surface_energies[(1,1,1)],w.surface_energies[(1,0,0)]",
                "WulffBase.surface_energies", env=senv, setup=sset)
        acc("%s surface energies" % cls, s, "w.surface_energies={(2,1,0):0.75}", "len(w.surface_energies),w.surface_energies[(2,1,0)]", "1,0.75", "WulffBase.surface_energies",
            env=senv, setup=sset) if False else None
        if extra:
            for x in ("1", "'low'", "None", "[0.5]"):
                rej("%s twin energy %s" % (cls, x), s, "w.twin_energy=%s" % x, "w.twin_energy", "WulffDecahedron.twin_energy", env=senv, setup=sset)
            acc("%s twin energy" % cls, s, "w.twin_energy=0.25", "w.twin_energy", "0.25", "WulffDecahedron.twin_energy", env=senv, setup=sset)

    # ---- molecules
    for x in ("sp[:4],ps", "sp,ps[:4]", "sp,ps[:,:2]", "[1,2],ps"):
        refused("Molecule of %s" % x, "Molecule(%s)" % x, "BaseMolecule.__init__ BaseMolecule.set_atoms")
    m = "w=Molecule(sp,ps,origin=o)\n"
    for x in ("1", "None", "'no'", "[True]"):
        rej("Molecule print_warnings %s" % x, m + "w.print_warnings=False\n", "w.print_warnings=%s" % x, "w.print_warnings", "BaseMolecule.print_warnings")
    for x in badrot[:10] + cancel + badrot[15:18] + ["q", "M[:2]"]:
        rej("Molecule orientation %s" % x, m, "w.orientation=%s" % x, "w.orientation", "BaseMolecule.orientation")
    acc("Molecule orientation any rotation", m + ROT, "w.orientation=R", "w.orientation", "R", "BaseMolecule.orientation")
    for nm, x in (("negated", "-R"), ("reflected", "R@np.diag([1.0,1.0,-1.0])")):
        rej("Molecule orientation any rotation %s" % nm, m + ROT, "w.orientation=%s" % x, "w.orientation", "BaseMolecule.orientation")
