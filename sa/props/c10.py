"""Alias (ownership) analysis over the value-flow graph: every array kept by an object gets a storage identity, views and
uncopied arrays keep the identity of what they were taken from, and the mutable storage reachable from a derived object is
intersected with what is reachable from the objects it was derived from. Effects are then followed symbolically: after
the derived object (or the original) is moved, edited or populated, the other's state is compared with its earlier state."""
from sa import alias
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed, arrty as A
from . import common as cm


def hooks(e):
    cm.hull_hooks(e)
    e.storage = True


def short(n):
    return str(n)[:80]


def disjoint(c, name, drv, rule, env, assume=None, setup=None, at=None, hk=hooks):
    """the driver returns objects that may not share storage: (first, second, ...)"""
    def fn():
        r = c.analyse(drv, env, assume, setup, hk, cm.GEO)
        w = analysed(r)
        f = c.failures(r)
        if f:
            return VIOLATION, "does not complete: " + f[0][1], [f[0][0]] + w
        v = r.val
        if v is None or v.op != "tup":
            return UNDECIDED, "no known pair of objects", w
        parts = [alias.reach(x, r.st.heap) for x in v.args]
        for i, p in enumerate(parts):
            for j in range(i):
                both = [n for n in p if n in parts[j]]
                if both:
                    n = both[0]
                    return VIOLATION, "object %d holds the storage of object %d: %s is %s (%s)" % (i + 1, j + 1, p[n], parts[j][n], short(n)), w
        opaque = [n for p in parts for n in p if n.op == "attr"]
        if any(x.op not in ("obj",) and not p for x, p in zip(v.args, parts)):
            return UNDECIDED, "an object is not followed", w
        if opaque and all(n.op == "attr" for p in parts for n in p):
            return UNDECIDED, "objects are not followed", w
        return HOLDS, "%s pieces of storage" % "+".join(str(len(p)) for p in parts), w
    c.run(name, fn, rule, at)


ENV = dict(P=A(5, 3), P2=A(5, 3), q=A(3), p=A(3), n=A(3), t=A(3), M=A(3, 3), H=A(3, 3), C=A(3, 3), Q=A(2, 3), C4=A(4, 3), r="float", L="float", k="float")
POS = {"r": "pos", "L": "pos", "n": "nonzero", "k": "pos"}
GENS = [("crystal", "G=Generator(structure=S,origin=q)\n"),
        ("strained crystal", "G=Generator(structure=S,origin=q,strain_field=HStrain(H))\n"),
        ("inhomogeneously strained crystal", "G=Generator(structure=S,origin=q,strain_field=IStrain(lambda x:x*2,origin=p))\n"),
        ("edited crystal", "G=Generator(structure=S,origin=q)\nG.post_transform=PostSequence([ChemicalSubstitution([6],[7],0.5)])\n"),
        ("amorphous", "G=AmorphousGenerator(origin=q)\n"),
        ("null", "G=NullGenerator()\n")]
SURF = [("sphere", "Sphere(r,p)"), ("plane", "Plane(n,p)"), ("cylinder", "Cylinder(n,p,r,L)")]
TRS = [("translated", "Translation(t)"), ("mapped", "MatrixTransform(M,origin=t)"), ("reflected", "Reflection(Plane(n,q))"), ("moved twice", "MultiTransform([Translation(t),Inversion(origin=t)])")]


def run(c):
    env, setup = cm.structure("S", 2)
    env.update(ENV)
    e2, setup2 = cm.structure("S2", 1)
    env.update(e2)

    def both(e, en):
        h = setup(e, en)
        h.update(setup2(e, en))
        return h

    def ob(name, drv, rule, at):
        disjoint(c, name, drv, rule, env, POS, both, at)
    VF = "czone/volume/volume.py "
    GF = "czone/generator/generator.py "
    R = "a derived object holds no mutable storage of its original"
    # generators
    for g, mk in GENS:
        ob("generator: copy of %s" % g, mk + "return G,G.from_generator()", R, GF + "from_generator")
        if g != "null":
            for tn, t in TRS:
                ob("generator: %s copy of %s" % (tn, g), mk + "return G,G.from_generator(transformation=[%s])" % t, R, GF + "from_generator")
        ob("generator: copy of a copy of %s" % g, mk + "H1=G.from_generator()\nreturn G,H1,H1.from_generator()", R, GF + "from_generator")
        ob("volume with %s" % g, mk + "v=Volume(alg_objects=[Sphere(r,p)],generator=G)\nreturn v,G", "a volume holds its own generator", VF + "Volume.add_generator")
        ob("volume given %s" % g, mk + "v=Volume(alg_objects=[Sphere(r,p)])\nv.add_generator(G)\nreturn v,G", "a volume holds its own generator", VF + "Volume.add_generator")
        ob("volume given %s with an origin" % g, mk + "v=Volume(alg_objects=[Sphere(r,p)])\nv.add_generator(G,origin=t)\nreturn v,G", "a volume holds its own generator", VF + "Volume.add_generator")
        ob("two volumes with one %s" % g, mk + "v=Volume(alg_objects=[Sphere(r,p)],generator=G)\nw=Volume(alg_objects=[Plane(n,p)],generator=G.from_generator())\nreturn v,w,G", "a volume holds its own generator", VF + "Volume.add_generator")
        ob("copy of a volume with %s" % g, mk + "v=Volume(points=P,alg_objects=[Sphere(r,p)],generator=G)\nreturn v,v.from_volume(),G", R, VF + "Volume.from_volume")
        ob("copy of a volume given %s" % g, mk + "v=Volume(points=P,alg_objects=[Sphere(r,p)])\nreturn v,v.from_volume(generator=G),G", R, VF + "Volume.from_volume")
    ob("origin given to an amorphous generator", "G=AmorphousGenerator(origin=q)\nreturn G,q", "a generator holds its own origin", GF + "AmorphousGenerator.origin")
    ob("origin assigned to an amorphous generator", "G=AmorphousGenerator()\nG.origin=q\nreturn G,q", "a generator holds its own origin", GF + "AmorphousGenerator.origin")
    ob("origin given to a generator", "G=Generator(structure=S,origin=q)\nreturn G,q", "a generator holds its own origin", GF + "Generator.origin")
    ob("origin assigned to a generator", "G=Generator(structure=S)\nG.origin=q\nreturn G,q", "a generator holds its own origin", GF + "Generator.origin")
    for m in ("crystal", "standard"):
        ob("origin given to a %s strain" % m, "f=HStrain(H,origin=q,mode=%r)\nreturn f,q" % m, "a strain field holds its own origin", "czone/transform/strain.py BaseStrain.origin")
        ob("origin given to a %s strain function" % m, "f=IStrain(lambda x,**kw: x*k,origin=q,mode=%r)\nreturn f,q" % m, "a strain field holds its own origin", "czone/transform/strain.py BaseStrain.origin")
    ob("origin assigned to a strain", "f=HStrain(H)\nf.origin=q\nreturn f,q", "a strain field holds its own origin", "czone/transform/strain.py BaseStrain.origin")
    ob("origin given to a transform", "f=MatrixTransform(M,origin=q)\nreturn f,q", "a transform holds its own origin", "czone/transform/transform.py MatrixTransform.origin")
    ob("shift given to a translation", "f=Translation(q)\nreturn f,q", "a transform holds its own shift", "czone/transform/transform.py Translation.shift")
    ob("bases given to a voxel", "V=Voxel(bases=M,origin=q)\nreturn V,M,q", "a voxel holds its own bases", "czone/volume/voxel.py Voxel.bases")
    # surfaces
    AF = "czone/volume/algebraic.py "
    for s, mk in SURF:
        ob("surface: copy of a %s" % s, "a=%s\nreturn a,a.from_alg_object()" % mk, R, AF + "from_alg_object")
        for tn, t in TRS:
            ob("surface: %s copy of a %s" % (tn, s), "a=%s\nreturn a,a.from_alg_object(transformation=[%s])" % (mk, t), R, AF + "from_alg_object")
        ob("volume bounded by a %s" % s, "a=%s\nv=Volume(alg_objects=[a])\nreturn v,a" % mk, "a volume holds its own surfaces", VF + "Volume.add_alg_object")
        ob("volume given a %s alone" % s, "a=%s\nv=Volume(alg_objects=a)\nreturn v,a" % mk, "a volume holds its own surfaces", VF + "Volume.add_alg_object")
        ob("volume given a %s" % s, "a=%s\nv=Volume(points=P)\nv.add_alg_object(a)\nreturn v,a" % mk, "a volume holds its own surfaces", VF + "Volume.add_alg_object")
        ob("two volumes bounded by one %s" % s, "a=%s\nv=Volume(alg_objects=[a])\nw=Volume(alg_objects=[a,a])\nreturn v,w,a" % mk, "a volume holds its own surfaces", VF + "Volume.add_alg_object")
        for tn, t in TRS:
            ob("volume bounded by a %s, %s" % (s, tn), "a=%s\nv=Volume(alg_objects=[a])\nv.transform(%s)\nreturn v,a" % (mk, t), "a volume holds its own surfaces", VF + "Volume.transform")
    ob("list of surfaces given to a volume", "a=[Sphere(r,p),Plane(n,p)]\nv=Volume(alg_objects=a)\nreturn v,a", "a volume holds its own surfaces", VF + "Volume.__init__")
    # volumes
    VOLS = [("points", "v=Volume(points=P)\n"), ("surfaces", "v=Volume(alg_objects=[Sphere(r,p),Cylinder(n,p,r,L)])\n"),
            ("points and surfaces", "v=Volume(points=P,alg_objects=[Plane(n,p)])\n"),
            ("points, surfaces and a crystal", "v=Volume(points=P,alg_objects=[Plane(n,p)],generator=Generator(structure=S,origin=q,strain_field=HStrain(H)))\n"),
            ("a moved volume", "v=Volume(points=P,alg_objects=[Plane(n,p)],generator=Generator(structure=S,origin=q))\nv.transform(Translation(t))\n"),
            ("priority and tolerance", "v=Volume(points=P,priority=3,tolerance=k)\n")]
    for vn, mk in VOLS:
        ob("volume: copy of %s" % vn, mk + "return v,v.from_volume()", R, VF + "Volume.from_volume")
        ob("volume: copy of a copy of %s" % vn, mk + "w=v.from_volume()\nreturn v,w,w.from_volume()", R, VF + "Volume.from_volume")
        for tn, t in TRS:
            ob("volume: %s copy of %s" % (tn, vn), mk + "return v,v.from_volume(transformation=[%s])" % t, R, VF + "Volume.from_volume")
        ob("volume: copy of %s with other points" % vn, mk + "return v,v.from_volume(points=P2)", R, VF + "Volume.from_volume")
        ob("volume: copy of %s with another surface" % vn, mk + "a=Sphere(r,q)\nreturn v,v.from_volume(alg_objects=[a]),a", R, VF + "Volume.from_volume")
        ob("multivolume: copy of %s" % vn, mk + "m=MultiVolume([v,Volume(alg_objects=[Sphere(k,q)],generator=NullGenerator())])\nreturn m,m.from_volume()", R, VF + "MultiVolume.from_volume")
        ob("multivolume: moved copy of %s" % vn, mk + "m=MultiVolume([v,Volume(alg_objects=[Sphere(k,q)])])\nreturn m,m.from_volume(transformation=[Translation(t)])", R, VF + "MultiVolume.from_volume")
        ob("multivolume: copy of %s with another generator" % vn, mk + "G=Generator(structure=S2)\nm=MultiVolume([v,Volume(alg_objects=[Sphere(k,q)])])\nw=m.from_volume(generator=G)\nreturn m,w,G", R, VF + "MultiVolume.from_volume")
    ob("points given to a volume", "v=Volume(points=P)\nreturn v,P", "a volume holds its own points", VF + "Volume.addPoints")
    ob("points added to a volume", "v=Volume(points=P)\nv.addPoints(P2)\nreturn v,P,P2", "a volume holds its own points", VF + "Volume.addPoints")
    ob("points assigned to a volume", "v=Volume(alg_objects=[Sphere(r,p)])\nv.points=P\nreturn v,P", "a volume holds its own points", VF + "Volume.points")
    ob("points of one volume given to another", "v=Volume(points=P)\nw=Volume(points=v.points)\nreturn v,w", "a volume holds its own points", VF + "Volume.addPoints")
    # molecules
    MF = "czone/molecule/molecule.py "
    MOLS = [("a molecule", "m=Molecule([6,8,1,1],C4)\n"), ("a molecule with an origin", "m=Molecule([6,8,1,1],C4,origin=q)\n"), ("a molecule tracking an atom", "m=Molecule([6,8,1,1],C4,origin=1)\n"),
            ("a moved molecule", "m=Molecule([6,8,1,1],C4)\nm.transform(Translation(t))\n"), ("a reduced molecule", "m=Molecule([6,8,1,1],C4)\nm.remove_atoms([1])\n")]
    for mn, mk in MOLS:
        ob("molecule: copy of %s" % mn, mk + "return m,m.from_molecule()", R, MF + "from_molecule")
        for tn, t in TRS:
            ob("molecule: %s copy of %s" % (tn, mn), mk + "return m,m.from_molecule(transformation=[%s])" % t, R, MF + "from_molecule")
        ob("molecule: made from the arrays of %s" % mn, mk + "w=Molecule(m.species,m.atoms,origin=m.origin)\nreturn m,w", "a molecule holds its own atoms", MF + "set_atoms")
        ob("molecule: atoms of %s set on another" % mn, mk + "w=Molecule([1],q)\nw.set_atoms(m.species,m.atoms)\nreturn m,w", "a molecule holds its own atoms", MF + "set_atoms")
        ob("molecule: origin of %s set on another" % mn, mk + "w=Molecule([1],q)\nw.set_origin(point=m.origin)\nreturn m,w", "a molecule holds its own atoms", MF + "set_origin")
    ob("molecule: arrays given", "m=Molecule(np.array([6,8,1,1]),C4,origin=q)\nreturn m,C4,q", "a molecule holds its own atoms", MF + "set_atoms")
    ob("molecule: positions updated", "m=Molecule([6,8],Q)\nm.update_positions(P[:2])\nreturn m,P", "a molecule holds its own atoms", MF + "update_positions")
    # objects made apart
    R = "objects made separately share no state through defaults or class attributes"
    for nm, mk in [("generators", "Generator()"), ("generators with structures", "Generator(structure=S)"), ("amorphous generators", "AmorphousGenerator()"), ("volumes", "Volume()"),
                   ("volumes with points", "Volume(points=P)"), ("multivolumes", "MultiVolume()"), ("voxels", "Voxel()"), ("molecules", "Molecule([6,8,1,1],C4)"), ("strain fields", "HStrain()"),
                   ("inhomogeneous strain fields", "IStrain()"), ("scenes", "Scene()"), ("rotations", "Rotation()"), ("transforms", "MultiTransform()"), ("translations", "Translation()"),
                   ("edit sequences", "PostSequence([])"), ("spheres", "Sphere(r,p)"), ("planes", "Plane(n,p)"), ("cylinders", "Cylinder(n,p,r,L)")]:
        pre = "from czone.volume.voxel import Voxel\n" if nm == "voxels" else ""
        ob("separate " + nm, pre + "x=%s\ny=%s\nreturn x,y" % (mk, mk.replace("p)", "q)").replace("p,", "q,").replace("n,", "t,").replace("structure=S)", "structure=S2)").replace("=P)", "=P2)").replace("C4", "C4+q")), R, "constructors")
    ob("defaults filled in place: volumes", "a=Volume()\na.add_alg_object(Sphere(r,p))\na.addPoints(P)\nb=Volume()\nreturn a,b", R, "constructors")
    ob("defaults filled in place: multivolumes", "a=MultiVolume()\na.add_volume(Volume(points=P))\nb=MultiVolume()\nreturn a,b", R, "constructors")
    ob("defaults filled in place: scenes", "a=Scene()\na.add_object(Volume(points=P))\nb=Scene()\nreturn a,b", R, "constructors")
    ob("defaults filled in place: transforms", "a=MultiTransform()\na.add_transform(Translation(t))\nb=MultiTransform()\nreturn a,b", R, "constructors")
    ob("defaults filled in place: edits", "a=PostSequence([])\na.add_transform(ChemicalSubstitution([6],[7],0.5))\nb=PostSequence([])\nreturn a,b", R, "constructors")
    effects(c, env, both)


# what is done to one object, and what is looked at on the other
OBS_V = "[v.points,v.priority,v.tolerance]+[(a.point,a.normal) if isinstance(a,Plane) else (a.center,a.radius) for a in v.alg_objects]"
OBS_G = "[g.origin,g.voxel.bases,g.voxel.sbases,g.coords,g.species,g.strain_field is None,g.post_transform is None]"


def effects(c, env, setup):
    R = "changing one object leaves the other as it was"

    def eff(name, mk, change, obs, at):
        c.eq(name, mk + change + "return " + obs, mk + "return " + obs, env, POS, setup=setup, hooks=cm.hull_hooks, models=cm.GEO, at=at, rule=R)
    VV = "v=Volume(points=P,alg_objects=[Plane(n,p),Sphere(r,q)],generator=Generator(structure=S,origin=q))\n"
    VCH = [("translated", "%s.transform(Translation(t))\n"), ("mapped", "%s.transform(MatrixTransform(M))\n"), ("given points", "%s.addPoints(P2)\n"), ("given other points", "%s.points=P2\n"),
           ("given a surface", "%s.add_alg_object(Sphere(r,t))\n"), ("surface edited", "%s.alg_objects[0].point=t\n%s.alg_objects[1].radius=k\n"), ("surface dropped", "%s.alg_objects.pop()\n"),
           ("generator moved", "%s.generator.transform(Translation(t))\n"), ("generator replaced", "%s.add_generator(Generator(structure=S2))\n"),
           ("generator strained", "%s.generator.strain_field=HStrain(H)\n"), ("generator re-placed", "%s.generator.origin=t\n"), ("priority changed", "%s.priority=7\n"), ("tolerance changed", "%s.tolerance=k\n"),
           ("moved in sequence", "%s.transform(MultiTransform([Translation(t),Inversion(origin=q)]))\n")]
    for nm, ch in VCH:
        for dn, d in [("copy", "w=v.from_volume()\n"), ("translated copy", "w=v.from_volume(transformation=[Translation(t)])\n"), ("copy with a generator", "w=v.from_volume(generator=v.generator)\n")]:
            obs = "(%s,%s)" % (OBS_V, OBS_G)

            c.eq("volume after its %s is %s" % (dn, nm), VV + d + ch.replace("%s", "w") + "g=v.generator\nreturn " + obs, VV + "g=v.generator\nreturn " + obs, env, POS, setup=setup, hooks=cm.hull_hooks,
                 models=cm.GEO, at="czone/volume/volume.py Volume.from_volume", rule=R)
            c.eq("%s of a volume after the volume is %s" % (dn, nm), VV + d + ch.replace("%s", "v") + "v=w\ng=v.generator\nreturn " + obs, VV + d + "v=w\ng=v.generator\nreturn " + obs, env, POS, setup=setup,
                 hooks=cm.hull_hooks, models=cm.GEO, at="czone/volume/volume.py Volume.from_volume", rule=R)
    MM = VV + "m=MultiVolume([v,Volume(alg_objects=[Sphere(k,p)])])\nx=m.from_volume()\n"
    for nm, ch in VCH[:8]:
        obs = "(%s,%s)" % (OBS_V, OBS_G)
        c.eq("volume of a multivolume after the copy's is %s" % nm, MM + ch.replace("%s", "x.volumes[0]") + "g=v.generator\nreturn " + obs, VV + "g=v.generator\nreturn " + obs, env, POS, setup=setup,
             hooks=cm.hull_hooks, models=cm.GEO, at="czone/volume/volume.py MultiVolume.from_volume", rule=R)
    GG = "g=Generator(structure=S,origin=q)\n"
    GCH = [("translated", "h.transform(Translation(t))\n"), ("mapped", "h.transform(MatrixTransform(M))\n"), ("re-placed", "h.origin=t\n"), ("strained", "h.strain_field=HStrain(H)\n"),
           ("edited", "h.post_transform=ChemicalSubstitution([6],[7],0.5)\n"), ("given a structure", "h.structure=S2\n"), ("scaled", "h.voxel.scale=np.array([k])\n"), ("supplying atoms", "h.supply_atoms(np.array([[0.25,0.25,0.25],[0.75,0.75,0.5]])@S_m+q)\n")]
    for nm, ch in GCH:
        c.eq("generator after its copy is %s" % nm, GG + "h=g.from_generator()\n" + ch + "return " + OBS_G, GG + "return " + OBS_G, env, POS, setup=setup, at="czone/generator/generator.py from_generator", rule=R)
        c.eq("copy after its generator is %s" % nm, GG + "f=g.from_generator()\nh=g\n" + ch + "g=f\nreturn " + OBS_G, GG + "return " + OBS_G, env, POS, setup=setup, at="czone/generator/generator.py from_generator", rule=R)
        c.eq("generator after its volume's is %s" % nm, GG + "v=Volume(points=P,generator=g)\nh=v.generator\n" + ch + "return " + OBS_G, GG + "return " + OBS_G, env, POS, setup=setup, models=cm.GEO, hooks=cm.hull_hooks,
             at="czone/volume/volume.py Volume.add_generator", rule=R)
        c.eq("volume's generator after the given one is %s" % nm, GG + "v=Volume(points=P,generator=g)\nh=g\n" + ch + "g=v.generator\nreturn " + OBS_G, GG + "return " + OBS_G, env, POS, setup=setup, models=cm.GEO,
             hooks=cm.hull_hooks, at="czone/volume/volume.py Volume.add_generator", rule=R)
    S1 = "f=HStrain(H,origin=p,mode='standard')\ng=Generator(structure=S,origin=q,strain_field=f)\n"
    for nm, ch in [("matrix changed", "h.strain_field.matrix=M\n"), ("origin changed", "h.strain_field.origin=t\n")]:
        c.eq("strain of a generator after its copy's has its " + nm, S1 + "h=g.from_generator()\n" + ch + "return g.strain_field.matrix,g.strain_field.origin", S1 + "return g.strain_field.matrix,g.strain_field.origin",
             env, POS, setup=setup, at="czone/generator/generator.py from_generator", rule=R)
    ML = "m=Molecule([6,8,1,1],C4,origin=q)\n"
    OM = "(m.atoms,m.species,m.origin,m.orientation,m.priority)"
    for nm, ch in [("translated", "%s.transform(Translation(t))\n"), ("turned", "%s.transform(MatrixTransform(M,origin=t))\n"), ("reduced", "%s.remove_atoms([0])\n"), ("placed", "%s.set_origin(point=t)\n"),
                   ("tracking", "%s.set_origin(idx=2)\n"), ("given atoms", "%s.set_atoms([1,1,1,1],C4+q)\n"), ("given positions", "%s.update_positions(C4+q)\n"), ("given species", "%s.update_species([1,1,1,1])\n"),
                   ("given a priority", "%s.priority=4\n")]:
        c.eq("molecule after its copy is " + nm, ML + "w=m.from_molecule()\n" + ch % "w" + "return " + OM, ML + "return " + OM, env, POS, at="czone/molecule/molecule.py from_molecule", rule=R)
        c.eq("copy after its molecule is " + nm, ML + "w=m.from_molecule()\n" + ch % "m" + "m=w\nreturn " + OM, ML + "return " + OM, env, POS, at="czone/molecule/molecule.py from_molecule", rule=R)
    for s, mk in SURF:
        o = {"sphere": "(a.center,a.radius,a.tol)", "plane": "(a.normal,a.point,a.tol)", "cylinder": "(a.axis,a.point,a.radius,a.length,a.tol)"}[s]
        for tn, t in TRS:
            c.eq("%s after its copy is %s" % (s, tn), "a=%s\nb=a.from_alg_object(transformation=[%s])\nreturn %s" % (mk, t, o), "a=%s\nreturn %s" % (mk, o), env, POS, at="czone/volume/algebraic.py from_alg_object", rule=R)
            c.eq("%s after its volume is %s" % (s, tn), "a=%s\nv=Volume(alg_objects=[a])\nv.transform(%s)\nreturn %s" % (mk, t, o), "a=%s\nreturn %s" % (mk, o), env, POS, at="czone/volume/volume.py add_alg_object", rule=R)
