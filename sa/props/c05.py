"""Abstract interpretation of population and of every atom view: entry k of each
species array handed out is guarded by the same condition as, and originates
from the same atom as, row k of the positions; volumes keep exactly the
generated atoms inside them; ASE views receive these arrays and the scene's cell."""
from sa import compare, dom
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed
from sa.check import arrty as A
from sa.vfg import K, SYM, N
from . import common as cm
from . import prio


def supply(counts=3):
    """an opaque generator supplies opaque positions and species for a bounding region"""
    def m(e, b, pos, kw, st, ex):
        while b.op in ("copy", "shallow"):
            b = b.args[0]
        if b.op != "sym":
            return NotImplemented
        bb = pos[0] if pos else dict(kw).get("bbox")
        st.heap[(b, "#bbox")] = bb
        return N("tup", SYM("gat" + b.args[0], A(counts, 3)), SYM("gsp" + b.args[0], A(counts)))
    return m


def atoms_model(name="ase.Atoms"):
    def f(ev, a, k):
        names = ["symbols", "positions", "numbers", "tags", "momenta", "masses", "magmoms", "charges",
                 "scaled_positions", "cell", "pbc"]
        d = {}
        for n, x in zip(names, a):
            d[n] = x
        d.update(k)
        if "numbers" in d and "symbols" not in d:
            d["symbols"] = d.pop("numbers")
        d = {n: x for n, x in d.items() if x is not None}
        return dom.Seq("dict", [(n, d[n]) for n in sorted(d)])
    return f


MODELS = {"methods": cm.GEO["methods"], "attrs": cm.GEO["attrs"],
          "functions": dict(cm.GEO["functions"], **{"ase.Atoms": atoms_model(), "ase.atoms.Atoms": atoms_model()})}


def run(c):
    prio.sweep(c, "scene", "species", ["Scene.all_species", "Scene.all_atoms"], "atoms and species of scenes correspond")
    prio.sweep(c, "multi", "species", ["MultiVolume.populate_atoms"], "atoms and species of multi-volumes correspond")
    B, V, GEN = c.p.cls("BaseAlgebraic"), c.p.cls("BaseVolume"), c.p.cls("BaseGenerator")

    def hooks(e):
        cm.hull_hooks(e)
        e.mhooks["supply_atoms"] = supply(3 if not c.thorough else 5)
    n = 3 if not c.thorough else 5

    def kept(names, hull=None):
        def spec(run):
            at = run.ev.ev(SYM("gatg", A(n, 3)))
            sp = run.ev.ev(SYM("gspg", A(n)))
            g = []
            for i in range(n):
                r = dom.row(at, i)
                v = True
                if hull is not None:
                    v = dom.band(v, cm.inhull(run.ev.ev(hull), r, run.ev.ev(SYM("tol", "float"))))
                for a in names:
                    v = dom.band(v, cm.in_var(run.ev.ev(SYM(a, ("opq", B))), r))
                g.append(v)
            return dom.Seq("tuple", [dom.G(tuple(g), at), dom.G(tuple(g), sp)])
        return spec
    X = SYM("X", A(5, 3))
    env = dict(A=("opq", B), B=("opq", B), C=("opq", B), g=("opq", GEN), X=A(5, 3), tol="float", bd=A(2, 3))

    def vol(name, drv, spec, at="Volume.populate_atoms", rule="a volume keeps exactly the generated atoms inside it"):
        c.eq(name, drv, spec, env, {"tol": "pos"}, at=at, rule=rule, hooks=hooks, models=MODELS)
    R = "v.populate_atoms()\nreturn v.atoms, v.species"
    for k, ns in enumerate(("A", "AB", "ABC")):
        lst = ",".join(ns)
        vol("populated hull volume with %d surfaces" % (k + 1),
            "v=Volume(points=X,alg_objects=[%s],generator=g,tolerance=tol)\n" % lst + R, kept(ns, X))
    vol("populated hull volume", "v=Volume(points=X,generator=g,tolerance=tol)\n" + R, kept("", X))
    vol("repopulated after a surface is added",
        "v=Volume(points=X,alg_objects=[A],generator=g,tolerance=tol)\nv.populate_atoms()\nv.add_alg_object(B)\n" + R,
        kept("AB", X))
    vol("populated volume after its generator is added", "v=Volume(points=X,alg_objects=[A],tolerance=tol)\n"
        "v.add_generator(g)\n" + R, kept("A", X))

    # ASE views
    def ase(names, cell=None, hull=X):
        def spec(run):
            t = kept(names, hull)(run)
            d = [("positions", t.items[0]), ("symbols", t.items[1])]
            if cell:
                d.append(("cell", cell(run)))
            return dom.Seq("dict", sorted(d, key=lambda q: q[0]))
        return spec

    def cell(run):
        b = run.ev.ev(SYM("bd", A(2, 3)))
        return dom.ew(dom.ssub, dom.row(b, 1), dom.row(b, 0))
    vol("ASE view of a volume", "v=Volume(points=X,alg_objects=[A],generator=g,tolerance=tol)\nv.populate_atoms()\n"
        "return v.ase_atoms", ase("A"), "BaseVolume.ase_atoms", "ASE views carry the atoms")
    vol("ASE view of a multi-volume", "v=MultiVolume([Volume(points=X,alg_objects=[A],generator=g,tolerance=tol)])\n"
        "v.populate_atoms()\nreturn v.ase_atoms", ase("A"), "BaseVolume.ase_atoms", "ASE views carry the atoms")
    vol("ASE view of a scene", "v=Volume(points=X,alg_objects=[A],generator=g,tolerance=tol)\ns=Scene(bounds=bd,objects=[v])\n"
        "s.populate()\nreturn s.ase_atoms", ase("A", cell), "Scene.ase_atoms", "ASE views carry the atoms and cell")
    vol("ASE view of a scene after new bounds", "v=Volume(points=X,alg_objects=[A],generator=g,tolerance=tol)\n"
        "s=Scene(objects=[v])\ns.populate()\ns.ase_atoms\ns.bounds=bd\nreturn s.ase_atoms", ase("A", cell), "Scene.ase_atoms",
        "ASE views carry the atoms and cell")

    # atoms contributed by one object of a scene
    def contrib(run):
        at = run.ev.ev(SYM("gatg", A(n, 3)))
        g = []
        for i in range(n):
            r = dom.row(at, i)
            v = dom.band(cm.inhull(run.ev.ev(X), r, run.ev.ev(SYM("tol", "float"))),
                         cm.in_var(run.ev.ev(SYM("A", ("opq", B))), r))
            g.append(v)
        return dom.G(tuple(g), at)
    vol("positions contributed by one object", "v=Volume(points=X,alg_objects=[A],generator=g,tolerance=tol)\n"
        "s=Scene(bounds=bd,objects=[v])\ns.populate()\nreturn s.species_from_object(0)", contrib, "Scene.species_from_object")
    # molecules
    m = "m=Molecule(sp,ps)\n"
    env2 = dict(sp=A(4), ps=A(4, 3))

    def mol(name, drv, spec):
        c.eq(name, drv, spec, env2, assume={"sp": "int"}, at="BaseMolecule.ase_atoms", rule="ASE views carry the atoms", models=MODELS)
    mol("ASE view of a molecule", m + "return m.ase_atoms", lambda r: dom.Seq("dict", [
        ("positions", r.ev.ev(SYM("ps", A(4, 3)))), ("symbols", r.ev.ev(SYM("sp", A(4))))]))
    mol("atoms and species of a molecule", m + "return m.atoms, m.species", lambda r: dom.Seq("tuple", [
        r.ev.ev(SYM("ps", A(4, 3))), r.ev.ev(SYM("sp", A(4)))]))
    # amorphous blocks
    def blocks(e):
        k = [0]

        def f(en, pos, kw, st, ex):
            k[0] += 1
            return SYM("C%d" % k[0], A(4 if k[0] == 1 else 3, 3))
        e.ihooks["gen_p_substrate"] = f
    env3 = dict(z="int", bb=A(2, 3), bb2=A(5, 3), go=A(3), C1=A(4, 3), C2=A(3, 3), X=A(5, 3), r="float", q=A(3), M=A(3, 3))
    mk = "g=AmorphousGenerator(origin=go,species=z)\n"
    RB = "one species per atom of the block, placed at the region"

    def am(name, drv, spec, **kw):
        c.eq(name, mk + drv, spec, env3, {"z": "pos", "r": "pos"}, at=["AmorphousGenerator.supply_atoms"], rule=RB, hooks=blocks, **kw)
    am("amorphous block", "return g.supply_atoms(bb)", "return C1+np.min(bb,axis=0),z*np.ones(4)")
    am("amorphous block for many corners", "return g.supply_atoms(bb2)", "return C1+np.min(bb2,axis=0),z*np.ones(4)")
    am("second amorphous block", "g.supply_atoms(bb)\nreturn g.supply_atoms(bb2)", "return C2+np.min(bb2,axis=0),z*np.ones(3)")
    am("reused amorphous block", "g.use_old_result=True\ng.supply_atoms(bb)\nreturn g.supply_atoms(bb2)", "return C1+np.min(bb,axis=0),z*np.ones(4)")
    am("amorphous block after use", "g.use_old_result=True\ng.supply_atoms(bb)\ng.use_old_result=False\nreturn g.supply_atoms(bb2)", "return C2+np.min(bb2,axis=0),z*np.ones(3)")
    am("amorphous block of another species", "g.supply_atoms(bb)\ng.species=z+1\nreturn g.supply_atoms(bb2)", "return C2+np.min(bb2,axis=0),(z+1)*np.ones(3)")
