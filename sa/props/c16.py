"""Well-formedness of every use of a name, attribute or call. Each function of the package is linted
(names, reaching assignments, attributes of known receivers, signatures); each public member of each class
is then analysed from constructed objects, where the abstract interpreter reports attributes that no
constructor set, members of None, unbound locals and calls that do not fit the reached definition."""
import ast

from sa.check import ERRORS, HOLDS, UNDECIDED, VIOLATION, analysed
from sa.check import arrty as A
from sa.lint import Lint
from sa.program import FuncInfo, PropInfo
from . import common as cm

ENV = dict(P2=A(2, 3), P4=A(4, 3), P8=A(8, 3), p=A(3), q=A(3), n=A(3), t=A(3), B=A(3, 3), M=A(3, 3), sp2=A(2), sp4=A(4), r="float", l="float", fx="float",
           k="int", P6=A(6, 3), bb=A(2, 3))
ASSUME = {"r": "pos", "l": "pos", "fx": "pos", "sp2": "int", "sp4": "int"}
GEN = "Generator(structure=S)"
VOLS = ["Volume(points=P4)", "Volume(alg_objects=[Sphere(r,p)])", "Volume(alg_objects=[Plane(n,q)],points=P4)", "Volume(points=P4,generator=%s)" % GEN,
        "Volume(alg_objects=[Sphere(r,p)],generator=AmorphousGenerator())", "Volume(alg_objects=[Cylinder(t,p,r,l)])", "Volume()"]
V = VOLS[3]
PG = {"generator": GEN, "volume": V}
WULFF = "surface_energies={(1,0,0):r,(1,1,1):l}"
RECIPES = {
    "Generator": [GEN, "Generator(origin=p,structure=S,strain_field=HStrain(matrix=M))", "Generator(structure=S,strain_field=IStrain(fun=lambda x,**kw:x))", "Generator()"],
    "AmorphousGenerator": ["AmorphousGenerator()", "AmorphousGenerator(origin=p)"],
    "NullGenerator": ["NullGenerator()"],
    "Molecule": ["Molecule(sp4,P4)", "Molecule(sp4,P4,origin=p)", "Molecule(sp4,P4,origin=1)"],
    "fccMixedTwinSF": ["fccMixedTwinSF()", "fccMixedTwinSF(generator=%(generator)s,volume=%(volume)s)" % PG],
    "fccStackingFault": ["fccStackingFault()", "fccStackingFault(generator=%(generator)s,volume=%(volume)s)" % PG],
    "fccTwin": ["fccTwin()", "fccTwin(generator=%(generator)s,volume=%(volume)s)" % PG],
    "wurtziteStackingFault": ["wurtziteStackingFault()", "wurtziteStackingFault(generator=%(generator)s,volume=%(volume)s)" % PG],
    "SimpleGrainBoundary": ["SimpleGrainBoundary(z1=(1,0,0),r1=(0,0,1),z2=(0,1,0),volume=%(volume)s,generator=%(generator)s)" % PG],
    "WulffSingle": ["WulffSingle(generator=%s,%s)" % (GEN, WULFF)],
    "WulffDecahedron": ["WulffDecahedron(generator=%s,%s,twin_energy=fx)" % (GEN, WULFF)],
    "WulffIcosahedron": ["WulffIcosahedron(generator=%s,%s,twin_energy=fx)" % (GEN, WULFF)],
    "Scene": ["Scene()", "Scene(bounds=bb,objects=[%s])" % V, "Scene(bounds=bb,objects=[Molecule(sp4,P4),MultiVolume(volumes=[%s])])" % V],
    "ChemicalSubstitution": ["ChemicalSubstitution([1],[2],[0.5])"],
    "ArbitraryPostTransform": ["ArbitraryPostTransform(lambda x,y:(x,y))"],
    "PostSequence": ["PostSequence([ChemicalSubstitution([1],[2],[0.5]),ArbitraryPostTransform(lambda x,y:(x,y))])"],
    "HStrain": ["HStrain(matrix=M) || o.scrape_params(Generator(structure=S))", "HStrain(matrix=[r,r,r,l,l,l],mode='standard')", "HStrain(matrix=t,origin='generator') || o.scrape_params(Generator(structure=S))", "HStrain(matrix=t,origin=p) || o.scrape_params(Generator(structure=S))", "HStrain()"],
    "IStrain": ["IStrain(fun=lambda x,**kw:x) || o.scrape_params(Generator(structure=S))", "IStrain(fun=lambda x,**kw:x,mode='standard',origin=p,a=1)", "IStrain()"],
    "Translation": ["Translation(t)", "Translation()"],
    "MatrixTransform": ["MatrixTransform(M)", "MatrixTransform(M,origin=p)", "MatrixTransform()"],
    "Inversion": ["Inversion(origin=p)", "Inversion()"],
    "Rotation": ["Rotation(np.array([[0.0,-1.0,0.0],[1.0,0.0,0.0],[0.0,0.0,1.0]]))", "Rotation(np.array([[0.0,-1.0,0.0],[1.0,0.0,0.0],[0.0,0.0,1.0]]),origin=p)", "Rotation()"],
    "Reflection": ["Reflection(Plane(n,p))", "Reflection()"],
    "MultiTransform": ["MultiTransform([Translation(t),MatrixTransform(M)])", "MultiTransform()"],
    "Sphere": ["Sphere(r,p)", "Sphere(r,p,tol=1e-3)", "Sphere()"],
    "Plane": ["Plane(n,p)", "Plane()"],
    "Cylinder": ["Cylinder(t,p,r,l)", "Cylinder()"],
    "Volume": VOLS,
    "MultiVolume": ["MultiVolume(volumes=[%s,%s])" % (VOLS[1], VOLS[3]), "MultiVolume(volumes=[MultiVolume(volumes=[%s])])" % VOLS[0], "MultiVolume()"],
    "Voxel": ["Voxel()", "Voxel(bases=np.diag([r,r,l]),scale=2.0,origin=p)"],
}
TR = ["Translation(t)", "Inversion(origin=p)", "MatrixTransform(M,origin=p)", "MatrixTransform(M)", "Rotation(np.array([[0.0,-1.0,0.0],[1.0,0.0,0.0],[0.0,0.0,1.0]]),origin=p)",
      "Reflection(Plane(n,p))", "MultiTransform([Translation(t),MatrixTransform(M)])"]
SURF = ["Sphere(r,p)", "Plane(n,p)", "Cylinder(t,p,r,l)"]
# values by parameter (or "Class.member parameter"); several: one analysis each
ARG = {
    "points": ["P2"], "testPoints": ["P2"], "positions": ["P4"], "coords": ["P4"], "new_positions": ["P4"], "species": ["sp4"], "transformation": TR, "transform": ["Translation(t)"],
    "transforms": ["[Translation(t)]"], "alg_object": SURF, "volume": [V], "generator": [GEN], "origin": ["p"], "point": ["p"], "normal": ["n"], "matrix": ["M"], "mat": ["M"],
    "bbox": ["P8"], "box": ["P8"], "radius": ["r"], "center": ["p"], "tol": ["1e-3"], "seed": ["3"], "rng": ["np.random.default_rng(3)"], "plane": ["Plane(n,p)"],
    "fname": ["'out.xyz'", "'out.cif'"], "shift": ["t"], "v": ["t"], "idx": ["1"], "indices": ["[0,1]"], "structure": ["S"], "voxel": ["Voxel(np.eye(3))"], "field": ["HStrain(matrix=M)"],
    "strain_field": ["HStrain(matrix=M)", "IStrain(fun=lambda x,**kw:x)"], "obj": [GEN], "ob": [V, "Molecule(sp4,P4)"], "mol": ["Molecule(sp4,P4)"], "basis": ["B"],
    "bases": ["B"], "fun": ["lambda x,**kw:x"], "new_coord": ["p"], "compare_coords": ["P4"], "cutoff": ["r"], "axis": ["t"], "length": ["l"], "dims": ["np.array([10.0,10.0,10.0])"],
    "natoms": ["100"], "interface": ["(1,0,0)"], "interface_energy": ["fx"], "vec1": ["p"], "vec2": ["q"], "v1": ["p"], "v2": ["q"], "vt": ["q"], "alpha": ["r"], "beta": ["r"], "gamma": ["r"],
    "theta": ["r"], "convention": ["'ZYZ'"], "x": ["r"], "n": ["2"], "m": ["2"], "l": ["12"], "a": ["r"], "b": ["r"], "c": ["r"], "planes": ["[Plane(n,p),Plane(t,q)]"],
    "M_plane": ["Plane(n,p)"], "T_plane": ["Plane(t,q)"], "M_point": ["p"], "T_point": ["q"], "dim": ["2"], "probe_radius": ["r"], "min_dist": ["2.0"], "density": ["0.1"],
    "miller_indices": ["(1,1,1)"], "Z": ["[6,6]"], "cellDims": ["np.array([r,r,l])"], "cellAngs": ["np.array([90.0,90.0,90.0])"], "target_idx": ["1"], "adsorbate_idx": ["1"],
    "bond_length": ["r"], "px": ["r"], "py": ["r"], "pz": ["r"], "tx": ["r"], "ty": ["r"], "tz": ["r"], "new_coords": ["P2"], "kwargs_dict": ["{'a':1}"], "data": ["P4"], "arr": ["P4"],
    "volumes": ["[%s]" % V], "scene": ["Scene(bounds=bb,objects=[%s])" % V], "vals": ["p"], "simplices": ["np.zeros((4,4),dtype=int)"], "min_dist_2": ["r"], "voxel_scale": ["r"],
    "objects": ["[%s]" % V], "bounds": ["bb"], "cuttoff": ["r"], "alg_objects": ["[Sphere(r,p)]"], "atoms": ["P4"], "priority": ["1"], "wulff": None, "wulff_form": None,
    "new_origin_idx": ["1"], "surface_energies": ["{(1,0,0):r,(1,1,1):l}"],
}
VALUE = {
    "origin": ["p"], "structure": ["S"], "voxel": ["Voxel(np.eye(3))"], "strain_field": ["HStrain(matrix=M)"], "post_transform": ["ChemicalSubstitution([1],[2],[0.5])"], "priority": ["2"],
    "N": ["2"], "min_sep": ["3"], "plane": ["Plane(n,p)"], "ratio": ["0.5"], "generator": [GEN], "volume": [V], "natoms": ["100"], "surface_energies": ["{(1,0,0):r}"], "bounds": ["bb"],
    "mode": ["'standard'", "'crystal'"], "bases": ["np.eye(3)"], "matrix": ["np.eye(3)"], "fun_kwargs": ["{'a':1}"], "strain_fun": ["lambda x,**kw:x"], "locked": ["False"], "basis_only": ["True"],
    "shift": ["t"], "tol": ["1e-3"], "radius": ["r"], "center": ["q"], "point": ["q"], "normal": ["n"], "axis": ["t"], "length": ["l"], "points": ["P4"], "tolerance": ["1e-3"], "scale": ["2.0"],
    "species": ["[6]"], "density": ["0.1"], "min_dist": ["2.0"], "print_warnings": ["False"], "twin_energy": ["fx"], "orientation": ["np.eye(3)"], "old_result": ["(P2,sp2)"],
}
SPECIAL = {"add_adsorbate volume": ["W"], "fccMixedTwinSF.plane": ["(1,1,1)"], "fccStackingFault.plane": ["(1,1,1)"], "fccTwin.plane": ["(1,1,1)"], "Generator.species": None, "Molecule.species": None}
# analysed by the per-function rules only: the loops of these bodies are not followed in reasonable time
LINTED = {"AmorphousGenerator.supply_atoms", "fccMixedTwinSF.build_object", "fccStackingFault.build_object", "fccTwin.build_object", "calc_rdf"}
# operations that need what the object was not given: they fail because of the caller
NEEDS = {"populate_atoms": "generator=", "createHull": "points=", "populate": "objects="}


def run(c):
    env0, set0 = cm.structure("S", 1)
    env0.update(ENV)
    prog = c.ctx.p
    lint = Lint(prog)
    skipped = []

    # ---- every function -----------------------------------------------------
    count, linted = {}, set()
    for f in prog.functions():
        rule = "every name is defined and assigned, every attribute exists, every call fits"
        bad, n = lint.function(f)
        if not bad:
            c.run("function " + f.qual, lambda n=n, f=f: (HOLDS, "%d uses of known receivers and callees" % n, ["%s %s" % (f.module.path, f.qual)]), at=[f.qual], rule=rule)
        for b in bad:
            # what is wrong, where the module is; the place inside the module may move
            k = "%s %s" % (f.module.path, b[2])
            count[k] = count.get(k, 0) + 1
            linted.add("%s:%d" % (f.module.path, b[1]))
            k += " #%d" % count[k] if count[k] > 1 else ""
            c.run("function %s: %s" % (f.qual, b[2]), lambda b=b, f=f: (VIOLATION, "%s (line %d)" % (b[2], b[1]), ["%s:%d %s" % (f.module.path, b[1], f.qual)]), at=[f.qual],
                  rule=rule, key=k)
    for m in prog.modules.values():
        def gom(m=m):
            bad = lint.module(m)
            if bad:
                return VIOLATION, "; ".join(x[2] for x in bad), ["%s:%d" % (m.path, bad[0][1])]
            return HOLDS, "imports resolve", [m.path]
        c.run("module " + m.name, gom, at=[], rule="every imported name of the package exists", key="module " + m.name)

    # ---- every public member, from constructed objects ------------------------
    def use(name, src, where, bare=False, key=None):
        def go():
            r = c.analyse(src, env0, ASSUME, set0, hooks=cm.hull_hooks, models=cm.GEO)
            bad, unsure, keys = [], [], []
            for x in r.e.events:
                if x.kind not in ERRORS or x.caught or (x.loc or "").split(" ")[0] in linted:
                    continue
                if bare and x.kind in ("none_attr", "call_noncallable", "bad_unpack"):
                    continue
                if x.kind in ("none_attr",) and x.ctx:
                    continue
                s = c.satisfiable(r, x.path)
                if s is None and x.ctx and x.kind in ("bad_call", "undefined", "unbound", "missing_attr") and not x.path:
                    s = True
                d = x.data if not isinstance(x.data, tuple) else x.data
                (bad if s else unsure).append("%s %s at %s" % (x.kind, d, x.loc))
                if s:
                    keys.append("%s %s in %s" % (x.kind, d, (x.loc or "").split(":")[0]))
            if bad:
                return VIOLATION, "; ".join(dict.fromkeys(bad)), analysed(r), "%s: %s" % (name.split(" of ")[0], "; ".join(sorted(set(keys))))
            return HOLDS, "no undefined use among %d reached functions%s" % (len(analysed(r)), ", %d on unreachable branches" % len(unsure) if unsure else ""), analysed(r)
        c.run(name, go, at=[where], rule="no attribute, name or call is undefined on any reachable path", key=key or name)

    def choices(owner, fn, drop):
        """argument lists for a function: required ones always, optional ones in a second call"""
        a = fn.node.args
        ps = (a.posonlyargs + a.args)[drop:]
        nd = len(a.defaults)
        req = ps[:len(ps) - nd] if nd else ps
        out = []

        def val(x):
            return SPECIAL.get("%s %s" % (owner, x.arg), ARG.get(x.arg))
        if any(val(x) is None for x in req) or any(d is None and val(x) is None for x, d in zip(a.kwonlyargs, a.kw_defaults)):
            return None
        base = ["%s=%s" % (x.arg, val(x)[0]) for x in req] if not a.posonlyargs else [val(x)[0] for x in req]
        out.append(base)
        for i, x in enumerate(req):
            for v in val(x)[1:]:
                out.append(base[:i] + ["%s=%s" % (x.arg, v)] + base[i + 1:])
        opt = [x for x in ps[len(req):] + a.kwonlyargs if val(x)]
        if opt:
            out.append(base + ["%s=%s" % (x.arg, val(x)[0]) for x in opt])
        for x in (ps[len(req):] if nd else []):
            i = ps.index(x) - (len(ps) - nd)
            dv = a.defaults[i]
            if isinstance(dv, ast.Constant) and isinstance(dv.value, bool):
                out.append(base + ["%s=%s" % (x.arg, not dv.value)])
        return out

    for cl in prog.classes():
        rs = RECIPES.get(cl.name)
        if rs is None:
            continue
        names = []
        for k in reversed(cl.mro()):
            for n in k.members:
                if not n.startswith("_") and n not in names:
                    names.append(n)
        for j, rec in enumerate(rs):
            empty = rec == cl.name + "()" and len(rs) > 1 and cl.name not in ("AmorphousGenerator", "Scene", "NullGenerator")
            rec, _, after = rec.partition(" || ")
            mk = "o=%s\n%s\n" % (rec, after or "pass")
            use("%s" % rec, mk + "return 1", cl.name + ".__init__", bare=True) if rec != cl.name + "()" or not empty else None
            if empty and any(x for x in (cl.lookup("__init__")[0],) if isinstance(x, FuncInfo) and len(x.node.args.args) - 1 > len(x.node.args.defaults)):
                continue
            for n in names:
                m, k = cl.lookup(n)
                where = "%s.%s" % (k.name if hasattr(k, "name") else cl.name, n)
                if isinstance(m, PropInfo):
                    if m.getter is not None:
                        use("%s of %s" % (n, rec), mk + "return o.%s" % n, where, bare=empty)
                    vs = SPECIAL.get("%s.%s" % (cl.name, n), VALUE.get(n))
                    if m.setter is not None:
                        if vs is None:
                            skipped.append("%s.%s=" % (cl.name, n))
                        for v in vs or ():
                            use("%s of %s set to %s" % (n, rec, v), mk + "try:\n    o.%s=%s\nexcept (AssertionError,ValueError,TypeError):\n    pass\nreturn 1" % (n, v), where, bare=empty)
                elif isinstance(m, FuncInfo) and m.kind in ("method", "classm"):
                    if "%s.%s" % (cl.name, n) in LINTED or where in LINTED or NEEDS.get(n, "") not in rec or n == "populate_atoms" and rec.count("Volume(points") + rec.count("Volume(alg") > rec.count("generator="):
                        continue
                    if empty and n not in ("checkIfInterior",):
                        continue
                    ch = choices("%s.%s" % (cl.name, n), m, 1)
                    if ch is None:
                        skipped.append("%s.%s" % (cl.name, n))
                        continue
                    for a in ch:
                        use("%s(%s) of %s" % (n, ",".join(a), rec), mk + "return o.%s(%s)" % (n, ",".join(a)), where, bare=empty)
    for f in prog.functions():
        if f.cls is not None or f.name.startswith("_") or f.name in LINTED:
            continue
        ch = choices(f.name, f, 0)
        if ch is None:
            skipped.append(f.name)
            continue
        for a in ch:
            use("%s(%s)" % (f.name, ",".join(a)), ("W=%s\nW.populate_atoms()\n" % V if "volume=W" in a else "") + "return %s(%s)" % (f.name, ",".join(a)), f.name)
    if c.thorough:
        print("not driven:", ", ".join(sorted(set(skipped))))
