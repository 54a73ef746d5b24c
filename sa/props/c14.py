"""Dependence analysis over the value-flow graph: each documented parameter is a distinct symbol (or, for switches, each
documented value in turn), and the observable it controls is traced back through inlined calls, branches, loops and objects
to the symbols it is made of. A parameter that no longer reaches the observable, or values of a switch that lead to one and
the same value, are violations; so is an observable that reaches the routine using it as a constant."""
from sa import compare, dom
from sa.alg import Atom, Poly, Rat
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed, arrty as A
from sa.vfg import K, N, SYM, walk
from . import common as cm
from . import c15
from . import wulffmodel as wm


def closure(r, start):
    """nodes a value is made of, through the objects and the loops in it"""
    out, todo = set(), [start]
    heap = {}
    if r.st is not None:
        for (b, f), x in r.st.heap.items():
            if hasattr(x, "op"):
                heap.setdefault(b, []).append(x)
    while todo:
        for y in walk(todo.pop()):
            if y in out:
                continue
            out.add(y)
            todo += heap.get(y, [])
            if y.op == "mu":
                i = r.e.loopinfo.get(y.args[0]) or {}
                todo += [z for m in i.get("mus", {}).values() for z in m if hasattr(z, "op")]
                todo += [z for z in (i.get("iter"), i.get("brk")) if hasattr(z, "op")]
    return out


def symbols(x):
    """(symbols a value depends on, everything in it is known)"""
    out, seen, full = set(), set(), [True]

    def atom_(i):
        if i in seen:
            return
        seen.add(i)
        a = Atom.lst[i]
        if a.kind == "sym":
            out.add(a.name)
            if a.evalf is None and not a.args:
                return
        if not a.args and a.kind != "sym":
            full[0] = False
        for y in a.args:
            go(y)

    def go(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        elif isinstance(x, dom.DD):
            if id(x) in seen:
                return
            seen.add(id(x))
            v = x.var
            if v.kind == "b" or v.info is None:
                full[0] = False
            else:
                go(v.info)
            for k in x.kids:
                go(k)
        elif isinstance(x, Poly):
            for i in x.atoms():
                atom_(i)
        elif isinstance(x, Rat):
            go(x.n)
            for p, _ in x.d:
                go(p)
        elif isinstance(x, dom.T):
            go(x.data)
        elif isinstance(x, dom.G):
            go(x.guards)
            go(x.t)
        elif isinstance(x, dom.Seq):
            go(x.items)
        elif isinstance(x, (bool, str, type(None))):
            pass
        else:
            full[0] = False
    go(x)
    return out, full[0]


class Dep:
    def __init__(self, c, env, asm, setup=None, hooks=None, models=None):
        self.c, self.env, self.asm, self.setup, self.hooks, self.models = c, env, asm, setup, hooks, models

    def start(self, r):
        return r.val

    def analyse(self, drv, light=False):
        def hooks(e):
            if self.hooks:
                self.hooks(e)
            if light:
                e.oracle.limit = 60
        return self.c.analyse(drv, self.env, self.asm, self.setup, hooks, self.models)

    def on(self, name, drv, params, at, rule=None, whole=(), deep=True):
        """the result depends on every parameter (on every component of it, unless listed as whole)"""
        c = self.c

        def fn():
            r = self.analyse(drv, not deep)
            w = analysed(r)
            v = self.start(r)
            lost = [x for x in r.e.events if x.kind in ("unsupported", "depth")]
            if v is None:
                return (UNDECIDED if lost else VIOLATION), "does not complete", w
            nodes = closure(r, v)
            lost = lost or [n for n in nodes if n.op == "top" and n.args[:1] != ("uninit",)]
            try:
                syms, full = symbols(r.value()) if deep else (set(), False)
            except Exception:
                syms, full = set(), False
            for p in params:
                ty = self.env[p]
                if SYM(p, ty) not in nodes:
                    if lost:
                        return UNDECIDED, "%s is not found, but not every construct is followed: %s" % (p, str(lost[0])[:80]), w
                    return VIOLATION, "%s does not reach the result" % p, w
                if full and p not in whole:
                    comps = [p] if not isinstance(ty, tuple) or ty[0] != "arr" else sorted({a.name for a in Atom.lst if a.kind == "sym" and a.name.startswith(p + "[")})
                    miss = [x for x in comps or [p] if x not in syms]
                    if miss:
                        return VIOLATION, "%s does not influence the result" % ", ".join(miss[:3]), w
            return HOLDS, "%s found among %d %s" % (", ".join(params), len(syms) if full else len(nodes), "symbols" if full else "values"), w
        c.run(name, fn, rule or "the result depends on each parameter", at)

    def switch(self, name, drv, vals, at, rule=None):
        """each of the given values of one parameter leads to a different result"""
        c = self.c

        def fn():
            rs = [self.analyse(drv % v if "%s" in drv else drv.replace("@@", v)) for v in vals]
            w = analysed(rs[0])
            for i, r in enumerate(rs):
                if r.val is None:
                    lost = [x for x in r.e.events if x.kind in ("unsupported", "depth")]
                    return (UNDECIDED if lost else VIOLATION), "does not complete with %s" % vals[i], w
            worst = HOLDS
            for i in range(len(rs)):
                for j in range(i):
                    try:
                        x, y = rs[i].value(), rs[j].value()
                    except Exception:
                        x = y = dom.Unk("")
                    v, d = compare.verdict(x, y)
                    if v == compare.HOLDS:
                        return VIOLATION, "%s and %s give the same result" % (vals[j], vals[i]), w
                    if v != compare.DIFFERS and rs[i].val is rs[j].val and not any(n.op in ("obj", "mu") for n in walk(rs[i].val)):
                        return VIOLATION, "%s and %s lead to the same value" % (vals[j], vals[i]), w
                    if v != compare.DIFFERS and shape(rs[i]) == shape(rs[j]):
                        worst = UNDECIDED
            return worst, "%d values" % len(vals), w
        c.run(name, fn, rule or "each documented value gives its own result", at)


def shape(r):
    """a printable form of the graph of a result in which the numbering of objects and loops is left out"""
    import re
    ns = closure(r, r.val)
    return sorted({re.sub(r"#\d+|\bi\d+|\bmu\d+", "#", str(n)) for n in ns if n.op not in ("obj",)})


def run(c):
    S, S0 = cm.structure("S", 2)
    env = dict(X=A(2, 3), C=A(3), R="float", tol="float", n=A(3), p=A(3), ax=A(3), ln="float", P=A(5, 3), P8=A(8, 3), C2=A(3), R2="float", pr="int", go=A(3), bx=A(2, 3), t=A(3),
               M=A(3, 3), o=A(3), H=A(3, 3), k="float", k2="float", den="float", s="int", sp="int", dm=A(3), a="float", b="float", q="float", Q=A(3, 3), Z3=A(3), Z2=A(2), Zm=A(4),
               C4=A(4, 3), N="int", ms="int", L="int", v=A(3), w=A(3), th="float", V3=A(3, 3), W3=A(3, 3), al="float", be="float", ga="float", mp=A(3), tp=A(3), n2=A(3), p2=A(3),
               so=A(3), B=A(3, 3), bd=A(3), sc="float", fn="fn", W=("opq", c.p.cls("BaseVolume")), W2=("opq", c.p.cls("BaseVolume")), G=("opq", c.p.cls("BaseGenerator")),
               fc=A(2, 3), cd=A(3), ca=A(3), fr="float", i="int", name="str", mv=A(3), rot="float", bl="float", pb="float", Hh=("opq", c.p.cls("BaseVolume")), hz=A(5), nst="int",
               dec="float", tl="float", mg="float", std="float", rng=("ext", "numpy.random._generator.Generator"), b1=A(3), b2=A(3), opt="float", dct=("ext", "#shape"), jm="int", sgn="int", sym="str")
    env.update(S)
    asm = {"R": "pos", "tol": "pos", "ln": "pos", "R2": "pos", "bd": "pos", "sc": "pos", "k": "pos", "den": "pos", "dm": "pos", "N": "pos", "ms": "pos", "L": "pos", "s": "nonneg",
           "a": "pos", "b": "pos", "q": "pos", "fr": "nonneg", "nst": "pos", "std": "pos", "pb": "pos", "k2": "pos", "sp": "pos", "cd": "pos", "ca": "pos"}

    def setup(e, en):
        d = S0(e, en)
        d.update({(en["Hh"], "atoms"): en["P"], (en["Hh"], "species"): en["hz"], (en["W"], "priority"): K(0), (en["W2"], "priority"): K(1)})
        return d

    def hooks(e):
        cm.hull_hooks(e)
        e.fhooks["ase.io.write"] = c15.f_write
    d = Dep(c, env, asm, setup, hooks, {"methods": cm.GEO["methods"], "attrs": cm.GEO["attrs"], "functions": cm.GEO["functions"]})
    D, SW = d.on, d.switch
    # ---- surfaces --------------------------------------------------------------
    D("Sphere, interior", "return Sphere(R,C,tol).checkIfInterior(X)", ["R", "C", "tol", "X"], "Sphere.checkIfInterior")
    D("Sphere, by keyword", "return Sphere(radius=R,center=C,tol=tol).checkIfInterior(testPoints=X)", ["R", "C", "tol", "X"], "Sphere.checkIfInterior")
    D("Sphere, box", "return Sphere(R,C).get_bounding_box()", ["R", "C"], "Sphere.get_bounding_box")
    D("Plane, interior", "return Plane(n,p,tol).checkIfInterior(X)", ["n", "p", "tol", "X"], "Plane.checkIfInterior")
    D("Plane, by keyword", "return Plane(normal=n,point=p,tol=tol).checkIfInterior(X)", ["n", "p", "tol", "X"], "Plane.checkIfInterior")
    for f in ("sdist_from_plane", "dist_from_plane", "project_point"):
        D("Plane, " + f, "return Plane(n,p).%s(t)" % f, ["n", "p", "t"], "Plane." + f)
    D("Cylinder, interior", "return Cylinder(ax,p,R,ln,tol).checkIfInterior(X)", ["ax", "p", "R", "ln", "tol", "X"], "Cylinder.checkIfInterior")
    D("Cylinder, by keyword", "return Cylinder(axis=ax,point=p,radius=R,length=ln,tol=tol).checkIfInterior(X)", ["ax", "p", "R", "ln", "tol", "X"], "Cylinder.checkIfInterior")
    D("Cylinder, box", "return Cylinder(ax,p,R,ln).get_bounding_box()", ["ax", "p", "R", "ln"], "Cylinder.get_bounding_box")
    D("snapped plane", "g=Generator(origin=go)\ng.voxel.bases=np.diag(bd)\nx=snap_plane_near_point(t,g,(1,1,0))\nreturn x.point", ["bd", "t"], "snap_plane_near_point", whole=("bd", "t"))
    SW("snapped plane, mode", "g=Generator(origin=go)\ng.voxel.bases=np.diag(bd)\nx=snap_plane_near_point(t,g,(1,1,0),%s)\nreturn x.point", ["'nearest'", "'floor'", "'ceil'"], "snap_plane_near_point")
    SW("snapped plane, indices", "g=Generator(origin=go)\ng.voxel.bases=np.diag(bd)\nx=snap_plane_near_point(t,g,%s)\nreturn x.normal", ["(1,1,0)", "(1,0,0)", "(1,2,0)", "(0,0,1)"], "snap_plane_near_point")
    D("box of planes", "f=[Plane([1,0,0],[R,0,0]),Plane([-1,0,0],[0,0,0]),Plane([0,1,0],[0,k,0]),Plane([0,-1,0],[0,0,0]),Plane([0,0,1],[0,0,q]),Plane([0,0,-1],[0,0,0])]\nreturn get_bounding_box(f)[0]",
      ["R", "k", "q"], "get_bounding_box")
    D("rectangular prism", "return makeRectPrism(R,k,q)", ["R", "k", "q"], "makeRectPrism")
    D("rectangular prism, centred", "return makeRectPrism(R,k,q,C)", ["R", "k", "q", "C"], "makeRectPrism")
    D("rectangular prism, by keyword", "return makeRectPrism(a=R,b=k,c=q,center=C)", ["R", "k", "q", "C"], "makeRectPrism")
    # ---- volumes ------------------------------------------------------------------
    D("Volume, surfaces", "return Volume(alg_objects=[Sphere(R,C),Plane(n,p)]).checkIfInterior(X)", ["R", "C", "n", "p"], "Volume.checkIfInterior")
    D("Volume, points and tolerance", "return Volume(points=P,tolerance=tol).checkIfInterior(X)", ["P", "tol"], "Volume.checkIfInterior")
    D("Volume, points, surfaces and tolerance", "return Volume(points=P,alg_objects=[Sphere(R,C)],tolerance=tol).checkIfInterior(X)", ["P", "tol", "R", "C"], "Volume.checkIfInterior")
    D("Volume, tolerance set", "v=Volume(points=P)\nv.tolerance=tol\nreturn v.checkIfInterior(X)", ["tol"], "Volume.tolerance")
    D("Volume, added points", "v=Volume(points=P)\nv.addPoints(Q)\nreturn v.points", ["P", "Q"], "Volume.addPoints")
    D("Volume, added surface", "v=Volume(alg_objects=[Sphere(R,C)])\nv.add_alg_object(Sphere(R2,C2))\nreturn v.checkIfInterior(X)", ["R", "C", "R2", "C2"], "Volume.add_alg_object")
    D("Volume, priority", "return Volume(alg_objects=[Sphere(R,C)],priority=pr).priority", ["pr"], "Volume.priority")
    D("MultiVolume, priority", "return MultiVolume([W,W2],priority=pr).priority", ["pr"], "MultiVolume.priority")
    D("MultiVolume, members", "return MultiVolume([Volume(alg_objects=[Sphere(R,C)]),Volume(alg_objects=[Sphere(R2,C2)])]).checkIfInterior(X)", ["R", "C", "R2", "C2"], "MultiVolume.checkIfInterior")
    D("MultiVolume, added member", "m=MultiVolume([Volume(alg_objects=[Sphere(R,C)])])\nm.add_volume(Volume(alg_objects=[Sphere(R2,C2)]))\nreturn m.checkIfInterior(X)", ["R", "C", "R2", "C2"], "MultiVolume.add_volume")
    D("MultiVolume, added members", "m=MultiVolume()\nm.add_volume([Volume(alg_objects=[Sphere(R,C)]),Volume(alg_objects=[Sphere(R2,C2)])])\nreturn m.checkIfInterior(X)", ["R", "C", "R2", "C2"], "MultiVolume.add_volume")
    for nm, mk in (("generator", "v=Volume(alg_objects=[Sphere(R,C)],generator=Generator(structure=S,origin=go))"), ("generator, keyword order", "v=Volume(generator=Generator(origin=go,structure=S),points=P)"),
                   ("added generator", "v=Volume(points=P)\nv.add_generator(Generator(structure=S,origin=go))")):
        D("Volume, " + nm, mk + "\ng=v.generator\nreturn g.origin,g.voxel.bases,g.species,g.coords", ["go", "S_m", "S_fc", "S_sp"], "Volume.add_generator")
    D("Volume, generator and its origin", "v=Volume(points=P,generator=Generator(structure=S),gen_origin=t)\nreturn v.generator.origin,v.generator.voxel.bases", ["t", "S_m"], "Volume.add_generator")
    D("Volume, added generator and its origin", "v=Volume(points=P)\nv.add_generator(Generator(structure=S),t)\nreturn v.generator.origin,v.generator.voxel.bases", ["t", "S_m"], "Volume.add_generator")
    D("Volume, added generator and its origin by keyword", "v=Volume(points=P)\nv.add_generator(generator=Generator(structure=S),origin=t)\nreturn v.generator.origin,v.generator.voxel.bases", ["t", "S_m"], "Volume.add_generator")
    for what, mk, obs in (("volume", "Volume(alg_objects=[Sphere(R,C)],points=P)", "v.points,v.checkIfInterior(X)"), ("nested volume", "MultiVolume([Volume(alg_objects=[Sphere(R,C)],points=P)])", "v.volumes[0].points,v.checkIfInterior(X)")):
        D("from_volume of a %s, transformation" % what, "v=%s.from_volume(transformation=[Translation(t)])\nreturn %s" % (mk, obs), ["P", "t", "R", "C"], "from_volume")
        D("from_volume of a %s, transformations" % what, "v=%s.from_volume(transformation=[Translation(t),MatrixTransform(M)])\nreturn %s" % (mk, obs.split(",")[0]), ["P", "t", "M"], "from_volume")
        w = mk if what == "volume" else mk
        g = "v.generator" if what == "volume" else "v.volumes[0].generator"
        D("from_volume of a %s, generator" % what, "v=%s.from_volume(generator=Generator(structure=S,origin=go))\nreturn %s.origin,%s.voxel.bases" % (w, g, g), ["go", "S_m"], "from_volume")
        D("from_volume of a %s, generator and transformation" % what, "v=%s.from_volume(generator=Generator(structure=S,origin=go),transformation=[Translation(t)])\nreturn %s.origin,%s.voxel.bases" % (w, g, g), ["go", "S_m", "t"], "from_volume")
        o = "v" if what == "volume" else "v.volumes[0]"
        D("from_volume of a %s, options" % what, "v=%s.from_volume(priority=pr,tolerance=tol,points=P8)\nreturn %s.priority,%s.tolerance,%s.points" % (w, o, o, o), ["pr", "tol", "P8"], "from_volume")
    # ---- generators -----------------------------------------------------------------
    D("Generator, atoms", "return Generator(structure=S,origin=go).supply_atoms(bx)", ["go", "S_m", "S_fc", "S_sp", "bx"], "Generator.supply_atoms", whole=("bx", "S_m", "S_fc", "S_sp", "go"))
    D("Generator, strained atoms", "return Generator(structure=S,origin=go,strain_field=HStrain(H,origin=so)).supply_atoms(bx)[0]", ["go", "H", "so", "bx"], "Generator.supply_atoms", whole=("bx", "go", "H", "so"))
    D("Generator, edited atoms", "g=Generator(structure=S,origin=go)\ng.post_transform=ArbitraryPostTransform(lambda p,z:(p*k,z+q))\nreturn g.supply_atoms(bx)", ["k", "q"], "Generator.supply_atoms")
    D("Generator, origin and structure", "g=Generator(origin=go,structure=S)\nreturn g.origin,g.voxel.origin,g.voxel.bases,g.coords,g.species,g.lattice", ["go", "S_m", "S_fc", "S_sp"], "Generator.__init__")
    D("Generator, from a unit cell", "g=Generator.from_unit_cell(Z2,fc,cd,ca,origin=go,strain_field=HStrain(H))\nreturn g.structure,g.origin,g.strain_field.matrix", ["Z2", "fc", "cd", "ca", "go", "H"], "Generator.from_unit_cell")
    for nm, sg, need in (("number", "sgn=sgn", ["sgn"]), ("symbol", "sym=sym", ["sym"]), ("number and symbol", "sgn=sgn,sym=sym", ["sgn"])):
        D("Generator, from a space group %s" % nm, "g=Generator.from_spacegroup(Z2,fc,cd,ca,%s,origin=go,strain_field=HStrain(H))\nreturn g.structure,g.origin,g.strain_field.matrix" % sg,
          ["Z2", "fc", "cd", "ca", "go", "H"] + need, "Generator.from_spacegroup")
    for f in ("from_unit_cell(Z2,fc,cd,ca)", "from_spacegroup(Z2,fc,cd,ca,sgn=225)"):
        for j in range(3):
            D("Generator.%s, cell length %d" % (f, j), "g=Generator.%s\nreturn g.structure" % f.replace("cd", "[%s]" % ",".join("k" if x == j else "3.0" for x in range(3))), ["k"], "Generator.from_unit_cell")
            D("Generator.%s, cell angle %d" % (f, j), "g=Generator.%s\nreturn g.structure" % f.replace("ca", "[%s]" % ",".join("k" if x == j else "90" for x in range(3))), ["k"], "Generator.from_unit_cell")
    D("Generator, transformed by from_generator", "g=Generator(structure=S,origin=go).from_generator(transformation=[Translation(t),MatrixTransform(M)])\nreturn g.origin,g.voxel.bases", ["t", "M", "go", "S_m"], "from_generator")
    D("amorphous block", "return AmorphousGenerator(origin=go,min_dist=k,density=den,species=sp).supply_atoms(bx)", ["k", "den", "sp", "bx"], "AmorphousGenerator.supply_atoms", whole=("bx",))
    D("amorphous block, options set", "g=AmorphousGenerator()\ng.min_dist=k\ng.density=den\ng.species=sp\nreturn g.supply_atoms(bx)", ["k", "den", "sp", "bx"], "AmorphousGenerator.supply_atoms", whole=("bx",))
    D("amorphous origin", "return AmorphousGenerator(go).origin", ["go"], "AmorphousGenerator.origin")
    SW("amorphous block, repeated", "g=AmorphousGenerator(min_dist=k)\ng.use_old_result=%s\ng.supply_atoms(bx)\nreturn g.supply_atoms(X)", ["True", "False"], "AmorphousGenerator.supply_atoms")
    for f, more, ex in (("gen_p_substrate", [], ""), ("gen_p_substrate_batched", ["k2", "jm"], ",voxel_scale=k2,batch_size=jm")):
        D(f, "return %s(dm,min_dist=k,density=den,seed=s%s)" % (f, ex), ["dm", "k", "den", "s"] + more, f, whole=("dm",))
        D(f + ", positional", "return %s(dm,k,den,%s,%s)" % (f, "False", "s" if not more else "k2,jm,s"), ["dm", "k", "den", "s"] + more, f, whole=("dm",))
    D("voxel", "return Voxel(B,sc,go).sbases,Voxel(B,sc,go).origin", ["B", "sc", "go"], "Voxel.__init__")
    D("voxel extents", "return Voxel(np.diag(bd),sc,go).get_extents(bx)", ["bd", "sc", "go", "bx"], "Voxel.get_extents")
    # ---- transformations ---------------------------------------------------------------
    D("translation", "return Translation(t).applyTransformation(X)", ["t", "X"], "Translation.applyTransformation")
    for nm, mk, ps in (("matrix", "MatrixTransform(M)", ["M"]), ("matrix about a point", "MatrixTransform(M,o)", ["M", "o"]), ("matrix about a point, keyword", "MatrixTransform(matrix=M,origin=o)", ["M", "o"])):
        D(nm, "return %s.applyTransformation(X)" % mk, ps + ["X"], "MatrixTransform.applyTransformation")
        D(nm + ", bases", "return %s.applyTransformation_bases(B)" % mk, ["M", "B"], "MatrixTransform.applyTransformation_bases")
        D(nm + ", sphere", "return %s.applyTransformation_alg(Sphere(R,C)).center" % mk, ps + ["C"], "MatrixTransform.applyTransformation_alg")
        D(nm + ", plane", "x=%s.applyTransformation_alg(Plane(n,p))\nreturn x.normal,x.point" % mk, ps + ["n", "p"], "MatrixTransform.applyTransformation_alg")
    D("rotation about a point", "return Rotation(rot_v(ax,th),o).applyTransformation(X)", ["ax", "th", "o", "X"], "Rotation")
    D("rotation about a point, keyword", "return Rotation(matrix=rot_v(ax,th),origin=o).applyTransformation(X)", ["ax", "th", "o", "X"], "Rotation")
    D("reflection", "return Reflection(Plane(n,p)).applyTransformation(X)", ["n", "p", "X"], "Reflection")
    D("reflection, bases", "return Reflection(Plane(n,p)).applyTransformation_bases(B)", ["n", "B"], "Reflection")
    D("sequence", "return MultiTransform([Translation(t),MatrixTransform(M)]).applyTransformation(X)", ["t", "M", "X"], "MultiTransform.applyTransformation")
    D("sequence, added", "m=MultiTransform([Translation(t)])\nm.add_transform(MatrixTransform(M,o))\nreturn m.applyTransformation(X)", ["t", "M", "o", "X"], "MultiTransform.add_transform")
    D("sequence, bases", "return MultiTransform([Translation(t),MatrixTransform(M)]).applyTransformation_bases(B)", ["M", "B"], "MultiTransform.applyTransformation_bases")
    D("sequence, surface", "return MultiTransform([Translation(t),MatrixTransform(M)]).applyTransformation_alg(Sphere(R,C)).center", ["t", "M", "C"], "MultiTransform.applyTransformation_alg")
    GEN = "g=Generator(structure=S,origin=go)\n"
    for nm, mk in (("translation", "Translation(t,%s)"), ("matrix", "MatrixTransform(M,o,%s)"), ("rotation", "Rotation(rot_v([0,0,1],th),o,%s)"), ("reflection", "Reflection(Plane(n,p),%s)")):
        SW("locked %s" % nm, "v=Volume(points=P,generator=Generator(structure=S,origin=go))\nv.transform(%s)\nreturn v.generator.origin" % (mk % "locked=@@"), ["True", "False"], "locked")
        SW("bases-only %s" % nm, GEN + "g.transform(%s)\nreturn g.origin" % (mk % "basis_only=@@"), ["True", "False"], "basis_only")
        SW("bases-only %s, volume" % nm, "v=Volume(points=P,generator=Generator(structure=S,origin=go))\nv.transform(%s)\nreturn v.generator.origin" % (mk % "basis_only=@@"), ["True", "False"], "basis_only")
    D("rot_v", "return rot_v(ax,th)", ["ax", "th"], "rot_v")
    D("rot_vtv", "return rot_vtv(v,w)", ["v", "w"], "rot_vtv", whole=("v", "w"))
    D("rot_align", "return rot_align(V3,W3)", ["V3", "W3"], "rot_align", whole=("V3", "W3"))
    for cv in ("", ",'intrinsic'", ",'extrinsic'"):
        D("rot_zxz" + cv, "return rot_zxz(al,be,ga%s)" % cv, ["al", "be", "ga"], "rot_zxz")
    D("alignment of surfaces", "return s2s_alignment(Plane(n,p),Plane(n2,p2),mp,tp).applyTransformation(X)", ["n", "n2", "mp", "tp"], "s2s_alignment", deep=False)
    # ---- strain and edits ---------------------------------------------------------------
    for mode in ("'crystal'", "'standard'"):
        for on, og, ps in (("generator origin", "", ["go"]), ("own origin", ",origin=so", ["so"])):
            D("homogeneous strain, %s, %s" % (mode, on), "g=Generator(origin=go)\ng.voxel.bases=np.diag(bd)\nf=HStrain(H%s,mode=%s)\nf.scrape_params(g)\nreturn f.apply_strain(X)" % (og, mode),
              ["H", "X"] + ps + (["bd"] if "cr" in mode else []), "HStrain.apply_strain")
            D("strain function, %s, %s" % (mode, on), "g=Generator(origin=go)\ng.voxel.bases=np.diag(bd)\nf=IStrain(lambda x,**kw:x*kw['amp']+k%s,mode=%s,amp=q)\nf.scrape_params(g)\nreturn f.apply_strain(X)" % (og, mode),
              ["k", "q", "X"] + ps + (["bd"] if "cr" in mode else []), "IStrain.apply_strain")
    for f in ("HStrain(H,mode=%s)", "IStrain(lambda x,**kw:x*x,mode=%s)"):
        SW("%s, mode" % f[:7], "g=Generator(origin=go)\ng.voxel.bases=np.diag(bd)\nf=" + f.replace("%s", "@@") + "\nf.scrape_params(g)\nreturn f.apply_strain(X)", ["'crystal'", "'standard'"], "apply_strain")
    D("strain function, options set", "f=IStrain(lambda x,**kw:x*kw['amp']+k,origin=so,mode='standard',amp=1.0)\nf.fun_kwargs={'amp':q}\nreturn f.apply_strain(X)", ["q", "k", "X"], "IStrain.fun_kwargs")
    D("substitution", "return ChemicalSubstitution([a],[b],fr).apply_function(Q,Z3,seed=s)", ["a", "b", "fr", "s", "Z3", "Q"], "ChemicalSubstitution.apply_function", whole=("Z3", "Q"))
    SW("substitution, targets", "return ChemicalSubstitution([%s],[7],1.0).apply_function(Q,np.array([6,8,9]))[1]", ["6", "8", "9"], "ChemicalSubstitution.apply_function")
    SW("substitution, substitutes", "return ChemicalSubstitution([6],[%s],1.0).apply_function(Q,np.array([6,8,9]))[1]", ["5", "7", "9"], "ChemicalSubstitution.apply_function")
    D("edit by a function", "return ArbitraryPostTransform(lambda x,z:(x*k,z+q)).apply_function(Q,Z3)", ["k", "q", "Q", "Z3"], "ArbitraryPostTransform.apply_function")
    D("sequence of edits", "m=PostSequence([ArbitraryPostTransform(lambda x,z:(x*k,z))])\nm.add_transform(ArbitraryPostTransform(lambda x,z:(x,z+q)))\nreturn m.apply_function(Q,Z3)", ["k", "q", "Q", "Z3"], "PostSequence.apply_function")
    # ---- molecules --------------------------------------------------------------------------
    D("Molecule", "m=Molecule(Zm,C4)\nreturn m.species,m.atoms", ["Zm", "C4"], "Molecule.__init__")
    D("Molecule, origin", "m=Molecule(Zm,C4,origin=o)\nreturn m.origin", ["o"], "Molecule.__init__")
    D("Molecule, tracked atom", "m=Molecule(Zm,C4,origin=2)\nm.transform(Translation(t))\nreturn m.origin", ["C4", "t"], "Molecule.__init__", whole=("C4",))
    SW("Molecule, tracked atom", "return Molecule(Zm,C4,origin=%s).origin", ["0", "1", "3"], "Molecule.__init__")
    SW("Molecule, origin atom", "m=Molecule(Zm,C4)\nm.set_origin(idx=%s)\nreturn m.origin", ["0", "1", "3"], "BaseMolecule.set_origin")
    D("Molecule, origin point", "m=Molecule(Zm,C4)\nm.set_origin(point=o)\nreturn m.origin", ["o"], "BaseMolecule.set_origin")
    D("Molecule, orientation", "return Molecule(Zm,C4,orientation=rot_v([0,0,1],th)).orientation", ["th"], "Molecule.__init__")
    D("Molecule, moved", "m=Molecule(Zm,C4,origin=o)\nm.transform(MatrixTransform(M))\nreturn m.atoms,m.origin", ["M", "C4", "o"], "BaseMolecule.transform")
    SW("Molecule, origin moved along", "m=Molecule(Zm,C4,origin=o)\nm.transform(Translation(t),transform_origin=%s)\nreturn m.origin", ["True", "False"], "BaseMolecule.transform")
    D("Molecule, set", "m=Molecule(Zm,C4)\nm.set_atoms(Z3,Q)\nreturn m.atoms,m.species", ["Z3", "Q"], "BaseMolecule.set_atoms")
    D("Molecule, updated", "m=Molecule([6,7,8],P[:3])\nm.update_positions(Q)\nm.update_species(Z3)\nreturn m.atoms,m.species", ["Z3", "Q"], "BaseMolecule.update_positions")
    SW("Molecule, removed atoms", "m=Molecule(Zm,C4)\nm.remove_atoms(%s)\nreturn m.atoms", ["[0]", "[1]", "[3]", "[0,2]", "[]"], "BaseMolecule.remove_atoms")
    SW("Molecule, new origin atom", "m=Molecule(Zm,C4)\nm.remove_atoms([1],%s)\nreturn m.origin", ["0", "2", "3", "None"], "BaseMolecule.remove_atoms")
    D("Molecule, copied and moved", "m=Molecule(Zm,C4,origin=o).from_molecule(transformation=[Translation(t),MatrixTransform(M)])\nreturn m.atoms,m.origin", ["t", "M", "C4", "o"], "BaseMolecule.from_molecule")
    # ---- scenes and files ------------------------------------------------------------------------
    D("Scene, bounds", "s=Scene(bounds=X)\nreturn s.bounds", ["X"], "Scene.__init__", whole=("X",))
    D("Scene, objects", "s=Scene(objects=[W])\ns.add_object(W2)\nreturn s.objects", ["W", "W2"], "Scene.add_object")
    # ---- functions of util ------------------------------------------------------------------------
    D("angle", "return vangle(v,w)", ["v", "w"], "vangle")
    D("rounding away", "return round_away(k)", ["k"], "round_away")
    D("splits", "return get_N_splits(N,ms,L,s)", ["N", "ms", "L", "s"], "get_N_splits")
    D("splits, by keyword", "return get_N_splits(n=N,m=ms,l=L,seed=s)", ["N", "ms", "L", "s"], "get_N_splits")
    D("splits, one", "return get_N_splits(1,ms,L,s)", ["ms", "L", "s"], "get_N_splits")
    D("periodic distance", "return get_sdist_fun(dm,True,True,True)(P[:1,:,None],X[:1,:,None])", ["dm", "P", "X"], "get_sdist_fun", whole=("P", "X"))
    for i, ax in enumerate(("px", "py", "pz")):
        SW("periodic distance, %s" % ax, "return get_sdist_fun(dm,%s=@@)(P[:1,:,None],X[:1,:,None])" % ax, ["True", "False"], "get_sdist_fun")
    D("radial distribution", "return calc_rdf(P,cutoff=k)", ["P", "k"], "calc_rdf", deep=False)
    # ---- surfaces of objects ------------------------------------------------------------------------
    D("circumradii", "return tetrahedron_circumradii(C4[None,:,:])", ["C4"], "tetrahedron_circumradii")
    for sh in ("", ",return_alpha_shape=True"):
        D("alpha shape%s" % sh, "return alpha_shape_alg_3D(P,k%s)" % sh, ["P", "k"], "alpha_shape_alg_3D", whole=("P",))
        for more in ("seed=s", "rng=rng"):
            D("sampled alpha shape, %s%s" % (more, sh), "return alpha_shape_alg_3D_with_sampling(P,k,nst,std,%s%s)" % (more, sh), ["P", "k", "nst", "std", "s" if "seed" in more else "rng"],
              "alpha_shape_alg_3D_with_sampling", whole=("P",))
    ADS = "from czone.surface.adsorbate import find_approximate_normal,get_nearest_neighbors,add_adsorbate\n"
    D("approximate normal", ADS + "return find_approximate_normal(P,dec,tl,mg,s,nst)", ["P", "dec", "tl", "mg", "s", "nst"], "find_approximate_normal", whole=("P",))
    D("approximate normal, by keyword", ADS + "return find_approximate_normal(points=P,decay=dec,tol=tl,margin=mg,seed=s,max_steps=nst)", ["P", "dec", "tl", "mg", "s", "nst"], "find_approximate_normal", whole=("P",))
    D("nearest neighbours", ADS + "return get_nearest_neighbors(i,dct,N)", ["i", "dct", "N"], "get_nearest_neighbors")
    D("nearest neighbours, over the surface", ADS + "return get_nearest_neighbors(i,dct,N,surface_only=True)", ["i", "dct", "N"], "get_nearest_neighbors")
    SW("nearest neighbours, surface only", ADS + "return get_nearest_neighbors(i,dct,2,surface_only=%s)", ["True", "False"], "get_nearest_neighbors")
    ad = ADS + "m=Molecule([6,8,1,1],C4)\nr=add_adsorbate(m,1,bl,Hh,%s)\nreturn r[0].atoms"
    for nm, ex, ps in (("bond and direction", "mol_vector=mv,seed=s", ["bl", "mv", "C4", "P", "s"]), ("rotation", "mol_vector=mv,mol_rotation=rot,seed=s", ["rot", "mv"]),
                       ("probe", "probe_radius=pb,seed=s", ["pb"]), ("probe without sampling", "probe_radius=pb,use_sampling=False,seed=s", ["pb"]), ("shells", "N_shells=N,seed=s", ["N"]),
                       ("filters", "filters={'spatial':lambda x:x[:,2]>k},seed=s", ["k"]), ("element", "filters={'element':[a]},seed=s", ["a"]), ("indices", "filters={'indices':[i]},seed=s", ["i"])):
        D("adsorbate, " + nm, ad % ex, ps, "add_adsorbate", whole=("mv", "C4", "P"))
    SW("adsorbate, bonding atom", (ADS + "m=Molecule([6,8,1,1],C4)\nr=add_adsorbate(m,%s,bl,Hh,mol_vector=mv,seed=s)\nreturn r[0].atoms"), ["0", "1", "3"], "add_adsorbate")
    SW("adsorbate, sampling", ad.replace("%s", "use_sampling=@@,seed=s"), ["True", "False"], "add_adsorbate")
    SW("adsorbate, surface only", ad.replace("%s", "surface_only=@@,seed=s"), ["True", "False"], "add_adsorbate")
    # ---- prefabs ----------------------------------------------------------------------------------
    prefabs(c, S, S0)
    wulff(c)
    files(c, c.p.cls("BaseVolume"))


def files(c, V):
    """the one write: its file name, options, and the atoms of its image"""
    env = dict(X=A(2, 3), fn="str", x="float", y="float", Z=A(3), P=A(4, 3), sp=A(4), V=("opq", V))

    def setup(e, en):
        return {(en["V"], "atoms"): en["P"], (en["V"], "species"): en["sp"], (en["V"], "priority"): K(0)}

    def hooks(e):
        cm.hull_hooks(e)
        e.fhooks["ase.io.write"] = e.fhooks["ase.io.formats.write"] = c15.f_write

        def pop(en, b, pos, kw, st, ex):
            while b.op in ("copy", "shallow"):
                b = b.args[0]
            return K(None) if b.op == "sym" else NotImplemented
        e.mhooks["populate_atoms"] = pop
    d = Dep(c, env, {}, setup, hooks, {"methods": cm.GEO["methods"], "attrs": cm.GEO["attrs"], "functions": cm.GEO["functions"]})
    d.start = lambda r: r.st.heap.get((c15.FILES, "w")) if r.st is not None else None
    for nm, mk, ps in (("Scene", "s=Scene(bounds=X,objects=[V])", ["X", "P", "sp"]), ("Volume", "s=Volume(points=P)\ns._atoms=P\ns._species=sp", ["P", "sp"]),
                       ("MultiVolume", "s=MultiVolume([V])\ns.populate_atoms()", ["P", "sp"])):
        for call in ("s.to_file(fn)", "s.to_file(fname=fn)", "s.to_file(fn,format='xyz',comment=x,append=y)", "s.to_file(fn,format='vasp',direct=x)", "s.to_file(fn,format='prismatic',debye_waller_factors={'C':x},comment=y)"):
            d.on("%s: %s" % (nm, call), "%s\n%s\nreturn 1" % (mk, call), ["fn"] + ps + [k for k in "xy" if "=" + k in call or ":" + k in call], "%s.to_file" % ("Scene" if nm == "Scene" else "BaseVolume"),
                 "the written file depends on the argument", whole=("P", "sp", "X"), deep=False)


def prefabs(c, S, S0):
    env = dict(go=A(3), N="int", ms="int", k="float", a="float", b="float", q="float", R="float", C=A(3), h1="int", h2="int", h3="int")
    env.update(S)
    d = Dep(c, env, {"N": "pos", "ms": "pos", "a": "pos", "b": "pos", "q": "pos", "R": "pos"}, S0, cm.hull_hooks, {"methods": cm.GEO["methods"], "attrs": cm.GEO["attrs"], "functions": cm.GEO["functions"]})
    g = "g=Generator(structure=S,origin=go)\n"
    for cls, ps, at in (("fccMixedTwinSF", ["ratio=k", "plane=(1,1,1)"], "fccMixedTwinSF"), ("fccStackingFault", ["plane=(1,1,1)"], "fccMixedTwinSF"), ("fccTwin", ["plane=(1,1,1)"], "fccMixedTwinSF"), ("wurtziteStackingFault", [], "wurtziteStackingFault")):
        for vn, v, vp in (("box", "u=Volume(points=makeRectPrism(a,b,q))\n", ["a", "b", "q"]), ("ball", "u=Volume(alg_objects=[Sphere(R,C)])\n", ["R", "C"])):
            for how, mk in (("constructed", "w=%s(generator=g,volume=u,N=N,min_sep=ms%s)\n" % (cls, "".join("," + x for x in ps))), ("attributes set", "w=%s()\nw.generator=g\nw.volume=u\nw.N=N\nw.min_sep=ms\n%s" % (cls, "".join("w.%s\n" % x for x in ps)))):
                need = ["go", "S_m", "S_fc", "S_sp", "N", "ms"] + vp + (["k"] if "ratio=k" in ps else [])
                d.on("%s in a %s, %s" % (cls, vn, how), g + v + mk + "return w.build_object()", need, at + ".build_object", deep=False)
            if ps:
                d.on("%s in a %s, plane" % (cls, vn), g + v + "w=%s(generator=g,volume=u,N=2,min_sep=3,plane=(h1,h2,h3))\nreturn w.build_object()" % cls, ["h1", "h2", "h3"], at + ".build_object", deep=False)
    for rv in ("return_defect_types=True", "True"):
        d.on("defect types returned, " + rv, g + "u=Volume(points=makeRectPrism(a,b,q))\nw=fccMixedTwinSF(generator=g,volume=u,ratio=k,N=2,min_sep=3)\nv,y=w.build_object(%s)\nreturn y" % rv, ["k"], "fccMixedTwinSF.build_object", deep=False)


def wulff(c):
    e = dict(wm.env()[0]) if isinstance(wm.env(), tuple) else dict(wm.env())
    e.update(e1="float", e2="float", e3="float", te="float", n1="int", o=A(3), X=A(2, 3), M=A(3, 3))
    setup = wm.env()[1] if isinstance(wm.env(), tuple) else None
    d = Dep(c, e, {"e1": "pos", "e2": "pos", "e3": "pos", "n1": "int", "te": "pos"}, setup, wm.HOOKS, wm.MODELS)
    W = "w=WulffSingle(generator=Generator(structure=S,origin=o),surface_energies={(1,1,1):e1,(1,0,0):e2},natoms=n1)\n"
    W2 = "w=WulffSingle()\nw.generator=Generator(structure=S,origin=o)\nw.surface_energies={(1,1,1):e1,(1,0,0):e2}\nw.natoms=n1\n"
    cell = ["Sp_m"]
    for nm, w in (("constructed", W), ("attributes set", W2)):
        if nm != "constructed":
            w = "w=WulffSingle(generator=Generator(structure=S2),surface_energies={(1,1,1):1.0},natoms=100)\n" + w.split("\n", 1)[1]
        d.on("Wulff construction, " + nm, w + "v=w.get_construction()\nreturn v.checkIfInterior(X)", ["e1", "e2", "n1"] + cell, "WulffSingle.get_construction", deep=False)
        d.on("Wulff construction with areas, " + nm, w + "v,a=w.get_construction(return_facet_areas=True)\nreturn a", ["e1", "e2", "n1"], "WulffSingle.get_construction", deep=False)
        d.on("Wulff construction, generator, " + nm, w + "g=w.get_construction().generator\nreturn g.origin,g.voxel.bases,g.coords,g.species", ["o", "S_m", "S_fc", "S_sp"], "WulffSingle.get_construction", deep=False)
        d.on("areas, " + nm, w + "return w.get_areas()", ["e1", "e2", "n1"], "WulffSingle.get_areas", deep=False)
        d.on("Winterbottom construction, " + nm, w + "return w.winterbottom((1,1,1),e3).checkIfInterior(X)", ["e1", "e2", "e3", "n1"] + cell, "WulffSingle.winterbottom", deep=False)
        d.on("Winterbottom construction by keyword, " + nm, w + "return w.winterbottom(interface=(1,0,0),interface_energy=e3).checkIfInterior(X)", ["e1", "e2", "e3", "n1"], "WulffSingle.winterbottom", deep=False)
        d.switch("Winterbottom interface, " + nm, w + "return w.winterbottom(@@,e3).checkIfInterior(X)", ["(1,1,1)", "(1,0,0)", "(0,1,1)"], "WulffSingle.winterbottom")
        d.switch("Wulff construction, areas returned, " + nm, w + "return w.get_construction(@@)", ["True", "False"], "WulffSingle.get_construction")
    for s in ("cube", "cuboctohedron", "octohedron", "truncated_octohedron"):
        for call in ("WulffSingle.%s(Generator(structure=S,origin=o),n1)" % s, "WulffSingle.%s(generator=Generator(structure=S,origin=o),natoms=n1)" % s):
            d.on(call, "return %s.checkIfInterior(X)" % call, ["n1"] + cell, "WulffSingle." + s, deep=False)
            d.on(call + ": generator", "g=%s.generator\nreturn g.origin,g.voxel.bases" % call, ["o", "S_m"], "WulffSingle." + s, deep=False)
    d.switch("named shapes", "return WulffSingle.@@(Generator(structure=S),n1).checkIfInterior(X)", ["cube", "cuboctohedron", "octohedron", "truncated_octohedron"], "WulffSingle.cube")
    for cls in ("WulffDecahedron", "WulffIcosahedron"):
        mk = "w=%s(generator=Generator(structure=S,origin=o),surface_energies={(1,1,1):e1},twin_energy=te,natoms=n1)\n" % cls
        d.on(cls + ", settings", mk + "return w.twin_energy,w.surface_energies,w.natoms,w.generator.origin", ["te", "e1", "n1", "o"], cls + ".__init__", deep=False)
