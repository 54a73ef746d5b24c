"""Abstract interpretation of add_adsorbate with the surface analysis (alpha shape, neighbours, normal) as given values: the
positions returned are compared with the molecule's, rotated by the two documented rotations about its bonding atom, which
sits at target + bond_length * normal; the set the target is drawn from with the surface atoms that pass every filter; and
the report with "no atom of the placed molecule is inside the host"."""
import itertools

from sa import compare, dom
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed, arrty as A
from sa.vfg import K, N, SYM
from . import common as cm

AT = "czone/surface/adsorbate.py add_adsorbate"


def const(x):
    if isinstance(x, (list, tuple)):
        return N("tup", *[const(y) for y in x])
    return K(x)


def array(x):
    return N("call", N("ext", "numpy.array"), (const(x),), ())


class World:
    """one surface analysis: surface indices, neighbours of the target, normal, and which candidate is drawn"""
    def __init__(self, surf=(0, 2, 3), nn=(1, 4), normal=None, pick=3):
        self.surf, self.nn, self.normal, self.pick = surf, nn, normal, pick
        self.calls = {}

    def note(self, what, pos, kw, st):
        self.calls.setdefault(what, []).append((list(pos), dict(kw), dict(st.heap)))

    def __call__(self, e):
        self.calls = {}

        def shape(sampling):
            def f(en, pos, kw, st, ex):
                self.note("shape", pos, kw, st)
                d = N("dictc", *[(K(k), SYM("shape_" + k, t)) for k, t in (("tri", ("ext", "scipy.spatial.Delaunay")), ("surface_tris", A(4)), ("a_tris", A(4)))])
                return N("tup", N("listc", *[K(i) for i in self.surf]), d)
            return f
        e.ihooks["alpha_shape_alg_3D"] = shape(False)
        e.ihooks["alpha_shape_alg_3D_with_sampling"] = shape(True)

        def near(en, pos, kw, st, ex):
            self.note("near", pos, kw, st)
            return array(self.nn)
        e.ihooks["get_nearest_neighbors"] = near

        def normal(en, pos, kw, st, ex):
            self.note("normal", pos, kw, st)
            return N("bin", "/", array(self.normal[:3]), K(self.normal[3])) if self.normal is not None else SYM("nrm", A(3))
        e.ihooks["find_approximate_normal"] = normal

        def choose(en, b, pos, kw, st, ex):
            self.note("choice", pos, kw, st)
            return K(self.pick)
        e.mhooks["choice"] = choose
        e.fhooks["numpy.random.choice"] = lambda en, pos, kw, st, ex: choose(en, None, pos, kw, st, ex)
        e.fhooks["pymatgen.core.Element"] = lambda en, pos, kw, st, ex: N("call", N("ext", "pymatgen.core.Element"), tuple(pos), ())

        def z(en, b, st):
            if b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0].endswith("Element") and b.args[1] and b.args[1][0].op == "k":
                return K({"C": 6, "O": 8, "Si": 14, "Au": 79, "H": 1}[b.args[1][0].args[0]])
            return NotImplemented
        e.ahooks["Z"] = z


SPECIES = (6, 8, 6, 14, 79)
MOLS = [("at the origin", "m=Molecule([6,8,1,1],C4)\n", "np.eye(3)"),
        ("elsewhere", "m=Molecule([6,8,1,1],C4,origin=q)\n", "np.eye(3)"),
        ("tracking an atom", "m=Molecule([6,8,1,1],C4)\nm.set_origin(idx=2)\n", "np.eye(3)"),
        ("moved", "m=Molecule([6,8,1,1],C4)\nm.transform(Translation(q))\n", "np.eye(3)"),
        ("turned", "m=Molecule([6,8,1,1],C4)\nm.orientation=np.array([[0.,-1,0],[1,0,0],[0,0,1]])\n", "np.array([[0.,-1,0],[1,0,0],[0,0,1]])")]


def run(c):
    B = c.p.cls("BaseVolume")
    env = dict(P=A(5, 3), C4=A(4, 3), b="float", th="float", q=A(3), H=("opq", B), k="float", msk=("arr", (5,)), z="float", v=A(3), nrm=A(3))
    asm = {"b": "pos", "k": "pos"}

    def host(e, en):
        return {(en["H"], "atoms"): en["P"], (en["H"], "species"): array(SPECIES)}
    IMP = "from czone.surface.adsorbate import add_adsorbate\n"

    def ob(name, world, drv, spec, rule, **kw):
        c.eq(name, IMP + drv, spec, env, asm, at=AT, rule=rule, setup=host, hooks=world, models=cm.MODELS, **kw)
    # placement -----------------------------------------------------------------------------------
    R1 = "the bonding atom is one bond length along the normal from the target atom"
    R2 = "the molecule is turned rigidly: its vector onto the normal, then by the rotation about the normal"
    NORMALS = [(0, 0, 1, 1), (1, 0, 0, 1), (0, 1, 0, 1), (0, 0, -1, 1), (2, 1, -2, 3)]
    unit = lambda nr: "(np.array(%r)/%d)" % (nr[:3], nr[3])
    VECS = [None, (0, 0, 1), (1, 0, 0), (0, -1, 0)]
    TURN = "s=np.sin(th)\nu=np.cos(th)\nT=np.array([[u,-s,0],[s,u,0],[0,0,1]])\n"
    for (mn, mk, ori), nr in itertools.product(MOLS, NORMALS):
        for idx in (0, 1, 3):
            for opt in ("", ",mol_rotation=th", ",use_sampling=False"):
                if (idx > 0) + (opt != "") + (mn != MOLS[0][0]) > (2 if c.thorough else 1):
                    continue
                w = World(normal=nr)
                ob("bond of %d, molecule %s, normal %s%s" % (idx, mn, nr, opt), w, mk + "o,ok=add_adsorbate(m,%d,b,H%s)\nreturn o.atoms[%d]" % (idx, opt, idx),
                   "return P[3]+b*%s" % unit(nr), R1)
                ob("origin of %d, molecule %s, normal %s%s" % (idx, mn, nr, opt), w, mk + "o,ok=add_adsorbate(m,%d,b,H%s)\nreturn o.origin,o.species" % (idx, opt),
                   "return P[3]+b*%s,np.array([6,8,1,1])" % unit(nr), R1)
    for fn_, src in (("an element", "'element':['C']"), ("three filters", "'element':['C','Au',6],'indices':[0,2],'mask':msk>z"), ("a place", "'spatial':lambda x: x[:,2]>z")):
        for opt in ("", ",mol_vector=np.array([1.0,0.0,0.0])", ",probe_radius=k,seed=11"):
            w = World(normal=(2, 1, -2, 3), pick=2)
            ob("bond under filters: %s%s" % (fn_, opt), w, MOLS[1][1] + "o,ok=add_adsorbate(m,1,b,H,filters={%s}%s)\nreturn o.atoms[1]" % (src, opt), "return P[2]+b*np.array([2,1,-2])/3", R1)
    D = "D=o.atoms-o.atoms[%d]\n"
    for nr in NORMALS:
        w = World(normal=nr)
        ns = unit(nr)
        for idx, vec in itertools.product((0, 2), VECS):
            for mn, mk, ori in MOLS:
                if mn not in ("at the origin", "turned") or (idx and vec and not c.thorough):
                    continue
                vs = "" if vec is None else ",mol_vector=np.array(%r)" % (tuple(map(float, vec)),)
                vv = "np.array(%r)" % (tuple(map(float, vec or (0, 0, 1))),)
                tag = "vector %s of %s, molecule %s, normal %s" % (vec, idx, mn, nr)
                # the same molecule with one of its atoms along its vector
                mk2 = mk.replace("C4", "np.array([C4[0],C4[1],C4[2],C4[%d]+k*(%s@%s)])" % (idx, ori, vv))
                ob("alignment: " + tag, w, mk2 + "o,ok=add_adsorbate(m,%d,b,H,mol_rotation=th%s)\nreturn o.atoms[3]" % (idx, vs), "return P[3]+(b+k)*%s" % ns, R2)
                ob("rigidity: " + tag, w, mk + "o,ok=add_adsorbate(m,%d,b,H,mol_rotation=th%s)\n" % (idx, vs) + D % idx + "i,j=%s\nreturn D[i]@D[i],D[i]@D[j],D[3]@np.cross(D[i],D[j])" % ("1,2" if idx == 0 else "0,1"),
                   mk + "D=m.atoms-m.atoms[%d]\ni,j=%s\nreturn D[i]@D[i],D[i]@D[j],D[3]@np.cross(D[i],D[j])" % (idx, "1,2" if idx == 0 else "0,1"), R2)
                ob("turn about the normal: " + tag, w, mk + "o,ok=add_adsorbate(m,%d,b,H,mol_rotation=th%s)\n" % (idx, vs) + D % idx + "return D[3],D[1]",
                   (lambda run, a=(w, mk, idx, vs, ns): c.analyse(IMP + a[1] + "o,ok=add_adsorbate(m,%d,b,H%s)\n" % (a[2], a[3]) + D % a[2] +
                                                                                      "n=%s\nf=lambda x: x*np.cos(th)+np.cross(n,x)*np.sin(th)+n*(n@x)*(1-np.cos(th))\nreturn f(D[3]),f(D[1])" % a[4], env, asm, host, a[0], cm.MODELS).value()), R2)
    # the target ---------------------------------------------------------------------------------------
    FILT = [("no filter", "", lambda i: True), ("an element", "'element':['C']", lambda i: SPECIES[i] == 6), ("an atomic number", "'element':[8]", lambda i: SPECIES[i] == 8),
            ("several elements", "'element':['Si',8]", lambda i: SPECIES[i] in (14, 8)), ("an element named twice", "'element':['C',8,6]", lambda i: SPECIES[i] in (6, 8)), ("two element filters", "'element1':[6,8],'element2':[8,14]", lambda i: SPECIES[i] == 8),
            ("indices", "'indices':[1,2,4]", lambda i: i in (1, 2, 4)), ("index array", "'indices':np.array([0,4])", lambda i: i in (0, 4)),
            ("two index filters", "'indices1':[0,1,2],'indices2':[2,3,0]", lambda i: i in (0, 2)),
            ("a mask", "'mask':np.array([True,False,True,True,False])", lambda i: i in (0, 2, 3)), ("an unknown mask", "'mask':msk>z", "mask"),
            ("two masks", "'maskA':np.array([True,False,True,True,False]),'maskB':np.array([True,True,True,False,True])", lambda i: i in (0, 2)),
            ("a place", "'spatial':lambda x: x[:,2]>z", "place"), ("a place and an element", "'spatial':lambda x: x[:,2]>z,'element':['C']", ("place", lambda i: SPECIES[i] == 6)),
            ("a mask and indices", "'mask':msk>z,'indices':[0,2]", ("mask", lambda i: i in (0, 2))), ("an element, a mask and indices", "'element':[6,14],'mask':np.array([True,True,True,False,True]),'indices':[0,1,2]", lambda i: i in (0, 2)),
            ("four filters", "'indices':[0,1,2,4],'mask':np.array([True,True,True,False,True]),'element':[6,14],'mask2':np.array([True,False,True,True,True])", lambda i: SPECIES[i] in (6, 14) and i in (0, 2, 4)),
            ("six filters", "'element1':[6,8,14],'indices1':[0,1,2,3],'mask1':np.array([True,False,True,True,True]),'element2':['C','Si'],'indices2':[4,3,2,0],'mask2':np.array([True]*5)", lambda i: SPECIES[i] in (6, 14) and i in (0, 2, 3))]
    RT = "the target is drawn from the surface atoms that pass every filter"
    for surf in ((0, 2, 3), (0, 1, 2, 3, 4), (4, 1, 0)):
        for fn_, src, want in FILT:
            for opt in ("", ",use_sampling=False"):
                def go(surf=surf, src=src, want=want, opt=opt):
                    w = World(surf=surf, normal=(0, 0, 1, 1), pick=surf[0])
                    r = c.analyse(IMP + MOLS[0][1] + "F={%s}\no,ok=add_adsorbate(m,0,b,H,filters=F%s)\nreturn 0" % (src, opt), env, asm, host, w, cm.MODELS)
                    cs = w.calls.get("choice", [])
                    if len(cs) != 1 or not cs[0][0]:
                        return UNDECIDED, "%d draws of a target are followed" % len(cs), analysed(r)
                    v = r.ev.ev(cs[0][0][0])
                    rows = cm.gated_rows(v)
                    if rows is None:
                        return UNDECIDED, "the candidates are not followed: %s" % dom.short(v)[:80], analysed(r)
                    conds = want if isinstance(want, tuple) else (want,)
                    got = {}
                    for g, x in rows:
                        x = dom.cint(x)
                        if x is None:
                            return UNDECIDED, "a candidate is not followed", analysed(r)
                        got[x] = dom.bor(got.get(x, False), g)
                    for i in range(5):
                        ok = i in surf
                        for cd in conds:
                            if cd == "mask":
                                t = c.analyse("return msk[%d]>z" % i, env, asm, host).value()
                            elif cd == "place":
                                t = c.analyse("return P[%d,2]>z" % i, env, asm, host).value()
                            else:
                                t = cd(i)
                            ok = dom.band(ok, dom.truth(t))
                        res, why = compare.verdict(got.get(i, False), ok, False)
                        if res == compare.DIFFERS:
                            return VIOLATION, "atom %d is a candidate when %s" % (i, why), analysed(r)
                        if res != compare.HOLDS:
                            return UNDECIDED, "atom %d: %s" % (i, why), analysed(r)
                    return HOLDS, "candidates as specified", analysed(r)
                c.run("candidates: %s, surface %s%s" % (fn_, surf, opt), go, RT, AT)
    # the surface test ----------------------------------------------------------------------------------
    def same(r, x, src):
        return compare.verdict(r.ev.ev(x), c.analyse(src, env, asm, host).value(), False, thresholds=False)

    for opt in ("", ",use_sampling=False", ",probe_radius=k", ",probe_radius=k,use_sampling=False"):
        def surface(opt=opt):
            w = World(normal=(0, 0, 1, 1))
            r = c.analyse(IMP + MOLS[0][1] + "o,ok=add_adsorbate(m,0,b,H%s)\nreturn 0" % opt, env, asm, host, w, cm.MODELS)
            cs = w.calls.get("shape", [])
            if not cs:
                return UNDECIDED, "the surface test is not followed", analysed(r)
            for pos, kw, heap in cs:
                pts, rad = kw.get("points", pos[0] if pos else None), kw.get("probe_radius", pos[1] if len(pos) > 1 else None)
                if pts is None or rad is None:
                    return UNDECIDED, "arguments of the surface test are not followed", analysed(r)
                for x, src, nm in ((pts, "return P", "points"), (rad, "return %s" % ("k" if "probe_radius" in opt else "2.5"), "radius")):
                    res, why = same(r, x, src)
                    if res == compare.DIFFERS:
                        return VIOLATION, "the %s of the surface test: %s" % (nm, why), analysed(r)
                    if res != compare.HOLDS:
                        return UNDECIDED, "the %s of the surface test: %s" % (nm, why), analysed(r)
            return HOLDS, "all atoms of the host, at the given radius", analysed(r)
        c.run("surface test%s" % opt, surface, "the surface test looks at the atoms of the host with the given probe", AT)
    for pick, nn in ((3, (1, 4)), (0, (2, 3)), (2, (0, 1, 4))):
        def nearby(pick=pick, nn=nn):
            w = World(normal=(0, 0, 1, 1), pick=pick, nn=nn)
            r = c.analyse(IMP + MOLS[0][1] + "o,ok=add_adsorbate(m,0,b,H)\nreturn 0", env, asm, host, w, cm.MODELS)
            ns, gs = w.calls.get("near", []), w.calls.get("normal", [])
            if not ns or not gs:
                return UNDECIDED, "the neighbourhood is not followed", analysed(r)
            for pos, kw, heap in ns:
                x = kw.get("target_idx", pos[0] if pos else None)
                res, why = same(r, x, "return %d" % pick)
                if res == compare.DIFFERS:
                    return VIOLATION, "the neighbours of another atom than the target: " + why, analysed(r)
            for pos, kw, heap in gs:
                x = dom.arr(r.ev.ev(kw.get("points", pos[0] if pos else None)))
                if not isinstance(x, dom.T) or x.shape != (len(nn), 3):
                    return UNDECIDED, "the vectors of the normal are not followed", analysed(r)
                for i, j in enumerate(nn):
                    d = c.analyse("return P[%d]-P[%d]" % (j, pick), env, asm, host).value()
                    y = dom.row(x, i)
                    cr = npcross(y, d)
                    res, why = compare.verdict(cr, dom.T((3,), [dom.rconst(0)] * 3), False)
                    if res == compare.DIFFERS:
                        return VIOLATION, "vector %d is not along the neighbour's direction from the target: %s" % (i, why), analysed(r)
                    if res != compare.HOLDS:
                        return UNDECIDED, why, analysed(r)
                    dot = dom.rconst(0)
                    for p, q in zip(y.data, d.data):
                        dot = dom.sadd(dot, dom.smul(p, q))
                    res, why = compare.verdict(dom.scmp("<", dot, dom.rconst(0)), False, False, thresholds=False)
                    if res == compare.DIFFERS:
                        return VIOLATION, "vector %d points away from the neighbour: %s" % (i, why), analysed(r)
            return HOLDS, "the normal is that of the target's neighbours", analysed(r)
        c.run("neighbourhood of atom %d" % pick, nearby, "the normal is found from the directions of the target's neighbours", AT)
    # the report ---------------------------------------------------------------------------------------
    RR = "success is reported exactly when no atom of the placed molecule is inside the host"
    for nr in NORMALS:
        for opt in ("", ",mol_rotation=np.pi/2", ",use_sampling=False"):
            w = World(normal=nr)

            def spec(run):
                o = run.value()
                at = dom.arr(o.items[1])
                inside = False
                for i in range(4):
                    inside = dom.bor(inside, cm.in_var(run.ev.ev(SYM("H", ("opq", B))), dom.row(at, i)))
                return dom.Seq("tuple", [dom.bnot(inside), at])
            for mn, mk, ori in MOLS[:1] if opt else MOLS[:3]:
                ob("report, molecule %s, normal %s%s" % (mn, nr, opt), w, mk + "o,ok=add_adsorbate(m,1,b,H%s)\nreturn ok,o.atoms" % opt, spec, RR)
    # a copy ------------------------------------------------------------------------------------------
    RC = "the adsorbate is a copy and the molecule stays as it was"
    for mn, mk, ori in MOLS:
        w = World(normal=(1, 0, 0, 1))
        ob("the molecule afterwards, " + mn, w, mk + "o,ok=add_adsorbate(m,1,b,H,mol_rotation=th)\nreturn m.atoms,m.species,m.origin,m.orientation,o is m", mk + "return m.atoms,m.species,m.origin,m.orientation,False", RC)
        ob("species and priority, " + mn, w, mk + "m.priority=7\no,ok=add_adsorbate(m,1,b,H)\nreturn o.species,o.priority,len(o.atoms)", "return np.array([6,8,1,1]),7,4", RC)


def npcross(a, b):
    x, y = list(a.data), list(b.data)
    f = lambda i, j: dom.ssub(dom.smul(x[i], y[j]), dom.smul(x[j], y[i]))
    return dom.T((3,), [f(1, 2), f(2, 0), f(0, 1)])
