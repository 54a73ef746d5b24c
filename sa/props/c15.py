"""Abstract interpretation of to_file with ase.io.write replaced by a recorder: whatever the options, exactly one
write happens, and its file name, images and options are compared with the caller's, the object's atoms, species
and cell at that moment, and the caller's options (plus default Debye-Waller factors for the species present, for
the prismatic format without any)."""
import itertools

from sa import dom
from sa.check import arrty as A
from sa.vfg import K, N, SYM
from . import common as cm

FILES = N("ext", "#files")
SYMBOLS = dict(enumerate((
    "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd "
    "Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og").split(), 1))
WRITE = ("filename", "images", "format", "parallel", "append")


def f_write(en, pos, kw, st, ex):
    d = dict(zip(WRITE, pos))
    d.update(kw)
    rec = N("dictc", *[(K(k), en.frozen(d[k], st)) for k in sorted(d)])
    prev = st.heap.get((FILES, "w"), N("tup"))
    st.heap[(FILES, "w")] = N("tup", *(prev.args + (rec,))) if prev.op == "tup" else N("tup", prev, rec)
    return K(None)


def consts(en, node, st):
    v = en.oracle.ev.ev(en.frozen(node, st))
    if isinstance(v, dom.G) and all(isinstance(g, bool) for g in v.guards):
        n = dom.prod(v.t.shape[1:])
        v = dom.T((sum(v.guards),) + tuple(v.t.shape[1:]), [x for i, g in enumerate(v.guards) if g for x in v.t.data[i * n:(i + 1) * n]])
    if isinstance(v, dom.Seq):
        v = dom.arr(v)
    if isinstance(v, dom.T) and all(isinstance(x, dom.Rat) and x.const() is not None for x in v.data):
        return [int(x.const()) for x in v.data]
    return None


def f_set(en, pos, kw, st, ex):
    if len(pos) != 1 or kw:
        return NotImplemented
    c = consts(en, pos[0], st)
    return NotImplemented if c is None else N("tup", *[K(x) for x in sorted(set(c))])


def f_symbols(en, pos, kw, st, ex):
    c = consts(en, pos[0], st) if len(pos) == 1 and not kw else None
    if c is None:
        return NotImplemented
    return K("".join(SYMBOLS.get(x, "X%d" % x) for x in c))


def f_atoms(ev, a, k):
    names = ("symbols", "positions", "numbers", "tags", "momenta", "masses", "magmoms", "charges", "scaled_positions", "cell", "pbc")
    d = dict(zip(names, a))
    d.update(k)
    d = {n: x for n, x in d.items() if x is not None}
    if "numbers" in d and "symbols" not in d:
        d["symbols"] = d.pop("numbers")
    c = d.get("cell")
    if isinstance(c, dom.Seq):
        c = d["cell"] = dom.arr(c)
    if isinstance(c, dom.T) and c.shape == (3,):
        z = dom.rconst(0)
        d["cell"] = dom.T((3, 3), [c.data[i] if i == j else z for i in range(3) for j in range(3)])
    return dom.Seq("dict", [(n, d[n]) for n in sorted(d)])


MODELS = {"methods": cm.GEO["methods"], "attrs": cm.GEO["attrs"], "functions": dict(cm.GEO["functions"], **{"ase.Atoms": f_atoms, "ase.atoms.Atoms": f_atoms})}
OPTS = [("no options", ""), ("xyz", "format='xyz'"), ("extxyz, columns", "format='extxyz',columns=c,write_info=False"), ("vasp, several", "format='vasp',direct=True,sort=x,vasp5=y"),
        ("prismatic", "format='prismatic'"), ("prismatic, own factors", "format='prismatic',debye_waller_factors={'C':x,'Au':y}"), ("prismatic, own array of factors", "format='prismatic',debye_waller_factors=c"),
        ("prismatic, comments", "format='prismatic',comments='text',append=True"), ("factors, other format", "format='xyz',debye_waller_factors={'C':x}"), ("none format", "format=None"),
        ("proteindatabank", "format='proteindatabank',write_arrays=y"), ("mustem, factors", "format='mustem',keV=x,debye_waller_factors={'C':y}"), ("mustem", "format='mustem',keV=x"),
        ("prismatic, no factors for any", "debye_waller_factors={},format='prismatic'"), ("append only", "append=True,parallel=False"), ("cif", "format='cif',fname='again'"[:12])]


def run(c):
    V = c.p.cls("BaseVolume")
    env = dict(x="float", y="float", c=A(2, 3), bb=A(2, 3), P=A(4, 3), Q=A(3, 3), fn="str", R=A(2, 3), t=A(3), E8=A(8, 3))

    def hooks(e):
        cm.hull_hooks(e)
        for n in ("ase.io.write", "ase.io.formats.write"):
            e.fhooks[n] = f_write
        e.fhooks["builtins.set"] = f_set
        e.fhooks["numpy.unique"] = f_set
        for n in ("ase.symbols.Symbols", "ase.formula.Formula"):
            e.fhooks[n] = f_symbols

        def pop(en, b, pos, kw, st, ex):
            while b.op in ("copy", "shallow"):
                b = b.args[0]
            return K(None) if b.op == "sym" else NotImplemented
        e.mhooks["populate_atoms"] = pop

        def supply(en, b, pos, kw, st, ex):
            while b.op in ("copy", "shallow"):
                b = b.args[0]
            if b.op != "sym":
                return NotImplemented
            k = st.heap.get((FILES, "n"), K(0)).args[0]
            st.heap[(FILES, "n")] = K(k + 1)
            return N("tup", SYM("PR"[k % 2], A(4 - 2 * (k % 2), 3)), N("call", N("ext", "numpy.array"), (N("tup", *[K(z) for z in ([1, 1, 1, 1], [14, 6])[k % 2]]),), ()))
        e.mhooks["supply_atoms"] = supply

    OPAQUE = {"A": ("P", [6, 79, 6, 14]), "B": ("Q", [8, 8, 79]), "C": ("R", [1, 14]), "D": ("E8", [92, 3, 20, 26, 2, 47, 82, 100])}

    def setup_for(drop):
        """atoms of the opaque objects; drop: (object, row) pairs which the others contain"""
        def setup(e, en):
            h = {}
            for o, (p, sp) in OPAQUE.items():
                if o in en:
                    h[(en[o], "atoms")] = en[p]
                    h[(en[o], "species")] = N("call", N("ext", "numpy.array"), (N("tup", *[K(z) for z in sp]),), ())
                    h[(en[o], "priority")] = K(ord(o))
            return h
        return setup

    def inside(drop):
        def m(ev, o, a, k):
            pts = dom.arr(a[0] if a else k["testPoints"])
            if not isinstance(pts, dom.T):
                return NotImplemented
            out = []
            for i in range(pts.shape[0]):
                s = dom.short(dom.row(pts, i))
                out.append(any(d in s for d in drop))
            return dom.T((len(out),), out)
        return dict(MODELS, methods=dict(MODELS["methods"], checkIfInterior=m))

    def record(r, v):
        n = r.st.heap.get((FILES, "w")) if r.st is not None else None
        return dom.Seq("list", []) if n is None else r.ev.ev(n)

    def second(r, v):
        w = record(r, v)
        return dom.Seq("tuple", w.items[1:]) if len(w.items) == 2 else w

    def want(fname, atoms, opts, dw):
        src = "o=dict(%s)\n" % opts
        src += "o['filename']=%s\no['images']=1\n" % fname
        if dw is not None:
            src += "o['debye_waller_factors']={%s}\n" % ",".join("'%s':0.01*8*np.pi**2" % s for s in dw)
        src += "return o,%s" % atoms

        def spec(run):
            v = c.analyse(src, env, {}, None, None, MODELS).value()
            o, (p, sp, cell) = v.items[0], v.items[1].items
            im = f_atoms(None, [], {"positions": p, "symbols": sp, "cell": cell})
            d = [(k, im if k == "images" else w) for k, w in o.items]
            return dom.Seq("tuple", [dom.Seq("dict", sorted(d, key=lambda t: t[0]))])
        return spec

    def eq(name, drv, spec, at, models=MODELS, setup=None, env_=None, last=False):
        c.eq(name, drv + "\nreturn 1", spec, dict(env, **(env_ or {})), {}, at=at, rule="one write, of the object's atoms, with the caller's options", setup=setup, hooks=hooks, models=models, post=second if last else record)

    # ---- volumes -------------------------------------------------------------
    for on, o in OPTS:
        call = "to_file(fn%s)" % ("," + o if o else "")
        eq("volume, %s" % on, "v=Volume(points=P)\nv._atoms=Q\nv._species=np.array([6,79,14])\nv.%s" % call, want("fn", "(Q,np.array([6,79,14]),None)", o, None), "BaseVolume.to_file")
        eq("volume written twice, %s" % on, "v=Volume(points=P,generator=g)\nv.populate_atoms()\nv.to_file('first')\nv.transform(Translation(t,locked=False))\nv.populate_atoms()\nv.%s" % call,
           want("fn", "(R,np.array([14,6]),None)", o, None), "BaseVolume.to_file", dict(MODELS, methods=dict(MODELS["methods"], find_simplex=lambda ev, ob, a, k: dom.T((dom.arr(a[0]).shape[0],), [dom.rconst(0)] * dom.arr(a[0]).shape[0]))), None,
           {"g": ("opq", c.p.cls("BaseGenerator"))}, True)
        eq("multi-volume, %s" % on, "v=MultiVolume([A,B])\nv.populate_atoms()\nv.%s" % call, want("fn", "(np.vstack([P,Q]),np.array([6,79,6,14,8,8,79]),None)", o, None), "BaseVolume.to_file",
           inside([]), setup_for([]), {"A": ("opq", V), "B": ("opq", V)})
    # ---- scenes --------------------------------------------------------------
    CASES = [("one object", "A", [], "(P,np.array([6,79,6,14]),bb[1]-bb[0])", ["C", "Au", "Si"]),
             ("two objects", "AB", [], "(np.vstack([P,Q]),np.array([6,79,6,14,8,8,79]),bb[1]-bb[0])", ["C", "Au", "Si", "O"]),
             ("two objects, the only gold of the first and all of the second's but one removed", "AB", ["Q[2", "Q[0"], "(np.vstack([P,Q[1:2]]),np.array([6,79,6,14,8]),bb[1]-bb[0])", ["C", "Au", "Si", "O"]),
             ("two objects, a species removed altogether", "CB", ["Q[2"], "(np.vstack([R,Q[:2]]),np.array([1,14,8,8]),bb[1]-bb[0])", ["H", "Si", "O"]),
             ("two objects, the second removed altogether", "AB", ["Q["], "(P,np.array([6,79,6,14]),bb[1]-bb[0])", ["C", "Au", "Si"]),
             ("an object of eight elements", "D", [], "(E8,np.array([92,3,20,26,2,47,82,100]),bb[1]-bb[0])", ["U", "Li", "Ca", "Fe", "He", "Ag", "Pb", "Fm"]),
             ("three objects of twelve elements", "DAB", ["Q[0,"], "(np.vstack([E8,P,Q[1:]]),np.array([92,3,20,26,2,47,82,100,6,79,6,14,8,79]),bb[1]-bb[0])",
              ["U", "Li", "Ca", "Fe", "He", "Ag", "Pb", "Fm", "C", "Au", "Si", "O"]),
             ("three objects", "ABC", ["R[0"], "(np.vstack([P,Q,R[1:]]),np.array([6,79,6,14,8,8,79,14]),bb[1]-bb[0])", ["C", "Au", "Si", "O"])]
    for (cn, objs, drop, atoms, present), (on, o) in itertools.product(CASES, OPTS):
        dw = present if "'prismatic'" in o and "debye" not in o else None
        drop = [d.replace("Q[2", "Q[2,").replace("Q[0", "Q[0,").replace("R[0", "R[0,") if len(d) == 3 else d for d in drop]
        # the first listed object has the highest priority
        eq("scene of %s, %s" % (cn, on), "s=Scene(bounds=bb,objects=[%s])\ns.populate()\ns.to_file(fn%s)" % (",".join(objs), "," + o if o else ""), want("fn", atoms, o, dw),
           "Scene.to_file", inside(drop), order(objs, setup_for(drop)), {k: ("opq", V) for k in objs})
    for on, o in OPTS:
        dw = ["C", "Au", "Si"] if "'prismatic'" in o and "debye" not in o else None
        eq("scene with an options dictionary, %s" % on, "s=Scene(bounds=bb,objects=[A])\ns.populate()\nk=dict(%s)\ns.to_file(fn,**k)" % o, want("fn", CASES[0][3], o, dw),
           "Scene.to_file", inside([]), setup_for([]), {"A": ("opq", V)})
        eq("scene whose bounds changed, %s" % on, "s=Scene(bounds=c,objects=[A])\ns.populate()\ns.bounds=bb\ns.to_file(fname=fn%s)" % ("," + o if o else ""), want("fn", CASES[0][3], o, dw),
           "Scene.to_file", inside([]), setup_for([]), {"A": ("opq", V)})


def order(objs, setup):
    def s(e, en):
        h = setup(e, en)
        for i, o in enumerate(objs):
            h[(en[o], "priority")] = K(i)
        return h
    return s
