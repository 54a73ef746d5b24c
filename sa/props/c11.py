"""Interprocedural effect analysis: the storage reachable from every argument of a query or construction is collected at the
call (a may-alias analysis over the value-flow graph), and every in-place effect the call can have -- item and augmented
assignment, mutating methods, out= arguments, attribute assignment -- is resolved to the storage it writes.  A write that
may reach the caller's arrays, lists, dictionaries or objects is a violation at that construct."""
from sa import alias, compare, dom
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed, arrty as A
from sa.vfg import K, Node, SYM
from . import c11b
from . import common as cm
from . import wulffmodel as wm

R = "no in-place write reaches a value of the caller"
LIBMUT = {"apply_operation", "append", "insert", "extend", "pop", "remove", "remove_sites", "remove_species", "replace", "replace_species",
          "perturb", "make_supercell", "scale_lattice", "translate_sites", "rotate_sites", "add_site_property", "add_oxidation_state_by_element",
          "sort", "merge_sites", "set_positions", "set_cell", "set_pbc", "set_atomic_numbers", "set_chemical_symbols", "set_scaled_positions",
          "translate", "rotate", "euler_rotate", "wrap", "rattle", "center", "set_array", "new_array", "set_tags", "set_constraint", "apply_strain",
          "substitute", "add_adsorbate", "set_masses", "set_momenta", "set_charge", "from_spacegroup"}


class Mark:
    def __init__(self):
        self.reach, self.heap = None, None

    def __call__(self, e):
        def f(en, pos, kw, st, ex):
            self.reach, self.tops = {}, list(pos)
            for i, x in enumerate(pos):
                for n, p in alias.reach(x, st.heap).items():
                    self.reach.setdefault(n, "argument %d%s" % (i + 1, "" if p == "itself" else p))
            self.heap = dict(st.heap)
            self.at = len(en.events)
            return K(None)
        e.fhooks["numpy.mark"] = f


def feasible(c, r, path):
    """False only if the path provably cannot be taken"""
    seen = {}
    for n, v in path:
        if n in seen and seen[n] != v:
            return False
        seen[n] = v
    try:
        x = c.pathval(r, path)
    except Exception:
        return True
    if x is False:
        return False
    if x is True:
        return True
    try:
        v, _ = compare.verdict(x, False, thresholds=False)
    except Exception:
        return True
    return v != compare.EQUAL if hasattr(compare, "EQUAL") else True


def keeps(c, name, mk, args, call, env, assume, setup, at, models=cm.GEO, hook=None, cachable=("_",)):
    """nothing reachable from `args` after `mk` is changed by `call`"""
    def fn():
        m = Mark()

        def hk(e):
            cm.hull_hooks(e)
            e.storage = True
            if hook:
                hook(e)
            m(e)
        r = c.analyse(mk + "np.mark(%s)\n" % args + call + "\nreturn None", env, assume, setup, hk, models)
        w = analysed(r)
        if m.reach is None:
            return UNDECIDED, "the call is not reached", w
        if not m.reach:
            return UNDECIDED, "no storage of the arguments is followed", w
        if r.st is None or r.val is None:
            f = c.failures(r)
            return UNDECIDED, "the call does not complete" + (": %s %s" % f[0] if f else ""), w
        bad = [y for y in r.e.events[m.at:] if y.kind == "bad_call" and not y.caught and not y.ctx and (not y.path or "<driver>" in y.loc)]
        if bad:
            return UNDECIDED, "the call does not fit: %s" % (bad[0].data,), w
        n = 0
        for x in r.e.events[m.at:]:
            if x.kind == "mut":
                n += 1
                b, what = x.data[0], x.data[1]
                if b in m.reach:
                    hit = [(b, ())]
                elif b.op == "obj":
                    hit = []
                else:
                    hit = alias.guarded(b)
                for root, conds in hit:
                    if root in m.reach and feasible(c, r, tuple(x.path) + conds):
                        return VIOLATION, "%s: %s writes into %s" % (x.loc, what, m.reach[root]), [x.loc] + w
            elif x.kind == "setattr":
                n += 1
                b, f, v = x.data
                if b in m.reach and feasible(c, r, x.path):
                    old = m.heap.get((b, f))
                    if old is v or old is None and f.startswith("_"):
                        continue        # the same value, or a private cache
                    if old is not None and old.op == "k" and old.args[0] is None and f.startswith("_"):
                        continue
                    if b.op == "obj" and old is not None and same(r, old, v):
                        continue
                    return VIOLATION, "%s: assigns %s of %s" % (x.loc, f, m.reach[b]), [x.loc] + w
            elif x.kind == "mcall":
                b, meth = x.data.args[0], x.data.args[1]
                if meth in LIBMUT and feasible(c, r, x.path):
                    for root, conds in alias.guarded(b):
                        t = root.args[1] if root.op == "sym" else None
                        if root in m.reach and isinstance(t, tuple) and t[0] == "ext":
                            return VIOLATION, "%s: .%s() changes %s" % (x.loc, meth, m.reach[root]), [x.loc] + w
        # lists and dictionaries are followed by content as well
        for (b, f), old in m.heap.items():
            if b in m.reach and f == "#c" and r.st is not None:
                new = r.st.heap.get((b, f))
                if new is not old and isinstance(new, Node) and not same(r, old, new):
                    return VIOLATION, "the contents of %s change" % m.reach[b], w
        return HOLDS, "%d effects resolved, none on the %d pieces of storage of the arguments" % (n, len(m.reach)), w
    c.run(name, fn, R, at)


def same(r, a, b):
    try:
        v, _ = compare.verdict(r.ev.ev(a), r.ev.ev(b))
        return v != compare.DIFFERS
    except Exception:
        return False


def grid(e):
    """neighbour lists are decided on their own"""
    e.ihooks["get_voxel_grid"] = lambda en, pos, kw, st, ex: SYM("neighbours", None)


ENV = dict(P=A(5, 3), P2=A(5, 3), X=A(3), q=A(3), p=A(3), n=A(3), t=A(3), w=A(3), M=A(3, 3), H=A(3, 3), T4=A(4, 4), C4=A(4, 3), Q=A(2, 3), Z=A(5), r="float", L="float", k="float", th="float", i="int", d=A(3))
POS = {"r": "pos", "L": "pos", "n": "nonzero", "k": "pos", "w": "nonzero", "d": "pos", "i": "pos"}
TRS = [("translation", "Translation(t)"), ("locked translation", "Translation(t,locked=True)"), ("map", "MatrixTransform(M)"), ("map about a point", "MatrixTransform(M,origin=q)"),
       ("inversion", "Inversion(origin=q)"), ("reflection", "Reflection(Plane(n,q))"), ("sequence", "MultiTransform([Translation(t),Inversion(origin=q),MatrixTransform(M)])")]
SURF = [("sphere", "Sphere(r,p)"), ("plane", "Plane(n,p)"), ("cylinder", "Cylinder(n,p,r,L)")]
TF, AF, VF, GF = "czone/transform/transform.py ", "czone/volume/algebraic.py ", "czone/volume/volume.py ", "czone/generator/generator.py "
SF, MF, PF, ME, MI = "czone/transform/strain.py ", "czone/molecule/molecule.py ", "czone/prefab/prefab.py ", "czone/util/measure.py ", "czone/util/misc.py "


def run(c):
    env, setup = cm.structure("S", 2)
    env.update(ENV)
    e2, setup2 = cm.structure("S2", 1)
    env.update(e2)

    def both(e, en):
        h = setup(e, en)
        h.update(setup2(e, en))
        return h

    def ob(name, mk, args, call, at, **kw):
        keeps(c, name, mk, args, call, env, POS, both, at, **kw)
    # transforms ------------------------------------------------------------------
    for tn, t in TRS:
        for nm, x in (("array", "P"), ("view of an array", "P[1:4]"), ("vector", "X"), ("list of vectors", "[X,q]")):
            if nm in ("vector", "list of vectors") and tn in ("reflection",):
                continue
            ob("%s applied to %s" % (tn, nm), "T=%s\ny=%s\n" % (t, x), "y,P,X,q,t,M,T", "z=T.applyTransformation(y)", TF + "applyTransformation")
        ob("%s applied to basis vectors" % tn, "T=%s\n" % t, "M,H,T", "z=T.applyTransformation_bases(H)", TF + "applyTransformation_bases")
        ob("%s: its parameters" % tn, "T=%s\n" % t, "T", "z=T.params", TF + "params")
        for s, mk in SURF:
            ob("copy of a %s under a %s" % (s, tn), "T=%s\na=%s\n" % (t, mk), "a,T,n,p", "z=a.from_alg_object(transformation=[T])", AF + "from_alg_object")
        ob("generator moved by a %s" % tn, "T=%s\ng=Generator(structure=S,origin=p)\n" % t, "T,S,S_m,S_fc,p", "z=g.transform(T)", GF + "transform")
        ob("copy of a generator under a %s" % tn, "T=%s\ng=Generator(structure=S,origin=p)\n" % t, "g,T,p", "z=g.from_generator(transformation=[T])", GF + "from_generator")
        ob("volume moved by a %s" % tn, "T=%s\na=Sphere(r,p)\ng=Generator(structure=S,origin=p)\nv=Volume(points=P,alg_objects=[a],generator=g)\n" % t, "T,P,a,g,p", "z=v.transform(T)", VF + "transform")
        ob("copy of a volume under a %s" % tn, "T=%s\na=Sphere(r,p)\ng=Generator(structure=S,origin=p)\nv=Volume(points=P,alg_objects=[a],generator=g)\nl=[T]\n" % t, "v,T,P,a,g,l",
           "z=v.from_volume(transformation=l)", VF + "from_volume")
        ob("copy of a multivolume under a %s" % tn, "T=%s\nv=Volume(points=P)\nm=MultiVolume([v])\nl=[T]\n" % t, "m,v,T,P,l", "z=m.from_volume(transformation=l)", VF + "MultiVolume.from_volume")
        ob("molecule moved by a %s" % tn, "T=%s\nm=Molecule([6,8,1,1],C4,origin=q)\n" % t, "T,C4,q", "z=m.transform(T)", MF + "transform")
        ob("copy of a molecule under a %s" % tn, "T=%s\nm=Molecule([6,8,1,1],C4,origin=q)\nl=[T]\n" % t, "m,T,C4,q,l", "z=m.from_molecule(transformation=l)", MF + "from_molecule")
        ob("sequence given a %s" % tn, "T=%s\nl=[T,Translation(p)]\n" % t, "l,T", "z=MultiTransform(l)\nz.add_transform(Translation(q))\nx=z.applyTransformation(P)", TF + "MultiTransform")
    for nm, mk, a in [("translation", "Translation(t)", "t"), ("map", "MatrixTransform(M,origin=q)", "M,q"), ("reflection", "Reflection(b)", "b,n,q"), ("inversion", "Inversion(origin=q)", "q"), ("rotation", "Rotation(M,origin=q)", "M,q")]:
        ob("making a %s" % nm, "b=Plane(n,q)\n", a, "z=" + mk, TF + "__init__")
    # rotation helpers -------------------------------------------------------------
    for nm, call, a in [("vector to vector", "rot_vtv(X,w)", "X,w"), ("vector to vector, columns", "rot_vtv(X.reshape(3,1),w.reshape(3,1))", "X,w"), ("about a vector", "rot_v(w,th)", "w"),
                        ("ordered sets", "rot_align(M,H)", "M,H"), ("Euler angles", "rot_zxz(th,k,r)", "X"), ("vector angle", "vangle(X,w)", "X,w")]:
        ob("rotation helper: " + nm, "", a, "z=" + call, TF + "rotation helpers")
    ob("surface to surface alignment", "a=Plane(n,p)\nb=Plane(w,q)\n", "a,b,n,w,p,q,X,t", "z=s2s_alignment(a,b,X,t)", TF + "s2s_alignment", hook=c11b.rots)
    ob("surface to surface alignment, keywords", "a=Plane(n,p)\nb=Plane(w,q)\nv=[X,t]\n", "a,b,n,w,p,q,X,t,v", "z=s2s_alignment(M_plane=a,T_plane=b,T_point=v[0],M_point=v[1])", TF + "s2s_alignment", hook=c11b.rots)
    # surfaces ----------------------------------------------------------------------
    for s, mk in SURF:
        ob("%s: making" % s, "", "n,p", "z=" + mk, AF + "__init__")
        for nm, x in (("points", "P"), ("a view", "P[:,::1]"), ("rows", "P[::2]"), ("one point", "P[:1]"), ("a point", "P[2]"), ("turned points", "P[::-1]"), ("a transposed array", "H.T"), ("no points", "P[:0]")):
            ob("%s: interior of %s" % (s, nm), "a=%s\ny=%s\n" % (mk, x), "a,y,P,n,p", "z=a.checkIfInterior(y)", AF + "checkIfInterior")
        ob("%s: its parameters" % s, "a=%s\n" % mk, "a,n,p", "z=a.params", AF + "params")
        ob("%s: its copy" % s, "a=%s\n" % mk, "a,n,p", "z=a.from_alg_object()", AF + "from_alg_object")
    for q_ in ("sdist_from_plane", "dist_from_plane", "project_point"):
        for nm, x in (("a point", "X"), ("points", "P")):
            ob("plane: %s of %s" % (q_, nm), "a=Plane(n,p)\n", "a,n,p,X,P", "z=a.%s(%s)" % (q_, x), AF + q_)
    ob("plane: flipping", "a=Plane(n,p)\n", "n,p", "z=a.flip_orientation()", AF + "flip_orientation")
    ob("cylinder: bounding box", "a=Cylinder(n,p,r,L)\n", "a,n,p", "z=a.get_bounding_box()", AF + "Cylinder.get_bounding_box")
    for tn, t in TRS[:3]:
        for nm, x in (("one point", "P[:1]"), ("a point", "P[2]"), ("turned points", "P[::-1]"), ("a transposed array", "H.T"), ("no points", "P[:0]")):
            ob("%s applied to %s, by view" % (tn, nm), "T=%s\ny=%s\n" % (t, x), "y,P,H,T", "z=T.applyTransformation(y)", TF + "applyTransformation")
    for nm, x in (("rows", "P[::2]"), ("turned points", "P[::-1]"), ("a slice", "P[1:]")):
        ob("planes of the hull of %s" % nm, "y=%s\n" % x, "y,P", "z=convex_hull_to_planes(y)", AF + "convex_hull_to_planes")
    ob("planes of a hull", "", "P", "z=convex_hull_to_planes(P)", AF + "convex_hull_to_planes")
    ob("bounding region of planes", "l=[Plane(n,p),Plane(w,q),Plane(X,p),Plane(t,q)]\n", "l,n,p,w,q,X,t", "from czone.volume.algebraic import get_bounding_box\nz=get_bounding_box(l)", AF + "get_bounding_box")
    ob("plane snapped to a point", "g=Generator(structure=S,origin=p)\nm=(1,1,1)\n", "g,X,p,S,S_m", "z=snap_plane_near_point(X,g,m)", AF + "snap_plane_near_point")
    ob("plane snapped to a point, list of indices", "g=Generator(structure=S,origin=p)\nm=[1,1,0]\n", "g,X,p,S,m", "z=snap_plane_near_point(X,g,m,mode='floor')", AF + "snap_plane_near_point")
    # strain -------------------------------------------------------------------------
    for nm, mk, a in [("homogeneous", "HStrain(H)", "H"), ("homogeneous, vector", "HStrain(X)", "X"), ("homogeneous about a point", "HStrain(H,origin=q)", "H,q"),
                      ("homogeneous, standard", "HStrain(H,origin=q,mode='standard')", "H,q"), ("inhomogeneous", "IStrain(lambda x,basis:x*2,origin=q)", "q"),
                      ("inhomogeneous with options", "IStrain(lambda x,s,basis:x*s,origin=q,s=k)", "q")]:
        ob("strain, %s: points" % nm, "f=%s\nf.scrape_params(Generator(structure=S,origin=p))\n" % mk, "f,P," + a, "z=f.apply_strain(P)", SF + "apply_strain")
        ob("strain, %s: a view of points" % nm, "f=%s\nf.scrape_params(Generator(structure=S,origin=p))\ny=P[1:4]\n" % mk, "f,P,y," + a, "z=f.apply_strain(y)", SF + "apply_strain")
        ob("strain, %s: generator" % nm, "f=%s\ng=Generator(structure=S,origin=p)\n" % mk, "g,S,p," + a, "z=f.scrape_params(g)", SF + "scrape_params")
        ob("strain, %s: making" % nm, "", "S,P," + a, "z=%s" % mk, SF + "__init__")
        ob("strain, %s: given to a generator" % nm, "f=%s\n" % mk, "f,S,p," + a, "z=Generator(structure=S,origin=p,strain_field=f)", GF + "__init__")
    ob("strain: function options", "o={'s':k}\nf=lambda x,s,basis:x*s\n", "o,P", "z=IStrain(f,**o)\nz.fun_kwargs=o\nz.scrape_params(Generator(structure=S))\ny=z.apply_strain(P)", SF + "fun_kwargs")
    # generators -----------------------------------------------------------------------
    for nm, mk in [("crystal", "Generator(structure=S,origin=p)"), ("moved crystal", "Generator(structure=S,origin=p).from_generator(transformation=[Translation(t)])"),
                   ("strained crystal", "Generator(structure=S,origin=p,strain_field=HStrain(H))"), ("null", "NullGenerator()")]:
        ob("generator, %s: atoms for a region" % nm, "g=%s\nB=np.array([[0,0,0],[1.,1,1]])@S_m\n" % mk, "S,S_m,S_fc,p,t,B", "z=g.supply_atoms(B)", GF + "supply_atoms")
        ob("generator, %s: copy" % nm, "g=%s\n" % mk, "g,S,p,t", "z=g.from_generator()", GF + "from_generator")
        ob("generator, %s: copy with another structure" % nm, "g=%s\n" % mk, "g,S,S2,p", "z=g.from_generator(structure=S2)", GF + "from_generator")
    ob("generator: edits", "e=PostSequence([ChemicalSubstitution([6],[7],0.5)])\n", "e,S,p", "z=Generator(structure=S,origin=p)\nz.post_transform=e\ny=z.from_generator()", GF + "__init__")
    ob("amorphous generator: making", "", "p", "z=AmorphousGenerator(origin=p)", GF + "AmorphousGenerator.__init__")
    ob("voxel: making", "from czone.volume.voxel import Voxel\n", "M,p,X", "z=Voxel(M,X,p)", "czone/volume/voxel.py Voxel.__init__")
    for nm, b in (("points", "P"), ("two corners", "Q"), ("a view", "P[1:]")):
        ob("voxel: extents over %s" % nm, "from czone.volume.voxel import Voxel\nv=Voxel(M,origin=p)\nB=%s\n" % b, "v,B,P,Q,M,p", "z=v.get_extents(B)", "czone/volume/voxel.py get_extents")
    ob("voxel: generator structure", "from czone.volume.voxel import Voxel\n", "M,S,S_m", "z=Generator(structure=S,origin=p).voxel.get_extents(P)", "czone/volume/voxel.py get_extents")
    # volumes ----------------------------------------------------------------------------
    V4 = "a=Sphere(r,p)\nb=Plane(n,q)\ng=Generator(structure=S,origin=p)\nl=[a,b]\n"
    for nm, mk in [("points", "Volume(points=P,generator=g)"), ("surfaces", "Volume(alg_objects=l,generator=g)"), ("points and surfaces", "Volume(points=P,alg_objects=l,generator=g)")]:
        ob("volume of %s: making" % nm, V4, "P,a,b,g,l,p,n,q,S", "v=" + mk, VF + "__init__")
        W = V4 + "v=%s\n" % mk
        for q_, x in (("interior of points", "checkIfInterior(P2)"), ("interior of a view", "checkIfInterior(P2[1:4])"), ("interior of a point", "checkIfInterior(X)"), ("interior of one point", "checkIfInterior(P2[:1])"), ("interior of a row", "checkIfInterior(P2[0])"), ("interior of turned points", "checkIfInterior(P2[::-1])"), ("bounding region", "get_bounding_box()"),
                      ("copy", "from_volume()"), ("copy with points", "from_volume(points=P2)"), ("copy with surfaces", "from_volume(alg_objects=l)"), ("copy with a generator", "from_volume(generator=g)")):
            ob("volume of %s: %s" % (nm, q_), W, "v,P,P2,X,a,b,g,l,p,n,q,S", "z=v." + x, VF + x.split("(")[0])
        ob("volume of %s: points added" % nm, W, "P,P2,a,b,g,l", "z=v.addPoints(P2)", VF + "addPoints")
        ob("volume of %s: surface added" % nm, W + "s=Sphere(k,q)\n", "P,a,b,g,l,s,q", "z=v.add_alg_object(s)", VF + "add_alg_object")
        ob("volume of %s: generator added" % nm, W, "P,a,b,g,l", "z=v.add_generator(g,origin=t)", VF + "add_generator")
        ob("multivolume with a volume of %s: interior" % nm, W + "w_=Volume(points=P2)\nm=MultiVolume([v,w_])\n", "m,v,w_,P,P2", "z=m.checkIfInterior(P2[:2])", VF + "MultiVolume.checkIfInterior")
        ob("multivolume with a volume of %s: copy" % nm, W + "w_=Volume(points=P2)\nu=[v,w_]\nm=MultiVolume(u)\n", "m,u,v,w_,P,P2", "z=m.from_volume()", VF + "MultiVolume.from_volume")
        ob("multivolume with a volume of %s: making" % nm, W + "w_=Volume(points=P2)\nu=[v,w_]\n", "u,v,w_,P,P2", "m=MultiVolume(u)\nm.add_volume(Volume())", VF + "MultiVolume.__init__")
        ob("multivolume with a volume of %s: several volumes added" % nm, W + "w_=Volume(points=P2)\nu=[v,w_]\nm=MultiVolume([Volume()])\n", "u,v,w_,P,P2", "m.add_volume(u)", VF + "MultiVolume.add_volume")
    # molecules ------------------------------------------------------------------------
    MK = "m=Molecule([6,8,1,1],C4,origin=q)\n"
    ob("molecule: making", "s=[6,8,1,1]\n", "s,C4,q", "m=Molecule(s,C4,origin=q)", MF + "__init__")
    ob("molecule: making with an orientation", "s=np.array([6,8,1,1])\n", "s,C4,q,M", "m=Molecule(s,C4,origin=q)\nm.orientation=np.eye(3)", MF + "__init__")
    for nm, call in [("atoms set", "m.set_atoms(s,y)"), ("positions updated", "m.update_positions(y)"), ("species updated", "m.update_species(s)"), ("atoms removed", "m.remove_atoms(l)"), ("atoms removed and returned", "z=m.remove_atoms(l)"),
                     ("origin set", "m.set_origin(point=t)"), ("origin tracked", "m.set_origin(idx=1)"), ("interior", "z=m.checkIfInterior(P)"), ("moved after update", "m.update_positions(y)\nm.transform(Translation(t))"),
                     ("copy", "z=m.from_molecule()"), ("copy with arguments", "z=m.from_molecule(origin=t)"), ("turned after atoms set", "m.set_atoms(s,y)\nm.transform(MatrixTransform(M))")]:
        ob("molecule: " + nm, MK + "y=C4+q\ns=np.array([1,1,1,1])\nl=[1,2]\n", ("m," if nm.startswith(("interior", "copy")) else "") + "C4,q,y,s,l,t,P", call, MF + "Molecule")
    # measures and packing ------------------------------------------------------------------
    ob("distance function", "dims=d\n", "dims,d", "f=get_sdist_fun(d,px=True,py=True,pz=False)\nz=f(P,P2)", ME + "get_sdist_fun")
    ob("distances of sets", "f=get_sdist_fun(d,px=True)\n", "P,P2,d", "z=f(P,P2)\ny=f(P2,P)", ME + "get_sdist_fun")
    ob("distances in open space", "f=get_sdist_fun()\n", "P,P2,X", "z=f(P,P2)", ME + "get_sdist_fun")
    for per in ("", ",px=False", ",py=False,pz=False"):
        ob("radial distribution%s" % per, "", "Q", "z=calc_rdf(Q,cutoff=k%s)" % per, ME + "calc_rdf", hook=grid)
        ob("voxel grid%s" % per, "g=[2,3,2]\n", "g", "z=get_voxel_grid(g%s)" % per, ME + "get_voxel_grid")
    GA = "czone/generator/amorphous_algorithms.py "
    for f in ("gen_p_substrate", "gen_p_substrate_batched"):
        ob(f, "g=[k,L,r]\n", "g", "z=%s(g,min_dist=k)" % f, GA + f)
        ob(f + ", array", "", "d", "z=%s(d,min_dist=k)" % f, GA + f)
    ob("packing: periodic distances", "from czone.generator.amorphous_algorithms import get_p_dist,get_p_dist_batch,get_voxels\n", "P,Q,X,d",
       "z=get_p_dist(P,Q[:1],d)\ny=get_p_dist_batch(P,Q,d,k)\nu=get_voxels(k,d)", GA + "get_p_dist")
    # edits ------------------------------------------------------------------------------------
    PO = "czone/transform/post.py "
    for nm, mk in [("substitution", "ChemicalSubstitution([6,8],[7,9],0.5)"), ("tuples", "ChemicalSubstitution((6,8),(7,9),0.5)"),
                   ("function", "ArbitraryPostTransform(lambda x,s,**k:(x,s))"), ("sequence", "PostSequence([ChemicalSubstitution([6],[7],0.5),ChemicalSubstitution([8],[9],0.25)])")]:
        ob("edit, %s: applied" % nm, "e=%s\n" % mk, "e,P,Z", "z=e.apply_function(P,Z)", PO + "apply_function")
        ob("edit, %s: applied to a view" % nm, "e=%s\ny=P[1:3]\nw=Z[1:3]\n" % mk, "e,P,Z,y,w", "z=e.apply_function(y,w)", PO + "apply_function")
        ob("edit, %s: applied with a seed" % nm, "e=%s\n" % mk, "e,P,Z", "z=e.apply_function(P,Z,seed=3)", PO + "apply_function")
    ob("edit sequence: making", "l=[ChemicalSubstitution([6],[7],0.5)]\n", "l", "z=PostSequence(l)\nz.add_transform(ChemicalSubstitution([8],[9],0.5))", PO + "PostSequence")
    ob("edit: substitution lists", "a=[6,8]\nb=[7,9]\nf=0.5\n", "a,b,P,Z", "z=ChemicalSubstitution(a,b,f)\ny=z.apply_function(P,Z)", PO + "ChemicalSubstitution")
    # helpers and alternative constructors ---------------------------------------------------------
    for nm, mk, call in (("centre", "", "makeRectPrism(k,L,r,center=q)"), ("list centre", "l=[k,L,r]\n", "makeRectPrism(k,L,r,center=l)"), ("array dimensions", "", "makeRectPrism(X,X,X,center=q)")):
        ob("rectangular prism, " + nm, mk, "q,X" + (",l" if mk else ""), "z=" + call, VF + "makeRectPrism")
    for nm, mk, a in (("lists", "zz=[6,8]\nfc=[[0,0,0],[.5,.5,.5]]\ncd=[k,L,r]\nca=[90,90,90]\n", "zz,fc,cd,ca,p"), ("arrays", "zz=np.array([6,8])\nfc=P[:2]\ncd=d\nca=X\n", "zz,P,d,X,p")):
        ob("generator from a unit cell, " + nm, mk, a, "z=Generator.from_unit_cell(zz,fc,cd,ca,origin=p)", GF + "from_unit_cell")
        ob("generator from a space group, " + nm, mk, a, "z=Generator.from_spacegroup(zz,fc,cd,ca,sgn=225,origin=p)", GF + "from_spacegroup")
        ob("generator from a space group symbol, " + nm, mk, a, "z=Generator.from_spacegroup(zz,fc,cd,ca,sym='Fm-3m')", GF + "from_spacegroup")
    ob("amorphous generator: atoms for a region", "g=AmorphousGenerator(origin=p,min_dist=k,density=L)\n", "Q,p", "z=g.supply_atoms(Q)", GF + "AmorphousGenerator.supply_atoms")
    for tn, t in TRS:
        ob("amorphous generator moved by a %s" % tn, "T=%s\n" % t, "T,p", "z=AmorphousGenerator(origin=p)\nz.transform(T)", GF + "AmorphousGenerator.transform")
        ob("multivolume moved by a %s" % tn, "T=%s\na=Sphere(r,p)\nv=Volume(points=P,alg_objects=[a])\nu=[v]\n" % t, "T,P,a,p,u", "m=MultiVolume([Volume(points=P,alg_objects=[a])])\nm.transform(T)", VF + "MultiVolume.transform")
    c11b.run(c, ob, keeps, env, POS, both)
