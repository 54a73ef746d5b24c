"""Effects of the constructions that reach other libraries: population and export, prefabricated objects, Wulff constructions,
surface analysis and adsorbates."""
import itertools

from sa import dom
from sa.check import arrty as A
from sa.vfg import K, N, SYM
from . import c05, c15, c22, common as cm, wulffmodel as wm


def quiet_hooks(e):
    def pop(en, b, pos, kw, st, ex):
        while b.op in ("copy", "shallow"):
            b = b.args[0]
        return K(None) if b.op == "sym" else NotImplemented
    e.mhooks["populate_atoms"] = pop
    e.mhooks["supply_atoms"] = c05.supply()
    for n in ("ase.io.write", "ase.io.formats.write"):
        e.fhooks[n] = lambda en, pos, kw, st, ex: K(None)


def prefab_hooks(e):
    e.ihooks["get_N_splits"] = c22.Split()
    cnt = itertools.count()

    def rand(en, pos, kw, st, ex):
        if pos or kw:
            return NotImplemented
        u = SYM("draw%d" % next(cnt), "float")
        return N("bin", "/", u, N("bin", "+", K(1), u))
    for f in ("numpy.random.rand", "numpy.random.random"):
        e.fhooks[f] = rand


def rots(e):
    """the rotation helpers return matrices of their own; their effects are decided on their own"""
    cnt = itertools.count()

    def mat(en, pos, kw, st, ex):
        return N("call", N("ext", "numpy.array"), (SYM("rot%d" % next(cnt), A(3, 3)),), ())
    e.ihooks["rot_vtv"] = mat
    e.ihooks["rot_v"] = mat
    e.ihooks["rot_align"] = mat


def ads_hooks(e):
    """surface analysis of an adsorption is a value: indices, triangulation, neighbours and normal"""
    def shape(en, pos, kw, st, ex):
        d = N("dictc", *[(K(k), SYM("shape_" + k, t)) for k, t in (("tri", ("ext", "scipy.spatial.Delaunay")), ("surface_tris", A(4)), ("a_tris", A(4)))])
        return N("tup", SYM("surf", ("arr", (3,))), d)
    e.ihooks["alpha_shape_alg_3D"] = shape
    e.ihooks["alpha_shape_alg_3D_with_sampling"] = shape
    rots(e)
    e.ihooks["get_nearest_neighbors"] = lambda en, pos, kw, st, ex: SYM("nn", ("arr", (3,)))
    e.ihooks["find_approximate_normal"] = lambda en, pos, kw, st, ex: SYM("nrm", A(3))


def run(c, ob, keeps, env, assume, setup):
    SC, VF, PF, WF, AD, AL, ME = ("czone/scene/scene.py ", "czone/volume/volume.py ", "czone/prefab/prefab.py ", "czone/prefab/wulff.py ", "czone/surface/adsorbate.py ",
                                  "czone/surface/alpha_shape.py ", "czone/util/measure.py ")
    B, GEN = c.p.cls("BaseVolume"), c.p.cls("BaseGenerator")
    # population and export ---------------------------------------------------------
    e1 = dict(A=("opq", B), B=("opq", B), g=("opq", GEN), X=A(5, 3), bd=A(2, 3), fn="str", x="float", P=A(4, 3), Q=A(3, 3), t=A(3), p=A(3), r="float", f="fn")

    def atoms(e, en):
        h = {}
        for o, (p, n, pr) in {"A": ("P", 4, 1), "B": ("Q", 3, 2)}.items():
            h[(en[o], "atoms")] = en[p]
            h[(en[o], "species")] = SYM("species" + o, ("arr", (n,)))
            h[(en[o], "priority")] = K(pr)
        return h
    S = "s=Scene(bounds=bd,objects=l)\n"
    for nm, mk, args, call in [
            ("scene: making", "l=[A,B]\n", "bd,l,A,B", S), ("scene: object added", "l=[A]\n" + S, "bd,l,A,B", "s.add_object(B)"), ("scene: bounds assigned", "l=[A]\n" + S, "bd,l,A,Q", "s.bounds=Q[:2]"),
            ("scene: population", "l=[A,B]\n" + S, "bd,l", "s.populate()"), ("scene: members at population", "l=[A,B]\n" + S, "l,P,Q,A,B", "s.populate()\nz=s.all_atoms\ny=s.all_species"),
            ("scene: atoms", "l=[A,B]\n" + S + "s.populate()\n", "s,bd,l,A,B,P,Q", "z=s.all_atoms\ny=s.all_species\nz=s.all_atoms"),
            ("scene: ASE view", "l=[A,B]\n" + S + "s.populate()\n", "s,bd,l,A,B,P,Q", "z=s.ase_atoms"),
            ("scene: species of an object", "l=[A,B]\n" + S + "s.populate()\n", "s,bd,l,A,B,P,Q", "z=s.species_from_object(0)"),
            ("scene: export", "l=[A,B]\n" + S + "s.populate()\no={'format':'xyz','columns':P}\n", "s,bd,l,A,B,P,Q,o", "s.to_file(fn,**o)"),
            ("scene: export with factors", "l=[A,B]\n" + S + "s.populate()\no={'format':'prismatic','debye_waller_factors':{'C':x}}\n", "s,bd,l,A,B,P,Q,o,o['debye_waller_factors']", "s.to_file(fn,**o)"),
            ("scene: export without factors", "l=[A,B]\n" + S + "s.populate()\no={'format':'prismatic'}\n", "s,bd,l,A,B,P,Q,o", "s.to_file(fn,**o)"),
            ("multivolume: population", "l=[A,B]\nm=MultiVolume(l)\n", "l,P,Q,A,B", "m.populate_atoms()"),
            ("multivolume: atoms", "l=[A,B]\nm=MultiVolume(l)\nm.populate_atoms()\n", "m,l,A,B,P,Q", "z=m.atoms\ny=m.species\nx_=m.ase_atoms"),
            ("multivolume: export", "l=[A,B]\nm=MultiVolume(l)\nm.populate_atoms()\no={'format':'prismatic'}\n", "m,l,A,B,P,Q,o", "m.to_file(fn,**o)"),
            ("volume: population", "a=Sphere(r,p)\nv=Volume(points=X,alg_objects=[a],generator=g)\n", "X,a,g,p", "v.populate_atoms()"),
            ("volume: population of surfaces", "a=Sphere(r,p)\nv=Volume(alg_objects=[a],generator=g)\n", "X,a,g,p", "v.populate_atoms()"),
            ("volume: atoms", "v=Volume(points=X,generator=g)\nv.populate_atoms()\n", "X,g,v", "z=v.atoms\ny=v.species\nx_=v.ase_atoms"),
            ("volume: export", "v=Volume(points=X,generator=g)\nv.populate_atoms()\no={'format':'prismatic'}\n", "X,g,v,o", "v.to_file(fn,**o)"),
            ("volume: population after a query", "v=Volume(points=X,generator=g)\n", "X,g,P", "z=v.checkIfInterior(P)\nv.populate_atoms()\nz=v.checkIfInterior(P)")]:
        keeps(c, nm, mk, args, call, e1, {"r": "pos"}, atoms, VF if nm.startswith(("v", "m")) else SC, hook=quiet_hooks, models=c15.MODELS)
    # a molecule handed out by an opaque host, and amorphous blocks ------------------------
    # prefabricated objects ---------------------------------------------------------------------
    e2, s2 = cm.structure("S", 1)
    e2.update(o=A(3), q=A(3), n=A(3), p=A(3), rf="float")

    def cubic(e, en):
        h = s2(e, en)
        for k in list(h):
            if k[1] == "matrix":
                h[k] = N("call", N("ext", "numpy.array"), (N("tup", *[N("tup", *[K(4.0 if i == j else 0.0) for j in range(3)]) for i in range(3)]),), ())
        return h
    models = {"methods": dict(cm.GEO["methods"], d_hkl=c22.spacing([[4, 0, 0], [0, 4, 0], [0, 0, 4]])), "functions": cm.GEO["functions"], "attrs": cm.GEO["attrs"]}
    BOX = "np.array([[x,y,z] for x in (0.,40.) for y in (0.,40.) for z in (0.,40.)])+q*0"
    PRE = "g=Generator(structure=S,origin=o)\nb=%s\nu=Volume(points=b,generator=g)\n" % BOX
    for cls, extra in (("fccMixedTwinSF", "N=2,min_sep=2,plane=h,ratio=0.5"), ("fccStackingFault", "N=1,min_sep=2,plane=h"), ("fccTwin", "N=1,min_sep=2,plane=h"), ("wurtziteStackingFault", "N=1,min_sep=2")):
        mk = PRE + "h=(1,1,1)\n"
        keeps(c, cls + ": making", mk, "g,b,u,h,o,S", "w=%s(generator=g,volume=u,%s)" % (cls, extra), e2, {}, cubic, PF + cls, hook=prefab_hooks, models=models)
        for opt in ("", "return_defect_types=True"):
            if opt and cls != "fccMixedTwinSF":
                continue
            keeps(c, "%s: built %s" % (cls, opt), mk + "w=%s(generator=g,volume=u,%s)\n" % (cls, extra), "g,b,u,h,o,S,w", "z=w.build_object(%s)" % opt, e2, {}, cubic, PF + cls + ".build_object",
                  hook=prefab_hooks, models=models)
    mk = PRE + "a=Plane(n,p)\n"
    keeps(c, "grain boundary: making", mk + "z1=[1,0,0]\nz2=[1,1,0]\n", "g,b,u,o,S,a,n,p,z1,z2", "w=SimpleGrainBoundary(z1,rf,z2,rf,plane=a,volume=u,generator=g)", e2, {"n": "nonzero"}, cubic, PF + "SimpleGrainBoundary",
          hook=prefab_hooks, models=models)
    keeps(c, "grain boundary: built", mk + "z1=[1,0,0]\nz2=[1,1,0]\nw=SimpleGrainBoundary(z1,rf,z2,rf,plane=a,volume=u,generator=g)\n", "g,b,u,o,S,a,n,p,z1,z2,w", "z=w.build_object()", e2, {"n": "nonzero"}, cubic,
          PF + "SimpleGrainBoundary.build_object", hook=prefab_hooks, models=models)
    # Wulff constructions -----------------------------------------------------------------------
    e3, s3 = wm.env()
    e3.update(o=A(3))
    asm = dict(e1="pos", e2="pos", e3="pos", n1="pos")
    pre = "g=Generator(structure=S,origin=o)\nd={(1,1,1):e1,(1,0,0):e2}\n"
    keeps(c, "Wulff single: making", pre, "g,S,d,o", "w=WulffSingle(generator=g,surface_energies=d,natoms=n1)", e3, asm, s3, WF + "WulffSingle", hook=wm.HOOKS, models=wm.MODELS)
    for nm, call in (("construction", "w.get_construction()"), ("construction and areas", "w.get_construction(return_facet_areas=True)"), ("areas", "w.get_areas()"), ("particle", "w.wulff"),
                     ("winterbottom", "w.winterbottom((0,0,1),e3)")):
        keeps(c, "Wulff single: " + nm, pre + "w=WulffSingle(generator=g,surface_energies=d,natoms=n1)\n", "g,S,d,o", "z=" + call, e3, asm, s3, WF + "WulffSingle", hook=wm.HOOKS, models=wm.MODELS)
    for sh in ("cube", "cuboctohedron", "octohedron", "truncated_octohedron"):
        keeps(c, "Wulff shape: " + sh, pre, "g,S,o", "z=WulffSingle.%s(g,natoms=n1)" % sh, e3, asm, s3, WF + "WulffSingle." + sh, hook=wm.HOOKS, models=wm.MODELS)
    for cls in ("WulffDecahedron", "WulffIcosahedron"):
        keeps(c, "%s: making" % cls, pre, "g,S,d,o", "w=%s(generator=g,surface_energies=d,twin_energy=e3,natoms=n1)" % cls, e3, asm, s3, WF + cls, hook=wm.HOOKS, models=wm.MODELS)
    # surface analysis and adsorbates --------------------------------------------------------------
    e4 = dict(P=A(5, 3), T=A(2, 4, 3), k="float", C4=A(4, 3), b="float", th="float", v=A(3), q=A(3), X=A(6, 3), sp=A(5), H=("opq", B), msk=("arr", (5,)), idx=("arr", (2,)), f="fn", ti="int", d=A(2),
              tri=("ext", "scipy.spatial.Delaunay"))
    asm = {"k": "pos", "b": "pos", "v": "nonzero"}

    def host(e, en):
        return {(en["H"], "atoms"): en["P"], (en["H"], "species"): en["sp"]}
    keeps(c, "circumradii", "", "T", "z=tetrahedron_circumradii(T)", e4, asm, None, AL + "tetrahedron_circumradii")
    for nm, call in (("indices", "alpha_shape_alg_3D(P,k)"), ("shape", "alpha_shape_alg_3D(P,k,return_alpha_shape=True)"), ("with a random generator", "alpha_shape_alg_3D(P,k,rng=np.random.default_rng(1))"),
                     ("sampled", "alpha_shape_alg_3D_with_sampling(P,k,3)"), ("sampled shape", "alpha_shape_alg_3D_with_sampling(P,k,3,seed=2,return_alpha_shape=True)")):
        keeps(c, "alpha shape: " + nm, "", "P", "z=" + call, e4, asm, None, AL + "alpha_shape_alg_3D")
    keeps(c, "approximate normal", "", "P", "from czone.surface.adsorbate import find_approximate_normal\nz=find_approximate_normal(P)", e4, asm, None, AD + "find_approximate_normal")
    keeps(c, "nearest neighbours", "s={'tri':tri,'surface_tris':d,'a_tris':d}\n", "s,d,tri",
          "from czone.surface.adsorbate import get_nearest_neighbors\nz=get_nearest_neighbors(ti,s)\ny=get_nearest_neighbors(ti,s,surface_only=False)", e4, asm, None, AD + "get_nearest_neighbors")
    for nm, fl in (("no filters", "{}"), ("elements", "{'element':['C',8]}"), ("mask", "{'mask':msk}"), ("indices", "{'indices':idx}"), ("spatial", "{'spatial':lambda x:x[:,2]>b}"),
                   ("several filters", "{'element1':[6],'mask2':msk,'indices3':idx}")):
        for opt in ("", ",use_sampling=False", ",mol_vector=v,mol_rotation=th", ",debug=True"):
            if opt == ",debug=True" and nm != "no filters":
                continue
            keeps(c, "adsorbate, %s%s" % (nm, opt), "from czone.surface.adsorbate import add_adsorbate\nm=Molecule([6,8,1,1],C4,origin=q)\nF=%s\n" % fl, "m,C4,q,H,P,sp,F,v,msk,idx",
                  "z=add_adsorbate(m,1,b,H,filters=F,seed=3%s)" % opt, e4, asm, host, AD + "add_adsorbate", hook=ads_hooks)
