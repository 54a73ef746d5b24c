"""wulffpack as the package uses it: a particle is determined by its kind, its energies (a mapping), its primitive
structure, its size and, where it has them, its interface or twin energy; it has two forms of two and one facets,
each facet an unknown unit normal and an unknown positive distance that depend on the particle alone."""
from sa import dom
from sa.check import arrty as A
from sa.vfg import K, N
from . import common as cm

PARAMS = {"SingleCrystal": ("surface_energies", "primitive_structure", "natoms", "symprec", "tol", "symmetry_operations"),
          "Winterbottom": ("surface_energies", "interface_direction", "interface_energy", "primitive_structure", "natoms", "symprec", "tol"),
          "Decahedron": ("surface_energies", "twin_energy", "primitive_structure", "natoms", "symprec", "tol"),
          "Icosahedron": ("surface_energies", "twin_energy", "primitive_structure", "natoms", "symprec", "tol")}
DEFAULT = {"natoms": dom.rconst(1000), "symprec": dom.rconst(0), "tol": dom.rconst(0), "primitive_structure": None, "symmetry_operations": None}
FACETS = (2, 1)


def plain(x):
    """data only: no uninterpreted application inside"""
    if isinstance(x, dom.Op):
        return x.head == "AseAtoms" and all(plain(y) for y in x.args)
    if isinstance(x, dom.T):
        return all(plain(y) for y in x.data)
    if isinstance(x, dom.Seq):
        return all(plain(y) for y in x.items)
    if isinstance(x, tuple):
        return all(plain(y) for y in x)
    return not dom.has_unk(x)


def norm(x):
    if isinstance(x, dom.Seq) and x.kind == "dict":
        return dom.Seq("dict", sorted(((norm(k), norm(v)) for k, v in x.items), key=lambda t: repr(dom.fp(t[0]))))
    if isinstance(x, dom.Seq) and all(not isinstance(y, (dom.Op, tuple)) for y in x.items):
        try:
            return dom.arr(x)
        except Exception:
            return x
    return x


def particle(kind):
    ps = PARAMS[kind]

    def f(ev, a, k):
        v = dict(DEFAULT)
        v.update(zip(ps, a))
        v.update(k)
        if set(v) - set(ps) and set(v) - set(ps) - set(DEFAULT) or any(p not in v for p in ps):
            return NotImplemented
        args = []
        for p in ps:
            x = norm(v[p])
            if x is not None and not plain(x):
                return NotImplemented
            args.append((p, x))
        return dom.Op("Particle", (kind,) + tuple(args))
    return f


def f_atoms(ev, a, k):
    ps = ("symbols", "positions", "numbers", "tags", "momenta", "masses", "magmoms", "charges", "scaled_positions", "cell", "pbc")
    v = dict(zip(ps, a))
    v.update(k)
    v.pop("pbc", None)
    out = []
    for p in sorted(v):
        x = norm(v[p]) if v[p] is not None else None
        if x is None:
            continue
        if not plain(x):
            return NotImplemented
        out.append((p, x))
    return dom.Op("AseAtoms", tuple(out))


def f_facet(ev, a, k):
    return dom.Op("Facet", tuple(a)) if isinstance(a[0], dom.Op) and a[0].head == "Particle" else NotImplemented


def sym(*key, sign=None):
    return dom.fatom("facet", key, sign=sign)


def a_normal(ev, v):
    if not (isinstance(v, dom.Op) and v.head == "Facet"):
        return NotImplemented
    p, q = sym("u", *v.args), sym("v", *v.args)
    s = dom.sadd(dom.smul(p, p), dom.smul(q, q))
    den = dom.sadd(dom.rconst(1), s)
    two = dom.rconst(2)
    return dom.T((3,), [dom.sdiv(dom.smul(two, p), den), dom.sdiv(dom.smul(two, q), den), dom.sdiv(dom.ssub(dom.rconst(1), s), den)])


def a_dist(ev, v):
    return sym("distance", *v.args, sign=None) if isinstance(v, dom.Op) and v.head == "Facet" else NotImplemented


def a_areas(ev, v):
    return sym("areas", v) if isinstance(v, dom.Op) and v.head == "Particle" else NotImplemented


def given(normals):
    """the models, with the facets' normals known: {index: constant vector}"""
    def normal(ev, v):
        if not (isinstance(v, dom.Op) and v.head == "Facet"):
            return NotImplemented
        i = v.args[1]
        n = normals.get(int(i.const()) if hasattr(i, "const") else i)
        if n is None:
            return NotImplemented
        x = dom.T((3,), [dom.rconst(q) for q in n])
        s = dom.ssqrt(dom.rconst(sum(q * q for q in n)))
        return dom.T((3,), [dom.sdiv(q, s) for q in x.data])
    return {"methods": MODELS["methods"], "functions": MODELS["functions"], "attrs": dict(MODELS["attrs"], normal=normal)}


MODELS = {"methods": {}, "functions": {"wulffpack." + k: particle(k) for k in PARAMS}, "attrs": {"normal": a_normal, "distance_from_origin": a_dist, "facet_fractions": a_areas}}
MODELS["functions"]["ase.Atoms"] = f_atoms
MODELS["functions"]["wulffpack.core.Facet"] = f_facet


def is_particle(b):
    return b.op == "phi" or b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] in ["wulffpack." + k for k in PARAMS]


def HOOKS(e):
    def facets(b):
        return [[N("call", N("ext", "wulffpack.core.Facet"), (b, K(10 * i + j)), ()) for j in range(n)] for i, n in enumerate(FACETS)]

    def yield_facets(en, b, pos, kw, st, ex):
        if not is_particle(b) or pos and not (pos[0].op == "k" and not pos[0].args[0]):
            return NotImplemented
        return N("tup", *sum(facets(b), []))

    def forms(en, b, st):
        if not is_particle(b):
            return NotImplemented
        return N("tup", *[N("call", N("ext", "wulffpack.core.Form"), (b, K(i)), ()) for i in range(len(FACETS))])

    def form_facets(en, b, st):
        if b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] == "wulffpack.core.Form":
            p, i = b.args[1]
            return N("tup", *facets(p)[i.args[0]])
        return NotImplemented

    def original(en, b, st):
        return K(True) if b.op == "call" and b.args[0].op == "ext" and b.args[0].args[0] == "wulffpack.core.Facet" else NotImplemented
    e.mhooks["_yield_facets"] = yield_facets
    e.ahooks["forms"] = forms
    e.ahooks["facets"] = form_facets
    e.ahooks["original_grain"] = original

    def primitive(en, b, pos, kw, st, ex):
        if b.op == "sym" and b.args[0] in ("S", "S2") and not pos and not kw:
            return PRIM[b.args[0]](st, en)
        return NotImplemented
    e.mhooks["get_primitive_structure"] = primitive


PRIM = {}


def env():
    """two unknown structures, their primitive cells, and the scalars of the drivers"""
    en0, setups = {}, []
    for s in ("S", "S2"):
        a, b = cm.structure(s, 2)
        p, q = cm.structure(s + "p", 1)
        en0.update(a)
        en0.update(p)
        en0[s + "p_cc"] = A(1, 3)
        setups += [b, q]

    def setup(e, en):
        h = {}
        for x in setups:
            h.update(x(e, en))
        for s in ("S", "S2"):
            h[(en[s + "p"], "cart_coords")] = en[s + "p_cc"]
            PRIM[s] = lambda st, eng, n=en[s + "p"]: n
        return h
    en0.update(e1="float", e2="float", e3="float", n1="int", n2="int", g1="float", g2="float", X=A(2, 3))
    return en0, setup


def spec_particle(ev, kind, struct, energies, natoms, interface=None, interface_energy=None):
    """the particle that the named inputs determine"""
    from sa.vfg import SYM
    p = struct + "p"
    atoms = f_atoms(ev, [], {"positions": ev.ev(SYM(p + "_cc", A(1, 3))), "cell": ev.ev(SYM(p + "_m", A(3, 3)))})
    k = {"surface_energies": energies, "primitive_structure": atoms, "natoms": natoms}
    if kind == "Winterbottom":
        k.update(interface_direction=interface, interface_energy=interface_energy)
    return particle(kind)(ev, [], k)


def spec_facets(particle_):
    out = []
    for i, n in enumerate(FACETS):
        for j in range(n):
            f = dom.Op("Facet", (particle_, dom.rconst(10 * i + j)))
            out.append((a_normal(None, f), a_dist(None, f)))
    return out
