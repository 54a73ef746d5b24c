"""Abstract interpretation of the Wulff constructors against a model of wulffpack in which a particle is a value
determined by its inputs and its facets are unknown unit normals and distances: the interior of the returned
volume is compared with the intersection of exactly those half-spaces, one surface per facet, and the generator
with the one given."""
from sa import dom
from sa.check import HOLDS, VIOLATION, analysed, arrty as A
from sa.vfg import SYM
from .wulffmodel import FACETS, HOOKS, given, MODELS, env as wenv, spec_facets, spec_particle, sym

IDX = [10 * i + j for i, n in enumerate(FACETS) for j in range(n)]


def directions(ds):
    out = []
    for n in ds:
        s = dom.ssqrt(dom.rconst(sum(q * q for q in n)))
        out.append(dom.T((3,), [dom.sdiv(dom.rconst(q), s) for q in n]))
    return out


def run(c):
    e, setup = wenv()
    e.update(o=A(3), hkl=A(3), B=A(3, 3))
    asm = {"e1": "pos", "e2": "pos", "e3": "pos", "n1": "int", "n2": "int", "hkl": "int"}

    def inside(fs):
        src = "v=Volume(alg_objects=[%s])\nreturn v.checkIfInterior(X)" % ",".join("Plane(N%d,N%d*D%d)" % (i, i, i) for i in range(len(fs)))
        en, sub = dict(e), {}
        for i, (n, d) in enumerate(fs):
            en["N%d" % i], en["D%d" % i] = A(3), "float"
            sub["N%d" % i], sub["D%d" % i] = n, d
        r = c.ctx.analyse(src, en, asm, setup, None)
        for k, v in sub.items():
            r.ev.memo[SYM(k, en[k]).nid] = v
        return r.value()

    def part(run, kind, energies, n, interface=None, ie=None, struct="S"):
        en = c.analyse("return " + energies, e, asm, setup).value()
        val = (lambda x: c.analyse("return %s" % x, e, asm, setup).value())
        return spec_particle(run.ev, kind, struct, en, val(n), val(interface) if interface else None, val(ie) if ie else None)

    GENS = [("Generator(structure=S)", "plain generator"), ("Generator(structure=S,origin=o)", "generator with an origin"),
            ("Generator(structure=S2,strain_field=HStrain(matrix=B,mode='standard'))", "strained generator")]
    ES = ["{(1,0,0):e1}", "{(1,1,1):e1,(1,0,0):e2}", "{(1,1,1):e1,(1,0,0):e2,(1,1,0):e3}", "{(1,1,1):1.0,(1,0,0):1.15}"]
    NS = ["n1", "1000", "n1*2"]
    rule = "one bounding plane per facet, at its distance along its normal"

    def volume(name, mk, pf, gen, at):
        """mk: source of the volume; pf(run): its particle"""
        struct = "S2" if "S2" in gen else "S"
        c.eq(name, "v=%s\nreturn v.checkIfInterior(X)" % mk, lambda run: inside(spec_facets(pf(run, struct))), e, asm, at=at, rule=rule, setup=setup, hooks=HOOKS, models=MODELS)
        c.eq(name + ": number of surfaces", "v=%s\nreturn len(v.alg_objects)" % mk, "return 3", e, asm, at=at, rule="one surface per facet", setup=setup, hooks=HOOKS, models=MODELS)
        c.eq(name + ": generator", "v=%s\ng=v.generator\nreturn g.voxel.bases,g.origin,g.species,g.coords,v.points" % mk,
             "g=%s\nreturn g.voxel.bases,g.origin,g.species,g.coords,None" % gen, e, asm, at=at, rule="the generator is the construction's", setup=setup, hooks=HOOKS, models=MODELS)
        c.eq(name + ": strained as given", "v=%s\nf=v.generator.strain_field\nreturn None if f is None else f.matrix" % mk,
             "g=%s\nf=g.strain_field\nreturn None if f is None else f.matrix" % gen, e, asm, at=at, rule="the generator is the construction's", setup=setup, hooks=HOOKS, models=MODELS)

    for gi, (g, gn) in enumerate(GENS):
        for ei, en in enumerate(ES):
            for ni, n in enumerate(NS):
                if not c.thorough and (gi > 0) + (ei > 1) + (ni > 0) > 1:
                    continue
                w = "WulffSingle(generator=%s,surface_energies=%s,natoms=%s)" % (g, en, n)
                nm = "%s, energies %s, size %s" % (gn, en, n)
                pf = (lambda run, s, en=en, n=n: part(run, "SingleCrystal", en, n, struct=s))
                volume("single crystal, " + nm, w + ".get_construction()", pf, g, "WulffSingle.get_construction")
                volume("single crystal with areas, " + nm, w + ".get_construction(return_facet_areas=True)[0]", pf, g, "WulffSingle.get_construction")
                for x in (".get_areas()", ".get_construction(return_facet_areas=True)[1]", ".get_construction(True)[1]"):
                    c.eq("areas%s, %s" % (x, nm), "w=%s\nreturn w%s" % (w, x), (lambda run, pf=pf, g=g: sym("areas", pf(run, "S2" if "S2" in g else "S"))), e, asm,
                         at="WulffSingle.get_areas", rule="the areas of the particle", setup=setup, hooks=HOOKS, models=MODELS)
                for it, ie in (("(1,1,1)", "e3"), ("(0,0,1)", "-e3"), ("(0,1,1)", "0.5*e1")):
                    if not c.thorough and it != "(1,1,1)" and gi + ni:
                        continue
                    pw = (lambda run, s, en=en, n=n, it=it, ie=ie: part(run, "Winterbottom", en, n, it, ie, s))
                    volume("Winterbottom %s %s, %s" % (it, ie, nm), w + ".winterbottom(%s,%s)" % (it, ie), pw, g, "WulffSingle.winterbottom")
                    if it == "(1,1,1)":
                        volume("Winterbottom after a construction, " + nm, "[%s][0].winterbottom(interface=%s,interface_energy=%s)" % (w, it, ie), pw, g, "WulffSingle.winterbottom")
                        c.eq("construction after Winterbottom, " + nm, "w=%s\nw.winterbottom(%s,%s)\nreturn w.get_construction().checkIfInterior(X)" % (w, it, ie),
                             lambda run, pf=pf, g=g: inside(spec_facets(pf(run, "S2" if "S2" in g else "S"))), e, asm, at="WulffSingle.winterbottom", rule=rule, setup=setup, hooks=HOOKS, models=MODELS)
        # ---- facets of known directions: nearly parallel, opposite and repeated ones stay separate surfaces ---
        for dn, ds in (("nearly parallel", [(1, 0, 0), (12, 1, 1), (12, 1, -1)]), ("the three vicinal ones", [(3, 1, 1), (3, -1, 1), (3, 1, -1)]),
                       ("opposite", [(1, 1, 1), (-1, -1, -1), (1, -1, 1)]), ("parallel at other distances", [(0, 0, 1), (0, 0, 1), (0, 1, 0)])):
            mods = given(dict(zip(IDX, ds)))
            pf = (lambda run: part(run, "SingleCrystal", ES[1], "n1", struct="S2" if "S2" in g else "S"))
            c.eq("single crystal with facets %s, %s" % (dn, gn), "v=WulffSingle(generator=%s,surface_energies=%s,natoms=n1).get_construction()\nreturn v.checkIfInterior(X)" % (g, ES[1]),
                 lambda run, ds=ds: inside([(n, d) for n, (_, d) in zip(directions(ds), spec_facets(pf(run)))]), e, asm, at="WulffSingle.get_construction", rule=rule, setup=setup, hooks=HOOKS, models=mods)
        # ---- named shapes: the facet families that make them ---------------------
        for shape, fam in (("cube", ["(1,0,0)"]), ("octohedron", ["(1,1,1)"]), ("cuboctohedron", ["(1,0,0)", "(1,1,1)"]), ("truncated_octohedron", ["(1,0,0)", "(1,1,0)", "(1,1,1)"])):
            for n in ("n1", None):
                mk = "WulffSingle.%s(%s%s)" % (shape, g, "," + n if n else "")
                named(c, e, asm, setup, inside, shape, fam, n, g, gn, mk)
                c.eq("%s of %s: generator (%s)" % (shape, gn, n or "default size"), "v=%s\ng=v.generator\nreturn g.voxel.bases,g.origin,g.species,g.coords,len(v.alg_objects)" % mk,
                     "g=%s\nreturn g.voxel.bases,g.origin,g.species,g.coords,3" % g, e, asm, at="WulffSingle." + shape, rule="the generator is the one given", setup=setup, hooks=HOOKS, models=MODELS)


def named(c, e, asm, setup, inside, shape, fam, n, g, gn, mk):
    """the particle has the families of the shape, the size and the structure; the ratio of energies is the shape's own"""
    def go():
        from sa.compare import verdict, HOLDS as CH, DIFFERS
        from sa.check import UNDECIDED
        seen = []
        models = {"methods": {}, "attrs": dict(MODELS["attrs"]), "functions": dict(MODELS["functions"])}
        base = MODELS["functions"]["wulffpack.SingleCrystal"]

        def rec(ev, a, k):
            r = base(ev, a, k)
            if isinstance(r, dom.Op):
                seen.append(r)
            return r
        models["functions"]["wulffpack.SingleCrystal"] = rec
        r = c.analyse("v=%s\nreturn v.checkIfInterior(X)" % mk, e, asm, setup, HOOKS, models)
        f = c.failures(r)
        if f:
            return VIOLATION, "does not complete: " + f[0][1], [f[0][0]] + analysed(r)
        v = r.value()
        seen = {repr(dom.fp(x)): x for x in seen}
        if len(seen) != 1:
            return UNDECIDED, "%d particles" % len(seen), analysed(r)
        p = list(seen.values())[0]
        args = dict(x for x in p.args[1:])
        en = args["surface_energies"]
        keys = sorted(repr(dom.fp(dom.arr(k))) for k, _ in en.items)
        want = sorted(repr(dom.fp(dom.arr(c.analyse("return " + k).value()))) for k in fam)
        if keys != want:
            return VIOLATION, "facet families %s" % [dom.short(k) for k, _ in en.items], analysed(r)
        q = spec_particle(r.ev, "SingleCrystal", "S2" if "S2" in g else "S", en, c.analyse("return %s" % (n or "1000"), e, asm, setup).value())
        res, d = verdict(v, inside(spec_facets(q)))
        return ({CH: HOLDS, DIFFERS: VIOLATION}.get(res, UNDECIDED), d, analysed(r))
    c.run("%s of %s (%s)" % (shape, gn, n or "default size"), go, at=["WulffSingle." + shape], rule="the shape's facet families, the size and the structure given")
