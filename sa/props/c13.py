"""Taint analysis of random sources: every draw made on a satisfiable path of a seeded operation is resolved to the generator
it is made from, and that generator's seed is followed back through assignments, calls and branches to the caller's seed or
generator; global generators, unseeded generators, clocks and fixed seeds are violations. Where the result is a closed
expression, two calls with one seed are also compared, alone and after calls with other seeds."""
from sa import compare, dom
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed, arrty as A
from sa.vfg import DRAWS, K, N, RNGS, SYM, walk
from . import common as cm
from . import c11
from . import c11b

CTOR = {"SeedSequence", "Generator", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64", "RandomState", "default_rng", "BitGenerator"}
ENTROPY = ("time.", "datetime.", "os.urandom", "os.getpid", "uuid.", "secrets.", "builtins.id", "builtins.hash")


def leaves(n, info, conds=(), depth=0, seen=()):
    """[(value, choices)]: what a value is, branch by branch"""
    if depth > 12 or n in seen:
        return []
    if n.op == "phi":
        return leaves(n.args[1], info, conds + ((n.args[0], True),), depth + 1, seen) + leaves(n.args[2], info, conds + ((n.args[0], False),), depth + 1, seen)
    if n.op == "mu":
        out = leaves(n.args[2], info, conds, depth + 1, seen + (n,))
        i = info.get(n.args[0])
        if i and n in i.get("mus", {}):
            out += leaves(i["mus"][n][1], info, conds, depth + 1, seen + (n,))
        return out
    if n.op == "fold":
        return leaves(n.args[3], info, conds, depth + 1, seen) + leaves(n.args[4], info, conds, depth + 1, seen)
    if n.op in ("copy", "shallow"):
        return leaves(n.args[0], info, conds, depth + 1, seen)
    return [(n, conds)]


def closure(r):
    """every value that the result, or what is kept by objects, is made of"""
    todo = [r.val] if r.val is not None else []
    if r.st is not None:
        todo += [x for (b, f), x in r.st.heap.items() if not f.startswith("#d") and hasattr(x, "op")]
    out, lvs = set(), set()
    while todo:
        for y in walk(todo.pop()):
            if y in out:
                continue
            out.add(y)
            if y.op == "mu" and y.args[0] not in lvs:
                lvs.add(y.args[0])
                i = r.e.loopinfo.get(y.args[0]) or {}
                todo += [z for m in i.get("mus", {}).values() for z in m if hasattr(z, "op")]
                todo += [z for z in (i.get("iter"), i.get("brk")) if hasattr(z, "op")]
    return out


def is_rng(n):
    return n.op == "call" and n.args[0].op == "ext" and n.args[0].args[0].startswith(("numpy.random.", "random.")) and n.args[0].args[0].split(".")[-1] in CTOR | {"Random"}


class Taint:
    def __init__(self, c, r, given, start=0):
        self.c, self.r, self.given, self.info = c, r, given, r.e.loopinfo
        self.memo = {}

    def origin(self, n):
        """None when every branch of n draws from what the caller gave, else why not"""
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = None
        why = None
        for x, conds in leaves(n, self.info):
            w = self.leaf(x)
            if w and c11.feasible(self.c, self.r, conds):
                why = w
                break
        self.memo[n] = why
        return why

    def leaf(self, x):
        if x in self.given:
            return None
        if is_rng(x):
            f = x.args[0].args[0]
            a = list(x.args[1]) + [v for k, v in x.args[2] if not k.startswith("#")]
            if not a or a[0].op == "k" and a[0].args[0] is None:
                return "%s() seeded by the system" % f
            return self.origin(a[0])
        ent = [y for y in walk(x) if y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0].startswith(ENTROPY)]
        if ent:
            return "a value of %s()" % ent[0].args[0].args[0]
        for y in walk(x):
            if y in self.given:
                return None
            if y.op == "mc" and y.args[1] in DRAWS and y is not n_of(x) and self.origin(y.args[0]) is None:
                return None
            if y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0].startswith("numpy.random.") and not is_rng(y):
                return "the global generator, %s()" % y.args[0].args[0]
        if x.op == "mc" and x.args[1] in DRAWS:
            return self.origin(x.args[0])
        if x.op == "k":
            return "the fixed value %r" % (x.args[0],)
        return "%s, which does not depend on the seed" % str(x)[:60]


def n_of(x):
    return x if x.op == "mc" else None


def run(c):
    env = dict(s="int", R=("ext", "numpy.random._generator.Generator"), P=A(5, 3), Z=A(5), dm=A(3), k="float", den="float", n="int", m="int", l="int", C4=A(4, 3), b="float", H=("opq", c.p.cls("BaseVolume")), sp=A(5),
               s2="int", Q=A(3, 3), Z3=A(3))
    asm = {"s": "nonneg", "k": "pos", "dm": "pos", "den": "pos", "n": "pos", "m": "pos", "l": "pos", "b": "pos", "s2": "nonneg"}
    RULE = "every draw comes from the caller's seed or generator"

    def host(e, en):
        return {(en["H"], "atoms"): en["P"], (en["H"], "species"): en["sp"]}

    def draws(name, drv, given, at, hooks=None, need=True):
        def fn():
            glob = []

            def hk(e):
                cm.hull_hooks(e)
                if hooks:
                    hooks(e)
            r = c.analyse(drv, env, asm, host, hk, cm.GEO)
            w = analysed(r)
            t = Taint(c, r, {SYM(g, env[g]) for g in given})
            n, seeded = 0, False
            used = closure(r)
            for x in r.e.events:
                if x.kind == "mcall":
                    b, meth = x.data.args[0], x.data.args[1]
                    rng = any(is_rng(y) or y in t.given or y.op == "ext" and y.args[0].startswith(("numpy.random", "random")) for y, _ in leaves(b, t.info))
                    if meth not in DRAWS or not rng:
                        continue
                    n += 1
                    if x.data not in used and meth != "shuffle":
                        continue        # drawn for nothing
                    why = t.origin(b)
                    if why and c11.feasible(c, r, x.path):
                        return VIOLATION, "%s: .%s() draws from %s" % (x.loc, meth, why), [x.loc] + w
                elif x.kind == "call":
                    f = x.data.args[0].args[0] if x.data.op == "call" and x.data.args[0].op == "ext" else ""
                    if not f.startswith(("numpy.random.", "random.", "scipy.stats.")) or f.split(".")[-1] in CTOR | {"Random"}:
                        continue
                    if f in ("numpy.random.seed", "random.seed"):
                        a = x.data.args[1]
                        seeded = bool(a) and t.origin(a[0]) is None and not x.path and not x.ctx
                        continue
                    n += 1
                    if f.startswith("scipy.stats.") or x.data not in used and not f.endswith(("shuffle",)):
                        continue        # drawn for nothing
                    if not seeded and c11.feasible(c, r, x.path):
                        return VIOLATION, "%s: %s() draws from the global generator" % (x.loc, f), [x.loc] + w
            if r.st is None:
                return UNDECIDED, "the operation is not followed to its end", w
            v = r.val
            for y in walk(v) if v is not None else ():
                if y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0].startswith(ENTROPY[:-2]):
                    return VIOLATION, "the result contains a value of %s()" % y.args[0].args[0], w
            if not n and need:
                return UNDECIDED, "no draw is found", w
            return HOLDS, "%d draws, each from %s" % (n, " or ".join(given)), w
        c.run(name, fn, RULE, at)
    GA, MI, PO, AL, AD = ("czone/generator/amorphous_algorithms.py ", "czone/util/misc.py ", "czone/transform/post.py ", "czone/surface/alpha_shape.py ", "czone/surface/adsorbate.py ")
    for f in ("gen_p_substrate", "gen_p_substrate_batched"):
        for nm, call in (("all options", "min_dist=k,density=den,seed=s"), ("seed only", "seed=s"), ("progress", "seed=s,print_progress=True"), ("wide", "min_dist=0.5,seed=s")):
            draws("%s, %s" % (f, nm), "return %s(dm,%s)" % (f, call), ["s"], GA + f)
        draws("%s, box of one cell" % f, "return %s([1.0,2.0,3.0],min_dist=k,seed=s)" % f, ["s"], GA + f)
    draws("splits", "return get_N_splits(n,m,l,seed=s)", ["s"], MI + "get_N_splits")
    draws("splits, positional", "return get_N_splits(n,m,l,s)", ["s"], MI + "get_N_splits")
    draws("splits, several", "return get_N_splits(3,2,40,seed=s)", ["s"], MI + "get_N_splits")
    for nm, mk in (("one target", "ChemicalSubstitution([6],[7],0.5)"), ("two targets", "ChemicalSubstitution([6,8],[7,9],0.5)"), ("everything", "ChemicalSubstitution([6,8],[7,9],1.0)"), ("nothing", "ChemicalSubstitution([6],[7],0.0)"),
                   ("swap", "ChemicalSubstitution([6,7],[7,6],0.5)"), ("fraction given", "ChemicalSubstitution([6],[7],k)"),
                   ("sequence", "PostSequence([ChemicalSubstitution([6],[7],0.5),ChemicalSubstitution([8],[9],0.5)])"),
                   ("sequence of sequences", "PostSequence([PostSequence([ChemicalSubstitution([6],[7],0.5)]),ChemicalSubstitution([8],[9],0.5)])")):
        draws("substitution, " + nm, "t=%s\nreturn t.apply_function(P,Z,seed=s)" % mk, ["s"], PO + "apply_function")
    draws("edits of a sequence with a function", "t=PostSequence([ArbitraryPostTransform(lambda p,q:(p,q)),ChemicalSubstitution([8],[9],0.5)])\nreturn t.apply_function(P,Z,seed=s)", ["s"], PO + "apply_function")
    for sh in ("", ",return_alpha_shape=True"):
        draws("alpha shape with a generator" + sh, "return alpha_shape_alg_3D(P,k,rng=R%s)" % sh, ["R"], AL + "alpha_shape_alg_3D")
        for nn in ("1", "3", "20", "n"):
            draws("sampled alpha shape, %s samples, seed%s" % (nn, sh), "return alpha_shape_alg_3D_with_sampling(P,k,%s,seed=s%s)" % (nn, sh), ["s"], AL + "alpha_shape_alg_3D_with_sampling")
            draws("sampled alpha shape, %s samples, generator%s" % (nn, sh), "return alpha_shape_alg_3D_with_sampling(P,k,%s,rng=R%s)" % (nn, sh), ["R"], AL + "alpha_shape_alg_3D_with_sampling")
        draws("sampled alpha shape, generator and seed" + sh, "return alpha_shape_alg_3D_with_sampling(P,k,3,rng=R,seed=s%s)" % sh, ["R", "s"], AL + "alpha_shape_alg_3D_with_sampling")
        draws("sampled alpha shape, width" + sh, "return alpha_shape_alg_3D_with_sampling(P,k,3,b,seed=s%s)" % sh, ["s"], AL + "alpha_shape_alg_3D_with_sampling")
    for nm, o in (("seed", "seed=s"), ("seed and options", "decay=0.9,tol=1e-3,margin=k,seed=s,max_steps=100"), ("seed and few steps", "seed=s,max_steps=3")):
        draws("approximate normal, " + nm, "from czone.surface.adsorbate import find_approximate_normal\nreturn find_approximate_normal(P,%s)" % o, ["s"], AD + "find_approximate_normal")
    for fn_, fl in (("no filters", "{}"), ("filters", "{'element':[6],'indices':[0,1]}"), ("spatial filter", "{'spatial':lambda x:x[:,2]>b}")):
        for opt in ("", ",use_sampling=False", ",probe_radius=k", ",mol_rotation=b", ",debug=True", ",N_shells=2", ",surface_only=False"):
            draws("adsorbate, %s%s" % (fn_, opt), "from czone.surface.adsorbate import add_adsorbate\nm=Molecule([6,8,1,1],C4)\nreturn add_adsorbate(m,1,b,H,filters=%s%s,seed=s)" % (fl, opt), ["s"], AD + "add_adsorbate", c11b.rots)
    # closed results ---------------------------------------------------------------------------------
    RT = "two calls with the same inputs and seed give the same result"
    for nm, call in (("substitution", "ChemicalSubstitution([6,8],[7,9],0.5).apply_function(Q,Z3,seed=%s)"), ("edit sequence", "PostSequence([ChemicalSubstitution([6],[7],0.5),ChemicalSubstitution([8],[9],0.25)]).apply_function(Q,Z3,seed=%s)")):
        one = call % "s"
        c.eq("%s: two calls" % nm, "x=%s\nreturn %s" % (one, one), "return " + one, env, asm, at=nm, rule=RT)
        c.eq("%s: after a call with another seed" % nm, "x=%s\nreturn %s" % (call % "s2", one), "return " + one, env, asm, at=nm, rule=RT)
        c.eq("%s: after a call without a seed" % nm, "x=%s\nreturn %s" % (call % "None", one), "return " + one, env, asm, at=nm, rule=RT)
        c.eq("%s: after global draws" % nm, "x=np.random.rand(3)\nnp.random.seed(5)\nreturn %s" % one, "return " + one, env, asm, at=nm, rule=RT)
    for nm, mk in (("substitution", "t=ChemicalSubstitution([6,8],[7,9],0.5)\n"), ("edit sequence", "t=PostSequence([ChemicalSubstitution([6],[7],0.5),ChemicalSubstitution([8],[9],0.25)])\n")):
        c.eq("%s: one object twice" % nm, mk + "x=t.apply_function(Q,Z3,seed=s2)\nreturn t.apply_function(Q,Z3,seed=s)", mk + "return t.apply_function(Q,Z3,seed=s)", env, asm, at=nm, rule=RT)
