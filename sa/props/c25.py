"""Abstract interpretation of post-generation edits.  Substitution: the random
draws are unknown numbers uniform in [0, 1); the resulting species are compared
with "own substitute where the original species equals a target and its draw is
below the fraction", any other derivation is judged by what it does at chosen
valuations (which species change, to what, how often).  Sequences, and the place
of edits in atom generation, are compared with explicit composition."""
from sa import compare, dom
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed, arrty as A
from . import common as cm

ENV = dict(P=A(3, 3), sp=A(3), H=A(3, 3), a="float", b="float", t=A(3), go=A(3), bd=A(3), H2=A(3, 3))
ASSUME = {"sp": "int", "bd": "pos"}


def run(c):
    def ob(name, drv, spec, at, rule, env=None, setup=None):
        c.eq(name, drv, spec, dict(ENV, **(env or {})), ASSUME, at=at, rule=rule, setup=setup)
    cs = ["ChemicalSubstitution._replace_species", "ChemicalSubstitution.apply_function"]

    def subst(name, tg, sb, frac, seed, how="t.apply_function(P,sp%s)[1]"):
        drv = "t=ChemicalSubstitution(%s,%s,%s)\nreturn %s" % (tg, sb, frac, how % (",seed=%s" % seed if seed is not None else ""))
        T, S = eval(tg), eval(sb)

        def go():
            r = c.analyse(drv, ENV, ASSUME)
            f = c.failures(r)
            if f:
                return VIOLATION, "does not complete: " + f[0][1], [f[0][0]] + analysed(r)
            v = r.value()
            sp = "g=np.random.default_rng(%s)\nout=np.copy(sp)\nfor x,y in zip(%s,%s):\n    m=sp==x\n    u=g.uniform(0,1,size=sp.shape)\n" \
                 "    out[m&(u<=%s)]=y\nreturn out" % ("seed=%s" % seed, tg, sb, frac)
            if compare.canon_eq(v, c.spec(sp, ENV, ASSUME, None, r), False):
                return HOLDS, "own substitute below the fraction", analysed(r)
            v = dom.arr(v)
            if not isinstance(v, dom.T) or v.shape != (3,):
                return (VIOLATION if isinstance(v, dom.T) else UNDECIDED), "array of three species expected: %s" % dom.short(v), analysed(r)
            if dom.has_unk(v):
                return UNDECIDED, "unresolved value", analysed(r)
            n = 400
            bad = 0
            for x in sorted(set(T) | set(S) | {1}):
                hits = 0
                for k in range(n):
                    s = compare.Sample("q%d" % k, {"sp[0]": float(x), "sp[1]": 79.0, "sp[2]": 80.0})
                    try:
                        w = compare.nv(v, s)[2:]
                    except (compare.Inconclusive, ZeroDivisionError, ValueError, OverflowError):
                        bad += 1
                        continue
                    if w[1:] != (79.0, 80.0):
                        return VIOLATION, "species %s, 79, 80 become %s" % (x, (w,)), analysed(r)
                    ok = {float(x)} | ({float(S[T.index(x)])} if x in T else set())
                    if w[0] not in ok:
                        return VIOLATION, "species %s becomes %s" % (x, w[0]), analysed(r)
                    hits += w[0] != x
                if x in T and S[T.index(x)] != x and abs(hits / n - frac) > 0.1:
                    return VIOLATION, "species %s is replaced with probability about %.2f instead of %s" % (x, hits / n, frac), analysed(r)
            for x in T if 0.2 < frac < 0.9 else ():
                if S[T.index(x)] == x:
                    continue
                pairs = [0, 0]
                for k in range(n):
                    try:
                        w = compare.nv(v, compare.Sample("j%d" % k, {"sp[0]": float(x), "sp[1]": float(x), "sp[2]": 80.0}))[2:]
                    except (compare.Inconclusive, ZeroDivisionError, ValueError, OverflowError):
                        continue
                    pairs[(w[0] != x) != (w[1] != x)] += 1
                if sum(pairs) > n / 2 and pairs[1] == 0:
                    return VIOLATION, "two atoms of species %s are always replaced together or not at all" % x, analysed(r)
            return (UNDECIDED, "not derived in a known way; no contradicting valuation (%d inconclusive)" % bad, analysed(r))
        c.run("substitution " + name, go, "own substitute where the original species equals a target, with the requested probability", at=cs)
    for frac in (0.3, 0.0, 1.0, 0.85):
        subst("one pair, %s" % frac, "[6]", "[7]", frac, 3)
        subst("two pairs, %s" % frac, "[6,14]", "[7,32]", frac, 3)
        subst("exchanged pair, %s" % frac, "[6,7]", "[7,6]", frac, 5)
        subst("chained pairs, %s" % frac, "[6,7,8]", "[7,8,6]", frac, 5)
        subst("without seed, %s" % frac, "[6,14]", "[7,32]", frac, None)
    subst("in a sequence", "[6,14]", "[7,32]", 0.3, 3, "PostSequence([t]).apply_function(P,sp%s)[1]")
    subst("tuples", "(6,14)", "(7,32)", 0.3, 3)
    for nm, s in (("seeded", ",seed=3"), ("unseeded", "")):
        ob("substitution keeps positions, " + nm, "t=ChemicalSubstitution([6,14],[7,32],0.3)\nx,y=t.apply_function(P,sp%s)\nreturn x,y.shape,P,sp" % s,
           "return P,(3,),P,sp", cs, "positions, lengths and the caller's arrays are unchanged")
    # sequences
    ps = ["PostSequence.apply_function", "PostSequence.add_transform"]
    comp = "each edit is fed the output of the previous one, in order"
    F1, F2, F3 = "lambda p,s:(p*a+t,s+1)", "lambda p,s:(p@H,s*2)", "lambda p,s:(p[1:],s[1:])"
    mk = lambda f: "ArbitraryPostTransform(%s)" % f  # noqa: E731
    fs = {"F1": F1, "F2": F2, "F3": F3}
    for seq in (["F1"], ["F1", "F2"], ["F2", "F1"], ["F1", "F2", "F3"], ["F3", "F2", "F1"], ["F1", "F1"], ["F2", "F3", "F1", "F2"]):
        sp = "".join("F=%s\np,s=F(p,s)\n" % fs[x] for x in seq)
        sp = "p,s=P,sp\n" + sp + "return p,s"
        ob("sequence " + " ".join(seq), "q=PostSequence([%s])\nreturn q.apply_function(P,sp)" % ",".join(mk(fs[x]) for x in seq), sp, ps, comp)
        ob("sequence built by adding " + " ".join(seq), "q=PostSequence(None)\n" + "".join("q.add_transform(%s)\n" % mk(fs[x]) for x in seq) +
           "return q.apply_function(P,sp)", sp, ps, comp)
        ob("nested sequence " + " ".join(seq), "q=PostSequence([%s,PostSequence([%s])])\nreturn q.apply_function(P,sp)" % (
            mk(fs[seq[0]]), ",".join(mk(fs[x]) for x in seq[1:])), sp, ps, comp)
        ob("sequence applied twice " + " ".join(seq), "q=PostSequence([%s])\nq.apply_function(P,sp)\nreturn q.apply_function(P,sp)" % ",".join(mk(fs[x]) for x in seq),
           sp, ps, comp)
    ob("empty sequence", "return PostSequence([]).apply_function(P,sp)", "return P,sp", ps, comp)
    ob("sequence with a substitution between edits", "q=PostSequence([%s,ChemicalSubstitution([6],[7],1.0),%s])\nx,y=q.apply_function(P,sp,seed=3)\nreturn x" % (mk(F1), mk(F2)),
       "return (P*a+t)@H", ps, comp)
    ob("arbitrary edit", "return ArbitraryPostTransform(%s).apply_function(P,sp)" % F1, "return P*a+t,sp+1", ["ArbitraryPostTransform.apply_function"], "the given function")
    # inside atom generation
    senv, ssetup = cm.structure("S", 2)
    box = "B=S_m.T\nbox=np.array([[0.25,0.25,0.25],[0.75,0.75,0.5]])@B.T+go\n"
    SG = box + "g=Generator(structure=S,origin=go)\nu,us=g.supply_atoms(box)\n"
    at = ["Generator.supply_atoms"]
    r3 = "edits act on generated atoms, before strain"
    ob("edit of generated atoms", SG + "g.post_transform=%s\nreturn g.supply_atoms(box)" % mk(F1), SG + "return u*a+t,us+1", at, r3, senv, ssetup)
    for nm, f4, w in (("by position", "lambda p,s:(p*a+t,s+p[:,0])", "u*a+t,us+u[:,0]"), ("counting its calls on species", "lambda p,s:(p,s*2+1)", "u,us*2+1"),
                      ("mixing species into positions", "lambda p,s:(p+s[:,None],s-p[:,2])", "u+us[:,None],us-u[:,2]")):
        ob("edit of generated atoms " + nm, SG + "g.post_transform=ArbitraryPostTransform(%s)\nreturn g.supply_atoms(box)" % f4, SG + "return " + w, at, r3, senv, ssetup)
        ob("edit of generated atoms %s, then strain" % nm, SG + "g.post_transform=ArbitraryPostTransform(%s)\ng.strain_field=HStrain(H2,mode='standard')\nreturn g.supply_atoms(box)" % f4,
           SG + "x,y=%s\nreturn (x-go)@H2+go,y" % w, at, r3, senv, ssetup)
    ob("edit then strain", SG + "g.post_transform=%s\ng.strain_field=HStrain(H2,mode='standard')\nreturn g.supply_atoms(box)" % mk(F1),
       SG + "return (u*a+t-go)@H2+go,us+1", at, r3, senv, ssetup)
    ob("strain attached before the edit", SG + "g.strain_field=HStrain(H2,mode='standard')\ng.post_transform=%s\nreturn g.supply_atoms(box)" % mk(F1),
       SG + "return (u*a+t-go)@H2+go,us+1", at, r3, senv, ssetup)
    ob("sequence then strain", SG + "g.post_transform=PostSequence([%s,%s])\ng.strain_field=HStrain(H2,mode='standard')\nreturn g.supply_atoms(box)" % (mk(F1), mk(F2)),
       SG + "return ((u*a+t)@H-go)@H2+go,(us+1)*2", at, r3, senv, ssetup)
    ob("edit that removes atoms, then strain", SG + "g.post_transform=%s\ng.strain_field=HStrain(H2,mode='standard')\nreturn g.supply_atoms(box)" % mk(F3),
       SG + "return (u[1:]-go)@H2+go,us[1:]", at, r3, senv, ssetup)
    ob("edit kept by a copied generator", SG + "g.post_transform=%s\nreturn g.from_generator().supply_atoms(box)" % mk(F1), SG + "return u*a+t,us+1", at, r3, senv, ssetup)
    ob("supplying twice", SG + "g.post_transform=%s\ng.supply_atoms(box)\nreturn g.supply_atoms(box)" % mk(F1), SG + "return u*a+t,us+1", at, r3, senv, ssetup)
