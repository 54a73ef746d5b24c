"""Priority resolution of overlapping regions, for Scene and MultiVolume."""
from sa import compare, dom
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed
from sa.vfg import K, SYM, N
from . import common as cm

LET = "ABCDEF"


def make(c, kind):
    V = c.p.cls("BaseVolume")

    def scenario(names, prio, counts, drv, pops=1, kinds=()):
        env = {n: ("opq", c.p.cls(dict(kinds)[n]) if n in dict(kinds) else V) for n in names}
        env["bd"] = ("arr", (2, 3))

        def hooks(e):
            e.mhooks["populate_atoms"] = cm.populate_hook(counts)

        def setup(e, en):
            h = {}
            for n in names:
                h[(en[n], "priority")] = K(prio[n])
                h[(en[n], "atoms")] = SYM("old" + n, ("arr", (counts[n], 3)))
                h[(en[n], "species")] = SYM("olds" + n, ("arr", (counts[n],)))
            return h
        return c.analyse(drv, env, setup=setup, hooks=hooks, models=cm.MODELS)

    return scenario


def driver(kind, names, how="list"):
    if kind == "scene":
        if how == "list":
            d = "s=Scene(bounds=bd,objects=[%s])\n" % ",".join(names)
        else:
            d = "s=Scene(bounds=bd)\n" + "".join("s.add_object(%s)\n" % n for n in names)
        return d
    if how == "list":
        return "s=MultiVolume([%s])\n" % ",".join(names)
    return "s=MultiVolume()\n" + "".join("s.add_volume(%s)\n" % n for n in names)


RET = {"scene": "return s.all_atoms, s.all_species", "multi": "return s.atoms, s.species"}
POP = {"scene": "s.populate()\n", "multi": "s.populate_atoms()\n"}


def judge(c, r, names, prio, counts, pops, what="atoms", group=None, outer=None, kinds=()):
    """compare the handed-out rows with the priority rule"""
    where = analysed(r)
    f = c.failures(r)
    if f:
        return VIOLATION, "does not complete: " + f[0][1], [f[0][0]] + where
    v = r.value()
    if not (isinstance(v, dom.Seq) and len(v.items) == 2):
        return UNDECIDED, "result is %s" % dom.short(v), where
    rows = cm.gated_rows(v.items[0])
    sp = cm.gated_rows(v.items[1])
    if rows is None or sp is None:
        return UNDECIDED, "result rows are not tracked: %s" % dom.short(v), where
    if dom.has_unk(v):
        return UNDECIDED, "result contains untracked values", where
    objs = {n: r.ev.ev(SYM(n, ("opq", c.p.cls(dict(kinds).get(n, "BaseVolume"))))) for n in names}
    table, stale = {}, {}
    for n in names:
        pn = pops[n] if isinstance(pops, dict) else pops
        for i in range(counts[n]):
            for ver in range(1, pn + 2):
                a = r.ev.ev(SYM("at%s%d" % (n, ver), ("arr", (counts[n], 3))))
                (table if ver == pn else stale)[dom.fp(dom.row(a, i))] = (n, i, dom.row(a, i))
            a = r.ev.ev(SYM("old" + n, ("arr", (counts[n], 3))))
            stale[dom.fp(dom.row(a, i))] = (n, i, dom.row(a, i))
    got = {}
    seq = []
    for g, x in rows:
        if g is False:
            continue
        k = dom.fp(x)
        if k in table:
            n, i, _ = table[k]
            seq.append((g, n, i))
            if (n, i) in got and dom.band(got[(n, i)], g) is not False:
                return VIOLATION, "atom %d of %s is present twice" % (i, n), where
            got[(n, i)] = dom.bor(got.get((n, i), False), g)
        elif k in stale:
            n, i, _ = stale[k]
            return VIOLATION, "an atom of %s held before it was re-populated is handed out" % n, where
        else:
            return UNDECIDED, "unrecognised row %s" % dom.short(x), where
    if what == "atoms":
        for n in names:
            for i in range(counts[n]):
                x = next(v[2] for v in table.values() if v[:2] == (n, i))
                want = True
                for y in names:
                    if y != n and prio[y] <= prio[n]:
                        if group is None or group[y] == group[n]:
                            want = dom.band(want, dom.bnot(cm.in_var(objs[y], x)))
                    if group is not None and group[y] != group[n] and outer[group[y]] <= outer[group[n]]:
                        want = dom.band(want, dom.bnot(cm.in_var(objs[y], x)))
                st, d = compare.verdict(got.get((n, i), False), want)
                if st == compare.DIFFERS:
                    return VIOLATION, "priorities %s: presence of atom %d of %s is %s, required %s" % (
                        prio, i, n, dom.short(got.get((n, i), False)), dom.short(want)), where
                if st == compare.UNKNOWN:
                    return UNDECIDED, d, where
        return HOLDS, "", where
    # species aligned with atoms, entry by entry
    stab = {}
    for n in names:
        s = r.ev.ev(SYM("sp%s%d" % (n, pops[n] if isinstance(pops, dict) else pops), ("arr", (counts[n],))))
        for i in range(counts[n]):
            stab[dom.fp(dom.row(s, i))] = (n, i)
    sseq = []
    for g, x in sp:
        if g is False:
            continue
        k = dom.fp(x)
        if k not in stab:
            return (VIOLATION if k[:2] else UNDECIDED), "species entry %s is not one of the current species" % dom.short(x), where
        sseq.append((g,) + stab[k])
    if [q[1:] for q in seq] != [q[1:] for q in sseq]:
        return VIOLATION, "priorities %s: positions list %s, species list %s" % (
            prio, [q[1:] for q in seq], [q[1:] for q in sseq]), where
    for a, b in zip(seq, sseq):
        st, d = compare.verdict(a[0], b[0])
        if st == compare.DIFFERS:
            return VIOLATION, "atom %d of %s is kept under %s, its species under %s" % (
                a[2], a[1], dom.short(a[0]), dom.short(b[0])), where
        if st == compare.UNKNOWN:
            return UNDECIDED, d, where
    return HOLDS, "", where


def sweep(c, kind, what, at, rule):
    scen = make(c, kind)
    CNT = {"A": 2, "B": 1, "C": 3, "D": 2, "E": 1}
    CNT["F"] = 1
    EMB = [(0, 1, 2, 3, 4, 5), (-7, 2, 3, 40, 1000, 1001), (-2000, -31, -30, -9, -3, -1)]

    def one(names, ranks, emb, how, hist=None, cnt=CNT, tag="", kinds=()):
        prio = {n: EMB[emb][k] for n, k in zip(names, ranks)}
        counts = {n: cnt[n] for n in names}
        drv = driver(kind, names, how)
        pops = 1
        final = dict(prio)
        if hist == "again":
            drv += POP[kind] + POP[kind]
            pops = 2
        elif hist == "reprio":
            drv += POP[kind]
            new = list(ranks)[1:] + [ranks[0]]
            for n, k in zip(names, new):
                final[n] = EMB[2 - emb][k]
                drv += "%s.priority=%d\n" % (n, final[n])
            drv += POP[kind]
            pops = 2
        else:
            drv += POP[kind]
        drv += RET[kind]

        def go():
            return judge(c, scen(names, prio, counts, drv, kinds=kinds), names, final, counts, pops, what, kinds=kinds)
        c.run("%s of %s with priorities %s (%s%s)" % (what, kind, [prio[n] for n in names], how,
                                                      ", " + hist if hist else "") + tag, go, rule, at=at)

    nmax = 5 if c.thorough else 4
    for n in range(1, nmax + 1):
        for ranks in cm.weak_orders(n):
            for emb in (0, 1, 2) if n < 4 else (2,) if n % 2 else (1,):
                one(LET[:n], ranks, emb, "list")
    for ranks in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (0, 0, 0, 0, 0), (0, 0, 1, 1, 2), (2, 0, 1, 0, 2), (0, 1, 1, 1, 1),
                  (3, 3, 2, 1, 0), (0, 0, 0, 0, 1)):
        one(LET[:5], ranks, 2, "list")
    for ranks in ((0, 1, 2, 3, 4, 5), (5, 4, 3, 2, 1, 0), (0, 0, 0, 0, 0, 0), (0, 0, 1, 1, 2, 2), (2, 1, 0, 2, 1, 0)):
        one(LET[:6], ranks, 1, "list")
    for ranks in cm.weak_orders(3):
        one(LET[:3], ranks, 0, "one by one")
        one(LET[:3], ranks, 1, "list", "again")
        one(LET[:3], ranks, 0, "list", "reprio")
    # an object without atoms claims its region like any other
    for void in "AB":
        for ranks in cm.weak_orders(2):
            one(LET[:2], ranks, 0, "list", None, dict(CNT, **{void: 0}), ", no atoms in " + void)
    for void in "ABC":
        for ranks in cm.weak_orders(3):
            one(LET[:3], ranks, 1, "list", None, dict(CNT, **{void: 0}), ", no atoms in " + void)
    one(LET[:3], (0, 1, 2), 1, "one by one", "again", dict(CNT, A=0, B=0), ", no atoms in A and B")

    # members of definite kinds
    for kinds in (("Volume", "MultiVolume", "Volume"), ("MultiVolume", "Volume", "MultiVolume")):
        for n in (2, 3):
            for ranks in cm.weak_orders(n):
                for hist in (None, "again"):
                    one(LET[:n], ranks, n - 2, "list", hist, tag=", of kinds " + " ".join(kinds[:n]), kinds=tuple(zip(LET, kinds)))
    # multi-volumes as members: inside each the rule of its own members, between them the rule of the multi-volumes
    def nest(groups, ranks, oranks, hist, direct=()):
        names = [x for g in groups for x in g]
        group = {x: i for i, g in enumerate(groups) for x in g}
        prio = dict(zip(names, ranks))
        outer = dict(enumerate(oranks))
        for i in direct:
            prio[groups[i]] = outer[i]
        counts = {n: CNT[n] for n in names}
        d, ms = "", []
        for i, g in enumerate(groups):
            if i in direct:
                ms.append(g)
                continue
            d += "m%d=MultiVolume([%s],priority=%d)\n" % (i, ",".join(g), oranks[i])
            ms.append("m%d" % i)
        d += ("s=Scene(bounds=bd,objects=[%s])\n" if kind == "scene" else "s=MultiVolume([%s])\n") % ",".join(ms)
        d += POP[kind] * (2 if hist == "again" else 1) + RET[kind]
        pops = 2 if hist == "again" else 1
        if hist == "inner first":
            d = d.replace("s=", "m0.populate_atoms()\ns=", 1)
        nm = "%s of %s with members %s at %s, their priorities %s%s" % (what, kind, "+".join("(%s)" % g for g in groups), list(oranks), list(ranks), ", " + hist if hist else "")

        def go():
            mine = dict.fromkeys(names, pops)
            if hist == "inner first":
                mine.update({n: 2 for n in groups[0]})
            return judge(c, scen(names, prio, counts, d), names, prio, counts, mine, what, group, outer)
        c.run(nm, go, rule, at=at)
    for groups, direct in ((("AB", "C"), (1,)), (("AB",), ()), (("A", "B"), ()), (("AB", "CD"), ()), (("A", "BC"), (0,)), (("AB", "C", "D"), (2,))):
        k, g = sum(map(len, groups)), len(groups)
        inner = [(0,) * k, tuple(range(k)), tuple(range(k))[::-1]]
        for ranks in inner:
            for oranks in cm.weak_orders(g):
                for hist in (None, "again") + (("inner first",) if 0 not in direct else ()):
                    nest(groups, ranks, oranks, hist, direct)
