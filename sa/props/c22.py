"""Abstract interpretation of the planar-defect prefabs over constant lattices and
volumes with symbolic generator origins: the chosen plane numbers are fixed by the
requested count, separation and stack size, each random draw is a symbol, and every
member's priority, surfaces and generator are compared with the stacking rule. The
selection of plane numbers is analysed on its own: each draw is a fresh symbol and the
set it is drawn from is compared with the set of planes far enough from those chosen."""
import itertools
from fractions import Fraction as Fr

from sa import compare, dom
from sa.alg import rconst
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed
from sa.check import arrty as A
from sa.vfg import K, LISTC, N, SYM
from . import common as cm

CUB = [[4, 0, 0], [0, 4, 0], [0, 0, 4]]
TILT = [[0, 4, 0], [0, 0, 4], [4, 0, 0]]
HEX = [[4, -2, 0], [0, 3, 0], [0, 0, 6]]
HEXT = [[0, 0, 6], [4, -2, 0], [0, 3, 0]]


def det(m):
    return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))


def invt(m):
    d = Fr(det(m))
    return [[(m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3]) / d for j in range(3)]
            for i in range(3)]


def spacing(B):
    def model(ev, o, a, k):
        h = dom.arr(a[0] if a else k.get("miller_index"))
        if not isinstance(h, dom.T) or h.shape != (3,):
            return NotImplemented
        hk = [x.const() if hasattr(x, "const") else None for x in h.data]
        if any(x is None for x in hk):
            return NotImplemented
        g = [sum(a * b for a, b in zip(r, hk)) for r in invt(B)]
        return dom.sdiv(rconst(1), dom.ssqrt(rconst(sum(x * x for x in g))))
    return model


def choose(n, m, l):
    """a valid choice of n plane numbers that depends on every argument"""
    if n == 0:
        return []
    return [m + i * (m + 1) for i in range(n - 1)] + [l - m - 1]


class Split:
    """stands for get_N_splits: the plane numbers as a fresh list"""

    def __call__(self, e, pos, kw, st, ex):
        d = dict(zip(("n", "m", "l", "seed"), pos))
        d.update(kw)
        v = [e.const_of(d[x], st) if x in d else None for x in ("n", "m", "l")]
        if not all(isinstance(x, int) for x in v):
            return NotImplemented
        return e.new_list(ex, LISTC(*[K(i) for i in choose(*v)]), st)


# ---- the prefabs -------------------------------------------------------------------
OUT = "return [[x.priority,[o.params for o in x.alg_objects],x.points,x.generator.voxel.bases,x.generator.voxel.origin] for x in mv.volumes]"
BOX = "np.array([[0.0,0.0,0.0],[%(a)d,0.0,0.0],[0.0,%(b)d,0.0],[0.0,0.0,%(c)d],[%(a)d,%(b)d,0.0],[%(a)d,0.0,%(c)d],[0.0,%(b)d,%(c)d],[%(a)d,%(b)d,%(c)d]])+np.array(%(o)r)"
SPEC = """
g=Generator(structure=S)
g.voxel=Voxel(bases=B,origin=go)
sp=snap_plane_near_point(%(start)s,g,h,mode="floor")
n=sp.normal
mv=[[%(N)d,SURF(),PTS(),B,go]]
Bk=B
ok=go
sg=1
h3=np.array(h)
for i in range(%(N)d):
    p=sp.point+splits[i]*%(d)s*n
    if kinds[i]=="s":
        ok=ok+sg*(Bk@(np.array([1,1,-2])*np.sign(h3)/3))
    else:
        F=np.eye(3)-2.0*np.outer(n,n)
        Bk=F@Bk
        ok=F@(ok-p)+p
        sg=-sg
    mv.append([%(N)d-1-i,SURF()+[(n,p)],PTS(),Bk,ok])
return mv
"""
WSPEC = """
g=Generator(structure=S)
g.voxel=Voxel(bases=B,origin=go)
sp=snap_plane_near_point(%(start)s,g,h,mode="floor")
n=sp.normal
mv=[[%(N)d,SURF(),PTS(),B,go]]
ok=go
for i in range(%(N)d):
    p=sp.point+splits[i]*%(d)s*n
    ok=ok+(-1)**i*(B@(np.array([1,-1,0])*full[i]/3))-0.5*(B@np.array([0,0,1]))
    mv.append([%(N)d-1-i,SURF()+[(n,p)],PTS(),B,ok])
return mv
"""


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def mat(B):
    return "np.array(%r,dtype=float)" % [[float(x) for x in r] for r in B]


def geometry(B, h, vol, cls):
    """start and end points of the scan, as source, with their levels along the planes"""
    g = [dot(r, h) for r in invt(B)]                    # B^-T h
    d2 = Fr(1) / sum(x * x for x in g)                  # spacing squared
    if vol[0] == "box":
        a, b, c, o = vol[1]
        pts = [[x + q for x, q in zip(p, o)] for p in itertools.product((0, a), (0, b), (0, c))]
        lv = [dot(g, p) for p in pts]
        s, f = pts[lv.index(min(lv))], pts[lv.index(max(lv))]
        return "np.array(%r)" % [float(x) for x in s], min(lv), max(lv), d2
    r, c = vol[1]
    gn = "np.array(%r)" % [float(x) for x in g]
    return "(np.array(%r)-%r*%s/np.sqrt(np.sum(%s**2)))" % ([float(x) for x in c], float(r), gn, gn), None, None, d2


def sizes(B, h, vol, start, lo, hi, d2):
    """levels of the first and last plane of the scan as the snapping rule places them"""
    import math
    if vol[0] == "box":
        a, b, c, o = vol[1]
        g = [dot(r, h) for r in invt(B)]
        pts = [[x + q for x, q in zip(p, o)] for p in itertools.product((0, a), (0, b), (0, c))]
        lv = [dot(g, p) for p in pts]
        s, f = pts[lv.index(min(lv))], pts[lv.index(max(lv))]
    else:
        r, c = vol[1]
        g = [float(dot(x, h)) for x in invt(B)]
        nn = math.sqrt(sum(x * x for x in g))
        s, f = [q - r * x / nn for q, x in zip(c, g)], [q + r * x / nn for q, x in zip(c, g)]
    iv = [[float(invt(B)[j][i]) for j in range(3)] for i in range(3)]       # inverse of B

    def level(p, up):
        t = 0
        for i in range(3):
            fc = float(dot(iv[i], [float(x) for x in p]))
            if h[i] == 0:
                continue
            q = round(fc * h[i], 9)
            t += (math.copysign(math.ceil(abs(q)), q) if up else math.trunc(q))
        return t
    return level(s, False), level(f, True)


def run(c):
    env0, set0 = cm.structure("S", 1)
    env0.update(go=A(3))
    seldraws(c)

    def hooks(e, draws=None):
        cm.hull_hooks(e)
        e.ihooks["get_N_splits"] = Split()
        cnt = itertools.count()

        def one():
            i = next(cnt)
            if draws is not None:
                return K(float(draws[i % len(draws)]))
            u = SYM("draw%d" % i, "float")
            return N("bin", "/", u, N("bin", "+", K(1), u))         # any value in [0, 1)

        def rand(en, pos, kw, st, ex):
            if not pos and not kw:
                return one()
            n = en.const_of(pos[0], st) if len(pos) == 1 and not kw else None
            if isinstance(n, int) and n < 9:
                return N("call", N("ext", "numpy.array"), (LISTC(*[one() for _ in range(n)]),), ())
            return NotImplemented
        for f in ("numpy.random.rand", "numpy.random.random", "numpy.random.random_sample", "numpy.random.uniform"):
            e.fhooks[f] = rand

    def case(cls, B, h, vol, n, m, kinds, extra="", via="constructed", mixed=None):
        start, lo, hi, d2 = geometry(B, h, vol, cls)
        a, b = sizes(B, h, vol, start, lo, hi, d2)
        planes = round(abs(b - a)) + 1
        if planes - 2 * m - 1 < (n - 1) * m:
            raise ValueError((cls, B, h, vol, n, m, planes))
        sp = list(reversed(choose(n, m, planes)))
        pts = BOX % dict(zip("abco", vol[1])) if vol[0] == "box" else "None"
        surf = "[(%r,np.array(%r))]" % (float(vol[1][0]), [float(x) for x in vol[1][1]]) if vol[0] == "ball" else "[]"
        if extra:
            surf = "[(np.array([0.0,0.0,1.0]),np.array([1.0,2.0,3.0]))]"
        fcc = cls.startswith("fcc")
        args = "generator=g,volume=u,N=%d,min_sep=%d" % (n, m) + (",plane=h" if fcc else "") + (",ratio=%s" % extra_ratio(cls, kinds) if cls == "fccMixedTwinSF" else "")
        if mixed:
            args = args.replace("ratio=0.0", "ratio=%r" % mixed)
        objs = "alg_objects=[Sphere(%r,np.array(%r))]" % (float(vol[1][0]), [float(x) for x in vol[1][1]]) if vol[0] == "ball" else "points=%s" % pts
        if extra:
            objs += ",alg_objects=[Plane(np.array([0.0,0.0,1.0]),np.array([1.0,2.0,3.0]))]"
        pre = "h=%r\nB=%s\n" % (tuple(h), mat(B))
        drv = pre + "g=Generator(structure=S)\ng.voxel=Voxel(bases=B,origin=go)\nu=Volume(%s)\n" % objs
        if via == "constructed":
            drv += "w=%s(%s)\n" % (cls, args)
        else:
            drv += "w=%s()\n" % cls + "".join("w.%s\n" % x for x in args.replace("plane=h", "plane=h").split(","))
        drv += "mv=w.build_object()\n" + OUT if not mixed else "mv,ds=w.build_object(return_defect_types=True)\n" + OUT.replace("mv.volumes]", "mv.volumes],ds")
        full = [2 if round(a + q) % 2 == 0 else 1 for q in sp]
        def specify(kinds):
            s = pre + "splits=%r\nkinds=%r\nfull=%r\nSURF=lambda:%s\nPTS=lambda:%s\n" % (sp, list(kinds), full, surf, pts)
            return s + (SPEC if fcc else WSPEC) % dict(N=n, start=start, d="(np.sqrt(%d)/np.sqrt(%d))" % (d2.numerator, d2.denominator))
        models = {"methods": dict(cm.GEO["methods"], d_hkl=spacing(B)), "functions": cm.GEO["functions"], "attrs": cm.GEO["attrs"]}
        nm = "%s %s on %s, lattice %s, %s%s, %s" % (cls, "".join(kinds) if fcc else n, "".join(map(str, h)), B, vol, " cut by a plane" if extra else "", via)
        at = [("fccMixedTwinSF" if fcc else cls) + ".build_object"]

        def setup(e, en):
            r = set0(e, en)
            for k in list(r):
                if k[1] == "matrix":
                    r[k] = N("call", N("ext", "numpy.array"), (N("tup", *[N("tup", *[K(float(B[j][i])) for j in range(3)]) for i in range(3)]),), ())
            return r
        if mixed:
            def go(draws):
                r = c.analyse(drv, env0, {}, setup=setup, hooks=lambda e: hooks(e, draws), models=models)
                f = c.failures(r)
                if f:
                    return VIOLATION, "does not complete: %s" % f[0][1], [f[0][0]] + analysed(r)
                v = r.value()
                want = "".join("s" if d < mixed else "t" for d in draws)
                kept, words = [], []
                for q in sorted(set(itertools.permutations(want))):
                    s = c.analyse(specify(q).replace("return mv", "return mv,{'twin':%r,'stacking_fault':%r}" % ("t" in q, "s" in q)), env0, {}, setup=setup, models=models)
                    res, why = compare.verdict(v, s.value(), False)
                    if res == compare.HOLDS:
                        return HOLDS, "the members follow the defects " + "".join(q), analysed(r)
                    kept.append(res)
                    words.append(str(why))
                if all(k == compare.DIFFERS for k in kept):
                    return VIOLATION, "the members follow no order of the defects %s: %s" % (want, words[0][:300]), analysed(r)
                return UNDECIDED, words[0][:300]
            for draws in itertools.product((0.25, 0.75), repeat=n):
                c.run(nm + ", draws %s" % (draws,), lambda draws=draws: go(draws), at=at, key=nm + str(draws),
                      rule="each draw below the ratio is a stacking fault, each other a twin, and the reported defect types are those placed")
            return
        spec = specify(kinds)
        c.eq(nm, drv, spec, env0, {"draw%d" % i: "nonneg" for i in range(8)}, at=at, setup=setup, hooks=hooks, models=models, key=nm,
             rule="member k is bounded by one more plane, has priority N-k and the previous member's generator shifted or mirrored")

    def extra_ratio(cls, kinds):
        return "1.0" if set(kinds) <= {"s"} else "0.0"
    box, off = ("box", (24, 20, 16, [0, 0, 0])), ("box", (24, 24, 24, [-12, -8, -4]))
    ball = ("ball", (13, [1.0, 2.0, -1.0]))
    for cls, k in (("fccStackingFault", "s"), ("fccTwin", "t"), ("fccMixedTwinSF", "s"), ("fccMixedTwinSF", "t")):
        for n, m in ((0, 2), (1, 3), (2, 2), (3, 2)):
            case(cls, CUB, (1, 1, 1), box, n, m, k * n)
        case(cls, CUB, (1, 1, 1), box, 2, 3, k * 2, via="configured afterwards")
        case(cls, CUB, (1, -1, 1), off, 2, 2, k * 2)
        case(cls, CUB, (-1, 1, 1), off, 2, 2, k * 2)
        case(cls, TILT, (1, 1, -1), off, 2, 2, k * 2)
        case(cls, CUB, (1, 1, 1), box, 2, 2, k * 2, extra="plane")
        case(cls, CUB, (1, 1, 1), ball, 2, 1, k * 2)
    case("fccMixedTwinSF", CUB, (1, 1, 1), box, 2, 2, "tt", mixed=0.5)
    case("fccMixedTwinSF", CUB, (1, -1, 1), off, 3, 2, "ttt", mixed=0.5)
    wz = "wurtziteStackingFault"
    for n, m in ((0, 2), (1, 3), (2, 2), (3, 2)):
        case(wz, HEX, (0, 0, 2), ("box", (12, 12, 36, [0, 0, 0])), n, m, "w" * n)
    case(wz, HEX, (0, 0, 2), ("box", (12, 12, 30, [-4, -4, -12])), 3, 2, "www")
    case(wz, HEX, (0, 0, 2), ("box", (12, 12, 30, [-4, -4, -12])), 2, 3, "ww", via="configured afterwards")
    case(wz, HEXT, (0, 0, 2), ("box", (12, 36, 12, [0, 0, 0])), 2, 2, "ww") if False else None


class Draws:
    """random draws as fresh integer symbols, each with the set it was drawn from"""

    def __init__(self, exhausted):
        self.exhausted = exhausted
        self.drawn = {}

    def install(self, e):
        rng, msk = SYM("rng", ("ext", "numpy.random.Generator")), SYM("masked", ("ext", "numpy.ma.MaskedArray"))
        at = (rng, "#taken")

        def draw(st, kind, *what):
            i = st.heap.get(at, K(0))
            if i.op != "k":
                return NotImplemented
            i = i.args[0]
            st.heap[at] = K(i + 1)
            s = SYM("draw%d" % i, "int")
            self.drawn["draw%d" % i] = (s, kind) + what
            return s

        def integers(en, b, pos, kw, st, ex):
            d = dict(zip(("low", "high"), pos))
            d.update(kw)
            if b is not rng or set(d) != {"low", "high"}:
                return NotImplemented
            return draw(st, "range", d["low"], d["high"])

        def choice(en, b, pos, kw, st, ex):
            if b is not rng or len(pos) != 1 or kw:
                return NotImplemented
            return draw(st, "among", en.frozen(pos[0], st))

        def masked(en, pos, kw, st, ex):
            d = dict(zip(("data",), pos))
            d.update(kw)
            if not set(d) <= {"data", "mask"} or "data" not in d:
                return NotImplemented
            st.heap[(msk, "data")] = en.frozen(d["data"], st)
            st.heap[(msk, "mask")] = en.frozen(d["mask"], st) if "mask" in d else K(False)
            return msk

        def compressed(en, b, pos, kw, st, ex):
            if b is not msk or (msk, "data") not in st.heap:
                return NotImplemented
            return N("idx", st.heap[(msk, "data")], N("call", N("ext", "numpy.logical_not"), (st.heap[(msk, "mask")],), ()))

        def ended(en, st):
            i = st.heap.get((msk, "#asked"), K(0))
            if i.op != "k":
                return NotImplemented
            i = i.args[0]
            st.heap[(msk, "#asked")] = K(i + 1)
            return K(bool(self.exhausted[i])) if i < len(self.exhausted) else K(False)

        def all_(en, pos, kw, st, ex):
            return ended(en, st) if len(pos) == 1 and not kw else NotImplemented

        def mall(en, b, pos, kw, st, ex):
            return ended(en, st) if not pos and not kw else NotImplemented
        e.fhooks["numpy.random.default_rng"] = lambda en, pos, kw, st, ex: rng
        e.fhooks["numpy.ma.array"] = e.fhooks["numpy.ma.masked_array"] = masked
        e.fhooks["numpy.all"] = all_
        e.mhooks.update(integers=integers, choice=choice, compressed=compressed, all=mall)


def seldraws(c):
    def one(n, m, l, exhausted):
        d = Draws(exhausted)
        r = c.analyse("return get_N_splits(%d,%d,%d,seed=sd)" % (n, m, l), {"sd": "int"}, {}, hooks=d.install)
        f = c.failures(r)
        where = analysed(r)
        if f:
            return VIOLATION, "does not complete: %s" % (f[0][1],), [f[0][0]] + where
        v = r.value()
        fps = {repr(dom.fp(r.ev.ev(s))): k for k, (s, *_) in d.drawn.items()}
        txt = repr(v)
        used = [k for k in d.drawn if any(k == a.name for a in atoms_of(v))]
        if dom.has_unk(v) or not used:
            return UNDECIDED, "chosen indices not followed: " + txt[:200]
        if len(used) != n:
            return VIOLATION, "%d indices are returned for %d requested: %s" % (len(used), n, txt[:200]), where
        spec = c.analyse("return sorted([%s])" % ",".join(used), {k: "int" for k in used}).value()
        if isinstance(v, dom.Seq) and v.kind in ("list", "tuple"):
            if n > 1:
                return VIOLATION, "the indices are returned in the order drawn: " + txt[:200], where
            spec = v
        if n == 1:
            spec = v        # one index needs no order
        res, why = compare.verdict(v, spec, False)
        if res == compare.DIFFERS:
            return VIOLATION, "not the sorted draws: " + str(why)[:300], where
        if res != compare.HOLDS:
            return UNDECIDED, "sorted draws: " + str(why)[:300]
        for j, k in enumerate(used):
            s, kind, *what = d.drawn[k]
            if kind == "range":
                lo, hi = [r.ev.ev(x) for x in what]
                lo, hi = [x.const() if hasattr(x, "const") else None for x in (lo, hi)]
                if lo is None or hi is None:
                    return UNDECIDED, "limits of draw %d" % j
                if lo < m or hi > l - m:
                    return VIOLATION, "draw %d ranges over [%s, %s), not inside [%d, %d)" % (j, lo, hi, m, l - m), where
                if j:
                    return VIOLATION, "draw %d of %d is taken from the whole range, not from those far enough from the earlier ones" % (j, n), where
                continue
            from sa import npsem
            rs = npsem.rows(r.ev.ev(what[0]))
            if rs is None:
                return UNDECIDED, "candidates of draw %d: %s" % (j, repr(r.ev.ev(what[0]))[:200])
            for g, x in rs:
                x = dom.scalar(x) if not hasattr(x, "const") else x
                xc = x.const() if hasattr(x, "const") else None
                if xc is None:
                    return UNDECIDED, "a candidate of draw %d is not constant" % j
                if not m <= xc < l - m:
                    return VIOLATION, "draw %d may take %s, outside [%d, %d)" % (j, xc, m, l - m), where
                for k0 in used[:j]:
                    near = dom.scmp("<", dom.sabs(dom.ssub(x, r.ev.ev(d.drawn[k0][0]))), rconst(m))
                    bad = dom.band(g, near)
                    if bad is False:
                        continue
                    q, why = compare.verdict(bad, False, False, samples=200, thresholds=False)
                    if q == compare.DIFFERS:
                        return VIOLATION, "draw %d may take %s while %s is nearer than %d: %s" % (j, xc, k0, m, str(why)[:200]), where
                    if q != compare.HOLDS:
                        return UNDECIDED, "draw %d may take %s although %s is near: %s" % (j, xc, k0, str(why)[:200])
        return HOLDS, "each of the %d indices is drawn from those at least %d from the others and the ends" % (n, m), where
    for n, m, l, exh in ((1, 2, 7, ()), (2, 1, 6, ()), (2, 2, 9, ()), (2, 3, 12, ()), (2, 2, 9, (1,)), (2, 2, 9, (1, 1)), (3, 2, 11, ()), (3, 2, 11, (0, 1)),
                         (3, 1, 7, (1,)), (3, 2, 11, (0, 1, 1)), (4, 1, 9, ()), (4, 1, 9, (0, 1, 0, 1)),
                         (5, 1, 11, ()), (6, 1, 13, (0, 0, 0, 0, 1)), (5, 2, 17, (0, 0, 1)), (7, 1, 30, ())):
        c.run("%d of %d indices, %d apart%s" % (n, l, m, ", exhausted at %s" % (exh,) if any(exh) else ""),
              lambda n=n, m=m, l=l, exh=exh: one(n, m, l, exh), at=["get_N_splits"],
              rule="every index is drawn from those inside the stack and at least the separation from every index kept so far")
    # requests that cannot be met are refused before the search for them starts
    def refused(n, m, l):
        d = Draws(())
        r = c.analyse("return get_N_splits(%d,%d,%d,seed=sd)" % (n, m, l), {"sd": "int"}, {}, hooks=d.install)
        where = analysed(r)
        if r.val is None and any("ValueError" in str(f[1]) for f in c.failures(r)):
            return HOLDS, "refused", where
        if d.drawn:
            return VIOLATION, "%d indices %d apart do not fit into %d planes, but the search for them is started" % (n, m, l), where
        return UNDECIDED, "neither refused nor started"
    for n, m, l in ((2, 3, 9), (2, 2, 6), (1, 2, 4), (3, 2, 8), (4, 3, 15), (2, 1, 3), (5, 4, 24), (3, 3, 12), (3, 2, 5), (1, 5, 3)):
        assert n and l - 2 * m - 1 < (n - 1) * m
        c.run("%d of %d indices, %d apart, is refused" % (n, l, m), lambda n=n, m=m, l=l: refused(n, m, l), at=["get_N_splits"], key="refused%d,%d,%d" % (n, m, l),
              rule="an impossible request raises ValueError")


def atoms_of(v):
    from sa.alg import Atom
    out, seen, todo = set(), set(), [v]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, dom.Rat):
            for p in [x.n] + [f for f, _ in x.d]:
                out |= {Atom.lst[i] for i in p.atoms()}
        elif isinstance(x, (list, tuple)):
            todo += list(x)
        else:
            for a in ("items", "data", "guards", "t", "kids", "ch", "children", "v", "args"):
                y = getattr(x, a, None)
                if y is not None and not callable(y):
                    todo.append(y)
    return out
