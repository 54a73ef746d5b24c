"""Abstract interpretation of the random packing routines. Candidates are drawn at
symbolic positions anywhere inside an enumerated sequence of cells and the verdict of
every distance test is prescribed; for each accepted atom the positions it was compared
with must contain every previously accepted atom in its own and the adjacent cells
(periodic in x and y), and an atom may only be accepted when the test passed. The cells
themselves are compared with the exact tiling of the box by cells no narrower than the
minimum distance; the distance functions are decided in C27."""
import itertools
from fractions import Fraction as Fr

from sa import alg, compare, dom
from sa.alg import atom, ratom, rconst
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed
from sa.check import arrty as A
from sa.vfg import K, LISTC, N, SYM

EXT = "construction_zone.draw"


def unit(i, j):
    key = ("c18", i, j)
    return ratom(atom(key, "w%d_%d" % (i, j), sign="nonneg", kind="u01", args=(), evalf=lambda s: alg.hfloat("w|%d|%d|%s" % (i, j, s.seed), 0, 1)))


def model(ev, a, k):
    return unit(dom.cint(a[0]), dom.cint(a[1]))


MODELS = {"functions": {EXT: model}, "methods": {}, "attrs": {}}


def num(x):
    return K(float(x))


class Spot(tuple):
    """where a candidate lies: its cell, and the part of it (offset and size as fractions of the cell)"""

    def __new__(cls, cell, off=(0, 0, 0), size=1):
        t = tuple.__new__(cls, cell)
        t.off, t.size = off, Fr(size)
        return t

    def low(self, j):
        return self[j] + Fr(self.off[j]) * self.size


class Story:
    """candidates drawn anywhere inside given cells, each with a given verdict"""

    def __init__(self, grid, cells):
        self.grid, self.cells, self.asked = grid, cells, []

    def install(self, e):
        rng = SYM("rng", ("ext", "numpy.random.Generator"))
        at = (rng, "#taken")

        def position(i):
            b = self.cells[i]
            b = b if isinstance(b, Spot) else Spot(b)
            return N("tup", *[N("bin", "/", N("bin", "+", num(b.low(j)), N("bin", "*", num(b.size), N("call", N("ext", EXT), (K(i), K(j)), ()))), num(self.grid[j]))
                              for j in range(3)])

        def take(st, n):
            i = st.heap.get(at, K(0))
            if i.op != "k":
                return None
            st.heap[at] = K(i.args[0] + n)
            return i.args[0]

        def draw(en, b, lo, hi, size, st):
            if b is not rng:
                return NotImplemented
            sh = en.const_of(size, st) if size is not None else None
            if isinstance(sh, int):
                sh = (sh,)
            if not isinstance(sh, tuple) or sh[-1] != 3 or len(sh) > 2:
                return NotImplemented
            n = sh[0] if len(sh) == 2 else 1
            i = take(st, n)
            if i is None or i + n > len(self.cells):
                return NotImplemented
            rows = [position(k) for k in range(i, i + n)]
            u = N("call", N("ext", "numpy.array"), (N("tup", *rows) if len(sh) == 2 else rows[0],), ())
            if hi is not None:
                u = N("bin", "+", N("bin", "*", u, N("bin", "-", hi, lo)), lo)
            return u

        def uniform(en, b, pos, kw, st, ex):
            d = dict(zip(("low", "high", "size"), pos))
            d.update(kw)
            if "low" in d or "high" in d:
                return draw(en, b, d.get("low", K(0.0)), d.get("high", K(1.0)), d.get("size"), st)
            return draw(en, b, None, None, d.get("size"), st)

        def random(en, b, pos, kw, st, ex):
            d = dict(zip(("size",), pos))
            d.update(kw)
            return draw(en, b, None, None, d.get("size"), st) if set(d) <= {"size"} else NotImplemented
        e.fhooks["numpy.random.default_rng"] = lambda en, pos, kw, st, ex: rng
        e.mhooks.update(uniform=uniform, random=random)




def rows_of(v):
    v = dom.arr(v)
    if not isinstance(v, dom.T) or dom.has_unk(v):
        return None
    if len(v.shape) == 1:
        v = dom.T((1,) + v.shape, v.data)
    if len(v.shape) != 2 or v.shape[1] != 3:
        return None if len(v.data) else []
    return [tuple(dom.fp(x) for x in v.data[3 * i:3 * i + 3]) for i in range(v.shape[0])]


def adjacent(a, b, grid, width=None, k=None):
    """can two candidates be closer than the minimum distance?"""
    a, b = [x if isinstance(x, Spot) else Spot(x) for x in (a, b)]
    tot = 0
    for i in range(3):
        gaps = []
        for s in ((-grid[i], 0, grid[i]) if i < 2 else (0,)):
            lo, hi = b.low(i) + s, b.low(i) + s + b.size
            gaps.append(max(lo - a.low(i) - a.size, a.low(i) - hi, Fr(0)))
        g = min(gaps)
        if width is None:
            if g >= 1:
                return False
        else:
            tot += (g * width[i]) ** 2
    return width is None or tot < k ** 2 * (1 - Fr(1, 10 ** 9))


class One(Story):
    """the routine that places one atom at a time"""

    def __init__(self, grid, cells, verdicts, k):
        super().__init__(grid, cells)
        self.verdicts, self.k = verdicts, k

    def install(self, e):
        super().install(e)
        self.e = e

        def dist(en, pos, kw, st, ex):
            d = dict(zip(("coords", "new_coord", "dims"), pos))
            d.update(kw)
            if set(d) != {"coords", "new_coord", "dims"}:
                return NotImplemented
            d = {x: en.frozen(y, st) for x, y in d.items()}
            ev = en.oracle.ev
            rows, cand = rows_of(ev.ev(d["coords"])), rows_of(ev.ev(d["new_coord"]))
            if rows is None or cand is None or len(cand) != 1 or cand[0] not in self.where:
                return NotImplemented
            i = self.where[cand[0]]
            ok = self.verdicts[i] or not rows
            self.asked.append((i, rows, ok, ev.ev(d["dims"]), 0))
            q = self.k ** 2
            vals = [q * (1.02 + j) for j in range(len(rows))]
            if not ok:
                vals[len(rows) * 2 // 3] = q * 0.98
            return N("call", N("ext", "numpy.array"), (LISTC(*[K(x) for x in vals]), N("ext", "builtins.float")), ())
        e.ihooks["get_p_dist"] = dist


class Batch(Story):
    """the routine that places a batch of atoms at a time"""

    def __init__(self, grid, cells, verdicts, k, size):
        super().__init__(grid, cells)
        self.verdicts, self.k, self.size, self.n = verdicts, k, size, 0

    def install(self, e):
        super().install(e)

        def dist(en, pos, kw, st, ex):
            d = dict(zip(("compare_coords", "new_coords", "dims", "min_dist_2"), pos))
            d.update(kw)
            if set(d) != {"compare_coords", "new_coords", "dims", "min_dist_2"}:
                return NotImplemented
            ev = en.oracle.ev
            d = {x: ev.ev(en.frozen(y, st)) for x, y in d.items()}
            cand, comp, q = rows_of(d["new_coords"]), dom.arr(d["compare_coords"]), d["min_dist_2"]
            q = q.const() if hasattr(q, "const") else None
            if cand is None or not isinstance(comp, dom.T) or dom.has_unk(comp) or len(comp.shape) != 3 or comp.shape[0] not in (1, len(cand)) or q is None \
                    or any(x not in self.where for x in cand):
                return NotImplemented
            self.n += 1
            out = []
            for j, x in enumerate(cand):
                r = dom.row(comp, j if comp.shape[0] > 1 else 0)
                i = self.where[x]
                rows = rows_of(r) if comp.shape[1] else []
                if float(q) < float(self.k) ** 2 * (1 - 1e-9):
                    self.short = float(q)
                self.asked.append((i, rows, self.verdicts[i], d["dims"], self.n))
                out.append(K(self.verdicts[i]))
            return N("call", N("ext", "numpy.array"), (LISTC(*out),), ())
        e.ihooks["get_p_dist_batch"] = dist

    short = None


class Patient:
    """a long run of rejected candidates: what counts the attempts is moved on to a given number after a few"""
    far = 100

    def install(self, e):
        super().install(e)
        e.far = self.far
        self.jumped = False

        def leaps():
            a = self.asked[-4:]
            if self.jumped or len(a) < 4 or any(x[2] for x in a):
                return False
            self.jumped = True
            return True
        e.leaps = leaps


class PatientOne(Patient, One):
    pass


class PatientBatch(Patient, Batch):
    pass


def judge(c, story, call, dims, grid, n):
    cell = [Fr(str(d)) / g for d, g in zip(dims, grid)]
    k = Fr(str(story.k))
    place, story.where = [], {}
    for i, b in enumerate(story.cells):
        b = b if isinstance(b, Spot) else Spot(b)
        p = tuple(dom.fp(dom.smul(rconst(cell[j]), dom.sadd(rconst(b.low(j)), dom.smul(rconst(b.size), unit(i, j))))) for j in range(3))
        place.append(p)
        story.where[p] = i
    r = c.analyse("return %s" % call, {}, {}, hooks=story.install, models=MODELS)
    f = c.failures(r)
    where = analysed(r)
    if f:
        return (UNDECIDED if isinstance(story, Patient) else VIOLATION), "does not complete: %s" % (f[0][1],), [f[0][0]] + where
    got = rows_of(r.value())
    if got is None:
        return UNDECIDED, "coordinates not followed: " + repr(r.value())[:200]
    if len(got) != n:
        return VIOLATION, "%d atoms are returned for %d requested" % (len(got), n), where
    idx = []
    for p in got:
        if p not in story.where:
            return VIOLATION, "a returned atom is not at a candidate position: %s" % (p,), where
        idx.append(story.where[p])
    if story.__dict__.get("short"):
        return VIOLATION, "candidates are tested against %r, the square of the minimum distance is %r" % (story.short, story.k ** 2), where
    last = {}
    for a in story.asked:
        last.setdefault(a[0], []).append(a)
    def name(i):
        b = story.cells[i]
        return "candidate %d in cell %s" % (i, tuple(b)) + (" (part %s of %s)" % (tuple(b.off), 1 / b.size) if isinstance(b, Spot) and b.size != 1 else "")
    for a in story.asked:
        v = dom.arr(a[3])
        if not isinstance(v, dom.T) or [dom.fp(x) for x in dom.bcast_to(v, (3,))] != [dom.fp(rconst(Fr(str(d)))) for d in dims]:
            return VIOLATION, "%s is compared in a box of %s, not %s" % (name(a[0]), v, dims), where
    for j, i in enumerate(idx):
        if i in idx[:j]:
            return VIOLATION, "%s is returned twice" % name(i), where
        asks = last.get(i, [])
        if any(not a[2] for a in asks):
            return VIOLATION, "%s is accepted although it is closer than the minimum distance to an accepted atom" % name(i), where
        seen = {p for a in asks for p in (a[1] or ())}
        for q in idx[:j]:
            if adjacent(story.cells[i], story.cells[q], grid, cell, k) and place[q] not in seen:
                if isinstance(story, One) or not asks or asks[0][4] != max([a[4] for a in last.get(q, [])] or [0]):
                    return VIOLATION, "%s is accepted without comparing it with the accepted %s" % (name(i), name(q)), where
                return VIOLATION, "%s and %s of one batch are both accepted, uncompared, from adjacent cells" % (name(i), name(q)), where
    return HOLDS, "%d atoms, %d tests: each accepted one was compared with every earlier one in adjacent cells" % (n, len(story.asked)), where


def sequence(grid, n, seed):
    """cells, mostly at the faces of the grid, in an order that mixes near and far pairs"""
    x, out = seed * 2654435761 % 2 ** 32, []
    while len(out) < n:
        c = []
        for g in grid:
            x = (x * 1103515245 + 12345) % 2 ** 31
            q = x >> 16
            c.append((0, g - 1, g - 1, 0, q // 8 % g)[q % 5])
        out.append(tuple(c))
    return out


def parts(grid, n, seed, m):
    """the same near the faces of cells"""
    x, out = seed * 40503 % 2 ** 16 + 7, []
    for b in sequence(grid, n, seed):
        o = []
        for _ in range(3):
            x = (x * 1103515245 + 12345) % 2 ** 31
            o.append((0, m - 1, m - 1, (x >> 20) % m)[(x >> 16) % 4])
        out.append(Spot(b, o, Fr(1, m)))
    return out


def run(c):
    at = ["get_voxels"]
    for d, k in (([3.3, 3.3, 3.3], 1.0), ([6.7, 4.5, 5.9], 2.0), ([1.0, 7.0, 3.0], 1.5), ([2.0, 2.0, 2.0], 3.0), ([9.0, 9.0, 1.0], 2.5), ([8.0, 2.0, 4.0], 1.4), ([4.2, 8.4, 12.6], 1.4)):
        def cells(d=d, k=k):
            r = c.analyse("v,n=get_voxels(%r,np.array(%r))\nfor a in v:\n    for b in a:\n        b[0].append(1)\nreturn v,n" % (k, d), {}, {})
            f = c.failures(r)
            where = analysed(r)
            if f:
                return VIOLATION, "does not complete: %s" % (f[0][1],), [f[0][0]] + where
            v = r.value()
            if dom.has_unk(v) or not isinstance(v, dom.Seq):
                return UNDECIDED, repr(v)[:200]

            def plain(x):
                return [plain(y) for y in x.items] if isinstance(x, dom.Seq) else dom.cint(x)
            try:
                vox, nb = plain(v)
            except Exception:
                return UNDECIDED, repr(v)[:200]
            g = (len(vox), len(vox[0]), len(vox[0][0]))
            for i in range(3):
                if d[i] / g[i] < k * (1 - 1e-12) and g[i] > 1:
                    return VIOLATION, "%d cells along an axis of %r are narrower than %r" % (g[i], d[i], k), where
            for a in vox + nb:
                if len(a) != g[1] or any(len(b) != g[2] for b in a):
                    return VIOLATION, "cells do not form a grid", where
            for p in itertools.product(*map(range, g)):
                if vox[p[0]][p[1]][p[2]] != ([1] if p[2] == 0 else []):
                    return VIOLATION, "cell %s shares its list of atoms with another" % (p,), where
                have = {tuple(t) for t in nb[p[0]][p[1]][p[2]]}
                want = {q for q in itertools.product(*map(range, g)) if adjacent(p, q, g)}
                if have != want:
                    return VIOLATION, "neighbours of cell %s in a grid of %s: missing %s, beyond %s" % (p, g, sorted(want - have)[:3], sorted(have - want)[:3]), where
            return HOLDS, "%s cells with their adjacent cells" % (g,), where
        c.run("cells of a box %s at %r" % (d, k), cells, at=at, key="cells%s%r" % (d, k),
              rule="cells are at least the minimum distance wide and list exactly the adjacent ones, across the faces in x and y")

    def floors(d, w):
        return tuple(max(int(x / w + 1e-9), 1) for x in d)
    rule = "an accepted atom has been compared with every accepted atom in adjacent cells, and passed"
    boxes = [([3.3, 3.3, 3.3], 1.0), ([8.8, 6.6, 2.2], 2.0), ([1.1, 4.4, 3.3], 0.5), ([4.5, 4.5, 9.5], 2.0), ([2.0, 11.0, 8.4], 2.1), ([1.0, 1.0, 1.0], 1.2)]
    for d, k in boxes:
        g = floors(d, k)
        for n, seed in ((5, 1), (7, 2), (9, 3)):
            for rej, near in itertools.product(("no", "some", "many"), (0, 16)):
                m = {"no": 1, "some": 3, "many": 2}[rej]
                cells = parts(g, 3 * n, seed, near) if near else sequence(g, 3 * n, seed)
                ver = [rej == "no" or (i * 7 // 3) % m != 1 for i in range(len(cells))]
                nm = "%d atoms in %s at %r, %s rejections, order %d%s" % (n, d, k, rej, seed, ", near faces of cells" if near else "")
                call = "gen_p_substrate(%r,min_dist=%r,density=%r)" % (d, k, n / (d[0] * d[1] * d[2]))
                c.run(nm, lambda g=g, cells=cells, ver=ver, k=k, call=call, d=d, n=n: judge(c, One(g, cells, ver, k), call, d, g, n), at=["gen_p_substrate"], key=nm, rule=rule)
    for far in (50, 100, 200, 500, 1000, 2000, 5000, 10000, 50000, 100000, 1000000):
        for d, k, n, pre in (([2.0, 2.0, 2.0], 2.0, 3, 1), ([4.4, 3.3, 2.2], 1.0, 5, 3)):
            g = floors(d, k)
            cells = sequence(g, pre, 1)
            cells = cells + [cells[i % pre] for i in range(16)] + sequence(g, 20, 2)
            ver = [True] * pre + [False] * 16 + [True] * 20
            call = "gen_p_substrate(%r,min_dist=%r,density=%r)" % (d, k, n / (d[0] * d[1] * d[2]))
            nm = "%d atoms in %s at %r, %d rejections in a row" % (n, d, k, far)

            def wait(g=g, cells=cells, ver=ver, k=k, call=call, d=d, n=n, far=far):
                s = PatientOne(g, cells, ver, k)
                s.far = far
                return judge(c, s, call, d, g, n)
            c.run(nm, wait, at=["gen_p_substrate"], key=nm, rule=rule)
    def batched(nm, d, k, s, n, b, cells, ver):
        g = floors(d, k * s)
        call = "gen_p_substrate_batched(%r,min_dist=%r,density=%r,voxel_scale=%r,batch_size=%d)" % (d, k, n / (d[0] * d[1] * d[2]), s, b)
        c.run(nm, lambda: judge(c, Batch(g, cells, ver, k, b), call, d, g, n), at=["gen_p_substrate_batched"], key=nm, rule=rule)
    for d, k, s in (([6.6, 6.6, 6.6], 1.0, 2.0), ([8.8, 6.6, 4.4], 2.0, 1.0), ([4.5, 4.5, 6.5], 1.0, 1.5), ([2.0, 11.0, 8.4], 1.0, 2.0), ([3.0, 3.0, 3.0], 2.0, 2.0),
                    ([13.0, 4.2, 6.1], 1.0, 2.0)):
        g = floors(d, k * s)
        for n, b, seed in ((5, 3, 1), (6, 4, 2), (7, 2, 3), (4, 1, 4), (6, 8, 5)):
            for rej, near in itertools.product(("no", "some"), (0, 16)):
                cells = parts(g, 14 * n * b // b * b, seed, near) if near else sequence(g, 14 * n * b // b * b, seed)
                ver = [rej == "no" or i % 3 != 1 for i in range(len(cells))]
                batched("%d atoms in %s at %r, batches of %d, cells scaled %r, %s rejections%s" % (n, d, k, b, s, rej, ", near faces of cells" if near else ""), d, k, s, n, b, cells, ver)
    for far in (50, 100, 200, 500, 1000, 2000, 5000, 10000, 50000, 100000, 1000000):
        for d, n, b, pre in (([2.0, 2.0, 2.0], 3, 1, 1), ([6.6, 4.5, 4.5], 4, 2, 2)):
            g = floors(d, 2.0)
            cells = sequence(g, pre, 1)
            cells = cells + [cells[i % pre] for i in range(16)] + sequence(g, 80, 2)
            ver = [True] * pre + [False] * 16 + [True] * 80
            call = "gen_p_substrate_batched(%r,min_dist=1.0,density=%r,voxel_scale=2.0,batch_size=%d)" % (d, n / (d[0] * d[1] * d[2]), b)
            nm = "%d atoms in %s, batches of %d, %d rejections in a row" % (n, d, b, far)

            def wait(g=g, cells=cells, ver=ver, call=call, d=d, n=n, b=b, far=far):
                s = PatientBatch(g, cells, ver, 1.0, b)
                s.far = far
                return judge(c, s, call, d, g, n)
            c.run(nm, wait, at=["gen_p_substrate_batched"], key=nm, rule=rule)
    # one batch with candidates in adjacent cells that are not next to each other in the order of cells
    for d, ax in (([2.0, 11.0, 8.4], 1), ([11.0, 2.0, 8.4], 0)):
        g = floors(d, 2.0)
        row = [tuple(q if i == ax else 0 for i in range(3)) for q in (0, 2, 4)]
        for n in (2, 3):
            rest = sequence(g, 60, n)
            cells = row + rest
            batched("%d atoms in %s, adjacent cells apart in the batch" % (n, d), d, 1.0, 2.0, n, 3, cells, [True] * len(cells))
    # a large batch: adjacent cells (also across the faces) far apart among its candidates
    for d, ax in (([2.0, 33.0, 2.0], 1), ([33.0, 2.0, 2.0], 0)):
        g = floors(d, 2.0)
        m = g[ax]
        for nm, row in (("across the face", list(range(0, m - 2, 2)) + [m - 1]), ("in the middle", list(range(1, m, 2)) + [4]), ("two pairs", [0, 2, 4, 5, 7, 9, 11, 13, 15])):
            cells = [tuple(q if i == ax else 0 for i in range(3)) for q in row]
            rest = sequence(g, 160, m)
            batched("%d candidates in %s, adjacent ones %s" % (len(row), d, nm), d, 1.0, 2.0, len(row) - 1, len(row), cells + rest, [True] * 200)
    # many atoms in the same few cells
    for d in ([2.0, 2.0, 2.0], [4.0, 2.0, 2.0]):
        g = floors(d, 2.0)
        for n in (12, 18):
            cells = sequence(g, 90, n)
            batched("%d crowded atoms in %s" % (n, d), d, 1.0, 2.0, n, 1, cells, [i % 4 != 2 for i in range(90)])
            call = "gen_p_substrate(%r,min_dist=2.0,density=%r)" % (d, n / (d[0] * d[1] * d[2]))
            nm = "%d crowded atoms in %s, one at a time" % (n, d)
            c.run(nm, lambda cells=cells, call=call, d=d, g=g, n=n: judge(c, One(g, cells, [i % 4 != 2 for i in range(90)], 2.0), call, d, g, n), at=["gen_p_substrate"], key=nm, rule=rule)
    # the last batch has more accepted candidates than atoms are missing, after rejected ones
    d = [11.0, 2.0, 11.0]
    g = floors(d, 2.0)
    far = [(0, 0, 0), (2, 0, 0), (0, 0, 2), (2, 0, 2), (0, 0, 4), (2, 0, 4)]
    for n in (1, 2, 3):
        for rej in ((), (0,), (1,), (0, 1), (2,)):
            ver = [i not in rej for i in range(6)] + [True] * 60
            batched("%d atoms in %s, six far candidates, rejected %s" % (n, d, rej), d, 1.0, 2.0, n, 6, far + sequence(g, 60, 9), ver)
    # amorphous generators hand their own settings to the packing routine
    def ask(e):
        e.ihooks["gen_p_substrate"] = lambda en, pos, kw, st, ex: taken(en, pos, kw, st)

    def taken(en, pos, kw, st):
        d = dict(zip(("dims", "min_dist", "density", "print_progress", "seed"), pos))
        d.update(kw)
        st.heap[(K("asked"), "#n")] = N("tup", *[en.frozen(d[x], st) if x in d else K(v) for x, v in (("dims", None), ("min_dist", 1.4), ("density", .1103075))])
        return SYM("block", A(3, 3))
    env = dict(bb=A(2, 3), k="float", q="float", k2="float", q2="float", go=A(3))

    def settings(nm, drv, want):
        def one():
            r = c.analyse(drv, env, {"k": "pos", "q": "pos", "k2": "pos", "q2": "pos"}, hooks=ask)
            f = c.failures(r)
            where = analysed(r)
            if f:
                return VIOLATION, "does not complete: %s" % (f[0][1],), [f[0][0]] + where
            got = r.st.heap.get((K("asked"), "#n"))
            if got is None:
                return UNDECIDED, "packing routine not called"
            s = c.analyse("return (np.max(bb,axis=0)-np.min(bb,axis=0),%s,%s)" % want, env, {"k": "pos", "q": "pos", "k2": "pos", "q2": "pos"})
            res, why = compare.verdict(r.ev.ev(got), s.value(), False)
            if res == compare.HOLDS:
                return HOLDS, "box, minimum distance and density are those of the generator", where
            return (VIOLATION if res == compare.DIFFERS else UNDECIDED), "not the generator's settings: " + str(why)[:300], where
        c.run(nm, one, at=["AmorphousGenerator.supply_atoms"], key=nm, rule="blocks are packed at the generator's minimum distance and density")
    settings("block with given settings", "g=AmorphousGenerator(min_dist=k,density=q)\ng.supply_atoms(bb)\nreturn 0", ("k", "q"))
    settings("block with an origin", "g=AmorphousGenerator(origin=go,min_dist=k,density=q,species=14)\ng.supply_atoms(bb)\nreturn 0", ("k", "q"))
    settings("block with default settings", "g=AmorphousGenerator()\ng.supply_atoms(bb)\nreturn 0", ("1.4", ".1103075"))
    settings("block after changed settings", "g=AmorphousGenerator(min_dist=k,density=q)\ng.min_dist=k2\ng.density=q2\ng.supply_atoms(bb)\nreturn 0", ("k2", "q2"))
    settings("block of a copy", "g=AmorphousGenerator(min_dist=k,density=q).from_generator()\ng.supply_atoms(bb)\nreturn 0", ("k", "q"))
    settings("second block", "g=AmorphousGenerator(min_dist=k,density=q)\ng.supply_atoms(np.zeros((2,3)))\ng.supply_atoms(bb)\nreturn 0", ("k", "q"))
