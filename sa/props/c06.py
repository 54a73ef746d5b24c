"""Abstract interpretation of Generator.supply_atoms over unknown lattices,
scales, origins and unit cells: the requested region is given by lattice
coordinates of its corners, so the tiling range folds to constants while
bases, origin, fractional coordinates and species stay symbolic; every required
translation of every site must be among the returned rows, beside its own
species, and every returned row must be a lattice translate of a site. The tiling
range itself is compared with floor/ceil of the extreme lattice coordinates
for symbolic corners."""
import itertools
import math

from sa import compare, dom
from sa.alg import rconst
from sa.check import HOLDS, UNDECIDED, VIOLATION, analysed
from sa.check import arrty as A
from sa.vfg import SYM
from . import common as cm

REGIONS = [
    # corners in lattice coordinates
    [(0, 0, 0), (1, 1, 1)],
    [(-0.5, 0.25, 0.75), (0.5, 1.25, 0.875)],
    [(-2.25, -1.5, -1.75), (-1.125, -0.5, -1.25)],
    [(0.25, 0.25, 0.25), (0.75, 0.75, 0.5)],
    [(0.5, -1.0, 0.0), (2.5, -0.25, 0.0)],
    [(0.125, 0, 0), (0, 0.625, 0), (0, 0, -1.375), (1.5, 0.25, 0.25)],
    [(-0.75, -0.75, -0.75), (0.25, 0, 0.5), (1.25, 0.5, -0.25), (0, 0, 0), (0.5, 0.5, 0.5)],
    [(1.25, 2.5, 3.75), (2.25, 1.0, 3.25)],
    # many corners, each extreme given by one of them
    [(0, 0, 0), (0.25, 1.5, 0.25), (0.5, 0.25, 0.5), (-1.5, 0, 0.25), (0.25, 0.5, 1.25), (0.5, -0.75, 0.5), (0, 0.25, 0), (0.75, 0.5, 0.25), (0.25, 0, -0.5),
     (1.75, 0.5, 0.5), (0.5, 0.25, 0.75)],
    [(0.25 * (i % 5), 0.25 * (i % 4), 0.125 * (i % 7)) for i in range(12)] + [(-0.5, 1.25, 0.25), (1.25, -1.25, 1.5)],
    # one axis positive, one negative, one across zero
    [(1.25, -2.5, -0.5), (1.75, -1.25, 0.75)],
    [(-0.5, 1.25, -2.5), (0.75, 1.5, -1.25)],
    [(-2.5, -0.25, 1.125), (-2.25, 0.5, 1.375)],
    [(-1.75, -1.25, -3.0), (-1.5, -1.0, -2.0)],
    # within one cell, away from the first, and a single point
    [(2.125, -1.75, 0.25), (2.25, -1.625, 0.375)],
    [(0.5, 0.5, 0.5)],
    [(-0.125, -0.125, -0.125), (0.125, 0.125, 0.125)],
]
MAKE = {
    "structure": "g=Generator(structure=S,origin=go)\n",
    "structure after origin": "g=Generator(origin=go)\ng.structure=S\n",
    "origin after structure": "g=Generator(structure=S)\ng.origin=go\n",
    "scaled": "g=Generator(structure=S,origin=go)\ng.voxel.scale=np.array([2.0])\n",
    "scaled per axis": "g=Generator(structure=S,origin=go)\ng.voxel.scale=np.array([2.0,0.5,3.0])\n",
    "rotated": "g=Generator(structure=S,origin=go)\ng.transform(MatrixTransform(M,go))\n",
    "moved": "g=Generator(structure=S,origin=go-d)\ng.transform(Translation(d))\n",
    "copied": "g=Generator(structure=S,origin=go).from_generator()\n",
    "copied and moved": "g=Generator(structure=S,origin=go-d).from_generator(transformation=[Translation(d)])\n",
    "held by a volume": "g=Volume(generator=Generator(structure=S,origin=go)).generator\n",
    "held by a volume with its own origin": "g=Volume(generator=Generator(structure=S),gen_origin=go).generator\n",
}
BASES = {"scaled": "(2*S_m.T)", "scaled per axis": "(S_m.T*np.array([2.0,0.5,3.0]))", "rotated": "(M@S_m.T)"}


def run(c):
    at = ["Generator.supply_atoms", "Voxel.get_extents"]

    def tiling(name, nat, make, reg, twice=False):
        env, setup0 = cm.structure("S", nat)
        env.update(go=A(3), M=A(3, 3), d=A(3), md=A(3), bx=A(2, 3))
        fc = [list(q) for q in REGIONS[reg]]
        bas = BASES.get(make, "S_m.T")

        def setup(e, en):
            return setup0(e, en)

        def go():
            drv = MAKE[make] + ("g.supply_atoms(bx0)\n" if twice else "") + "return g.supply_atoms(box)"
            pre = "box=np.array(%r)@%s.T+go\n" % (fc, bas)
            if twice:
                pre += "bx0=np.array(%r)@%s.T+go\n" % ([[0, 0, 0], [2, 1, 1]], bas)
            r = c.analyse(pre + drv, env, {"md": "pos"}, setup)
            where = analysed(r)
            f = c.failures(r)
            if f:
                return VIOLATION, "does not complete: " + f[0][1], [f[0][0]] + where
            v = r.value()
            if not (isinstance(v, dom.Seq) and len(v.items) == 2):
                return UNDECIDED, "result is %s" % dom.short(v), where
            at_, sp_ = dom.arr(v.items[0]), dom.arr(v.items[1])
            if not (isinstance(at_, dom.T) and isinstance(sp_, dom.T)):
                return UNDECIDED, "the tiling range is not constant: %s / %s" % (dom.short(at_), dom.short(sp_)), where
            if len(at_.shape) != 2 or at_.shape[1] != 3 or len(sp_.shape) != 1 or sp_.shape[0] != at_.shape[0]:
                return VIOLATION, "positions have shape %s, species %s" % (at_.shape, sp_.shape), where
            if dom.has_unk(v):
                return UNDECIDED, "untracked values", where
            lo = [math.floor(min(q[k] for q in fc)) for k in range(3)]
            hi = [math.ceil(max(q[k] for q in fc)) for k in range(3)]
            cells = list(itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)]))
            sr = c.analyse("B=%s\nreturn [[B@(np.array(t)+S_fc[k])+go for k in range(%d)] for t in %r]" % (bas, nat, cells),
                           env, {"md": "pos"}, setup).value()
            sps = r.ev.ev(SYM("S_sp", A(nat)))
            req = []
            for t, row in zip(cells, cm.items(sr)):
                for k, x in enumerate(cm.items(row)):
                    req.append(("site %d of cell %s" % (k, t), dom.Seq("tuple", [x, dom.row(sps, k)])))
            found = [dom.Seq("tuple", [dom.row(at_, i), dom.row(sp_, i)]) for i in range(at_.shape[0])]
            wide = [t for t in itertools.product(*[range(a - 3, b + 4) for a, b in zip(lo, hi)])]

            def extra(w, s):
                B = compare.nv(c.analyse("return %s" % bas, env, {"md": "pos"}, setup).value(), s)
                o = compare.nv(r.ev.ev(SYM("go", A(3))), s)
                F = compare.nv(r.ev.ev(SYM("S_fc", A(nat, 3))), s)
                P = compare.nv(sps, s)
                for t in wide:
                    for k in range(nat):
                        if abs(P[2 + k] - w[2]) > 1e-6:
                            continue
                        x = [sum(B[2 + i][2 + j] * (t[j] + F[2 + k][2 + j]) for j in range(3)) + o[2 + i] for i in range(3)]
                        if all(abs(x[i] - w[1][2 + i]) < 1e-6 * (1 + abs(x[i])) for i in range(3)):
                            return None
                return "a returned atom is no lattice translate of a site with its species"
            st, d = cm.match_rows(found, req, extra)
            return {"holds": HOLDS, "differs": VIOLATION}.get(st, UNDECIDED), d, where
        c.run(name, go, "every required translate of every site, beside its species", at=at)
    makes = list(MAKE)
    for reg in range(len(REGIONS)):
        tiling("region %d, two sites, %s" % (reg, makes[0]), 2, makes[0], reg)
    for k, mk in enumerate(makes[1:]):
        for reg in ((1, 2, 5) if c.thorough else ((1 + k) % len(REGIONS),)):
            tiling("region %d, two sites, generator %s" % (reg, mk), 2, mk, reg)
    for nat in (1, 3):
        for reg in (1, 6):
            tiling("region %d, %d sites" % (reg, nat), nat, makes[0], reg)
    tiling("second request after a larger one", 2, makes[0], 3, twice=True)

    # the lattice that is tiled
    env, setup = cm.structure("S", 2)
    env.update(go=A(3), M=A(3, 3), d=A(3), md=A(3))
    for mk in makes:
        c.eq("lattice vectors and origin, generator " + mk, MAKE[mk] + "return g.voxel.sbases,g.voxel.origin,g.origin,g.coords,g.species",
             "return %s,go,go,S_fc,S_sp" % BASES.get(mk, "S_m.T"), env, {"md": "pos"}, setup=setup, at=at[:1] + ["Generator.structure"],
             rule="columns are the structure's lattice vectors, scaled and transformed")

    # the range for symbolic corners
    env = dict(Bs=A(3, 3), bd=A(3), go=A(3), P=A(2, 3), P3=A(3, 3))
    for name, b, pt in (("two corners, orthogonal cell", "np.diag(bd)", "P"), ("three corners, orthogonal cell", "np.diag(bd)", "P3")):
        c.eq("tiling range, " + name, "v=Voxel(bases=%s,origin=go)\nreturn v.get_extents(%s)" % (b, pt),
             "f=np.array([np.linalg.inv(%s)@(p-go) for p in %s])\nreturn np.floor(np.min(f,axis=0)),np.ceil(np.max(f,axis=0))" % (b, pt),
             env, {"bd": "pos"}, at="Voxel.get_extents", rule="range rounds down below and up above")
