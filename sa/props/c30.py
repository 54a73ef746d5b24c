"""Constant propagation through the neighbour-list routine of voxel grids: for every
grid up to four cells along each axis (and longer ones along one axis) and every
combination of periodic directions, the list of each cell is compared with the set
of cells that differ by at most one step along each axis, steps across an edge
counting only where that direction is periodic. Three cells along an axis are the
first size at which first, interior and last cells are distinct, so the enumerated
grids contain every combination of edge cases in which the lists are built."""
import itertools


def adjacent(d, per):
    out = []
    for z, y, x in itertools.product(range(d[2]), range(d[1]), range(d[0])):
        c = set()
        for s in itertools.product((-1, 0, 1), repeat=3):
            q = []
            for p, t, n, w in zip((x, y, z), s, d, per):
                if not 0 <= p + t < n and not w:
                    break
                q.append((p + t) % n)
            else:
                c.add(q[0] + d[0] * (q[1] + d[1] * q[2]))
        out.append(sorted(c))
    return out


def run(c):
    dims = [d for d in itertools.product((1, 2, 3), repeat=3)]
    dims += [(4, 4, 4), (5, 2, 3), (2, 5, 3), (3, 2, 5), (4, 3, 1), (6, 1, 2), (1, 6, 2), (2, 1, 6)]
    if c.thorough:
        dims = sorted(set(dims) | set(itertools.product((1, 2, 3, 4), repeat=3)))
    for d in dims:
        for per in itertools.product((True, False), repeat=3):
            nm = "grid %dx%dx%d, periodic in %s" % (d + ("".join(a for a, w in zip("xyz", per) if w) or "no direction",))
            c.eq(nm, "return [sorted(set([int(k) for k in x])) for x in get_voxel_grid(%r,%s,%s,%s)]" % ((d,) + per), "return %r" % adjacent(d, per), {}, {},
                 at="get_voxel_grid", key=nm, rule="the list of a cell holds exactly the cells adjacent to it under the requested periodicity")
    for d in ((3, 3, 3), (2, 3, 4)):
        c.eq("grid %dx%dx%d, defaults" % d, "return [sorted(set([int(k) for k in x])) for x in get_voxel_grid(np.array(%r))]" % (list(d),),
             "return %r" % adjacent(d, (True,) * 3), {}, {}, at="get_voxel_grid", rule="grids are periodic in every direction unless requested otherwise")
        c.eq("grid %dx%dx%d, keywords" % d, "return [sorted(set([int(k) for k in x])) for x in get_voxel_grid(dim=%r,pz=False,px=True,py=True)]" % (d,),
             "return %r" % adjacent(d, (True, True, False)), {}, {}, at="get_voxel_grid", rule="each flag concerns its own direction")
