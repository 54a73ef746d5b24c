PRE = '''import numpy as np
from czone.scene import Scene
from czone.volume import Volume, MultiVolume, makeRectPrism
from czone.volume.algebraic import Sphere, Plane, Cylinder, snap_plane_near_point
from czone.generator import Generator, AmorphousGenerator
from czone.molecule import Molecule
from czone.transform import *
from pymatgen.core import Structure, Lattice


def crystal(a=1.5, el=("C",), xyz=((0, 0, 0),), **kw):
    return Generator(structure=Structure(Lattice.cubic(a), list(el), [list(x) for x in xyz]), **kw)


def done(ok, *what):
    print(*what)
    raise SystemExit(0 if ok else 1)


'''


def s(id, prop, file, edits, demo, needs, breaks):
    return dict(id=id, prop=prop, pre=PRE, edits=[(file, a, b) for a, b in edits], demo=demo, needs=needs, breaks=breaks)


G, V, X, A, T, SC = ("czone/generator/generator.py", "czone/volume/volume.py", "czone/volume/voxel.py",
                     "czone/volume/algebraic.py", "czone/transform/transform.py", "czone/scene/scene.py")
SEEDS = [
 s("tiling_first_eight_corners", "C06", X, [("        for point in box:\n", "        for point in box[:8]:\n")], '''
g = crystal()
box = np.vstack([makeRectPrism(3, 3, 3, center=np.zeros(3)), [[9.0, 0, 0]]])
p, _ = g.supply_atoms(box)
done(p[:, 0].max() >= 9.0 - 1e-6, "largest x supplied:", p[:, 0].max())
''', "a region given by more than eight points, one of the later ones extreme",
   "only the first eight points of the region are considered when choosing the cells to tile"),
 s("tetrahedron_hull_stale", "C09", V, [
   ("        self._hull = ConvexHull(self.points, incremental=True)\n        self._tri = Delaunay(self.hull.points[self.hull.vertices])\n",
    "        self._hull = ConvexHull(self.points, incremental=True)\n        if getattr(self, \"_tri\", None) is None or len(self._tri.points) != len(self.hull.vertices):\n            self._tri = Delaunay(self.hull.points[self.hull.vertices])\n")], '''
P = makeRectPrism(2, 2, 2)
v = Volume(points=P, generator=crystal())
v.checkIfInterior(P)
v.transform(Translation(np.array([10.0, 0, 0])))
inside = v.checkIfInterior(np.array([[11.0, 1.0, 1.0], [1.0, 1.0, 1.0]]))
done(inside[0] and not inside[1], inside)
''', "a move of the hull points between two queries which keeps the number of hull vertices",
   "the triangulation is not rebuilt after the points have moved"),
 s("voxel_origin_shared", "C10", X, [("        self._origin = np.array(origin)\n", "        self._origin = np.asarray(origin)\n")], '''
o = np.array([1.0, 2.0, 3.0])
g = crystal(origin=o)
h = crystal(origin=o)
o += 5
done(np.allclose(g.origin, [1, 2, 3]) and np.allclose(h.origin, [1, 2, 3]), g.origin, h.origin)
''', "the caller changing, after construction, the array given as origin",
   "generators share the caller's origin array"),
 s("prism_centre_in_place", "C11", V, [
   ("        cur_center = np.mean(points, axis=0)\n        return points + (center - cur_center)",
    "        center -= np.mean(points, axis=0)\n        return points + center")], '''
c = np.array([5.0, 5.0, 5.0])
makeRectPrism(2, 2, 2, center=c)
done(np.allclose(c, 5.0), "centre afterwards:", c)
''', "using the array given as the prism's centre after the call", "the caller's centre is overwritten"),
 s("prismatic_first_object_species", "C15", SC, [("set(self.all_species)", "set(self.objects[0].species)")], '''
import os, tempfile
a = Volume(points=makeRectPrism(4, 4, 4), generator=crystal(el=("C",)))
b = Volume(points=makeRectPrism(4, 4, 4) + 6, generator=crystal(el=("O",)))
sc = Scene(bounds=np.array([[0.0] * 3, [12.0] * 3]), objects=[a, b])
sc.populate()
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "x.xyz")
    try:
        sc.to_file(f, format="prismatic")
        n = len(open(f).read().split("\\n"))
        ok = n >= len(sc.all_atoms) + 3
        msg = n
    except Exception as e:
        ok, msg = False, repr(e)
done(ok, msg)
''', "prismatic output of a scene whose first object lacks a species of the others, without Debye-Waller factors",
   "default Debye-Waller factors are assigned only to species of the first object"),
 s("packing_recent_candidates_only", "C18", "czone/generator/amorphous_algorithms.py", [
   ("            for j in range(i):\n", "            for j in range(max(0, i - 4), i):\n")], '''
from czone.generator.amorphous_algorithms import gen_p_substrate_batched
bad = 0
for seed in range(6):
    d = np.array([20.0, 20.0, 5.0])
    p = gen_p_substrate_batched(d, min_dist=1.4, density=0.05, seed=seed, batch_size=64)
    q = np.abs(p[:, None] - p[None])
    q[..., :2] = np.minimum(q[..., :2], d[:2] - q[..., :2])
    r = np.sqrt((q ** 2).sum(-1)) + 10 * np.eye(len(p))
    bad += int((r < 1.4 - 1e-9).sum())
done(bad == 0, "pairs too close:", bad)
''', "a batch with more than five surviving candidates, two of them close and far apart in the batch",
   "a candidate is compared only with the four before it in its batch"),
 s("rotation_sense_lost", "C19", T, [("    v = v * (theta / np.linalg.norm(v))", "    v = v * (np.abs(theta) / np.linalg.norm(v))")], '''
R = rot_v(np.array([0.0, 0, 1.0]), -np.pi / 2)
done(np.allclose(R @ [1, 0, 0], [0, -1, 0]), R)
''', "a negative angle", "negative angles turn in the positive sense"),
 s("strain_bases_scraped_once", "C20", "czone/transform/strain.py", [
   ("            self._bases = np.copy(obj.voxel.sbases)", "            if self._bases is None:\n                self._bases = np.copy(obj.voxel.sbases)")], '''
g = crystal(a=2.0)
g.strain_field = HStrain(matrix=[1.1, 1.0, 1.0])
box = makeRectPrism(3, 3, 3)
g.supply_atoms(box)
g.transform(Rotation(rot_v(np.array([0.0, 0, 1.0]), np.pi / 2)))
p, _ = g.supply_atoms(box)
xs, ys = np.unique(np.round(p[:, 0], 6)), np.unique(np.round(p[:, 1], 6))
done(np.allclose(np.diff(ys), 2.2) and np.allclose(np.diff(xs), 2.0), np.diff(xs), np.diff(ys))
''', "atoms supplied once, the generator turned, and atoms supplied again",
   "the strain keeps acting along the lattice directions of the first use"),
 s("snap_reduced_indices", "C21", A, [
   ("    miller_indices = np.array(miller_indices)\n", "    miller_indices = np.array(miller_indices)\n    miller_indices = miller_indices // max(np.gcd.reduce(miller_indices), 1)\n")], '''
g = crystal(a=4.0)
p = snap_plane_near_point(np.array([0.0, 0, 1.9]), g, (0, 0, 2))
done(np.isclose(p.point.ravel()[2], 2.0), p.point)
''', "Miller indices with a common factor", "planes of higher order are snapped to the spacing of the first order"),
 s("splits_reseed_forgets", "C22", "czone/util/misc.py", [
   ("            idx.mask = np.abs(idx.data - splits[-1]) < m\n", "            idx.mask = np.abs(idx.data - splits[-1]) < 1\n")], '''
from czone.util.misc import get_N_splits
bad = 0
for seed in range(300):
    s_ = get_N_splits(3, 4, 21, seed=seed)
    bad += int(np.min(np.diff(s_)) < 4)
done(bad == 0, "selections violating the separation:", bad)
''', "a tight request, for which the first choices leave no room and the selection restarts",
   "after a restart the first plane's neighbourhood is no longer excluded"),
 s("molecule_origin_follows_first", "C23", "czone/molecule/molecule.py", [
   ("        positions = np.reshape(positions, self.atoms.shape)\n        self._atoms = positions",
    "        positions = np.reshape(positions, self.atoms.shape)\n        if not self._origin_tracking:\n            self._origin = self._origin + positions[0] - self.atoms[0]\n        self._atoms = positions")], '''
m = Molecule([6, 8], np.array([[0.0, 0, 0], [1.2, 0, 0]]), origin=np.array([9.0, 9, 9]))
m.update_positions(np.array([[1.0, 1, 1], [2.2, 1, 1]]))
done(np.allclose(m.origin, 9.0), m.origin)
''', "positions updated while the origin is a fixed point", "a fixed origin moves with the first atom"),
 s("adsorbate_any_outside", "C24", "czone/surface/adsorbate.py", [
   ("    if np.all(np.logical_not(volume.checkIfInterior(mol_out.atoms))):", "    if not np.all(volume.checkIfInterior(mol_out.atoms)):")], '''
from czone.surface.adsorbate import add_adsorbate
v = Volume(alg_objects=[Sphere(8.0, np.zeros(3))], points=makeRectPrism(16, 16, 16, center=np.zeros(3)), generator=crystal(a=2.5))
v.populate_atoms()
m = Molecule([8, 6], np.array([[0.0, 0, 0], [0, 0, -4.0]]))
r = add_adsorbate(m, 0, 1.5, v, seed=4, use_sampling=False)
out, ok = r
hit = bool(np.any(v.checkIfInterior(out.atoms)))
done(ok == (not hit), "reported:", ok, "inside:", hit)
''', "a molecule partly inside the host", "a placement is reported as successful if any atom is outside"),
 s("substitution_chains", "C25", "czone/transform/post.py", [("            t_filter = species == t\n", "            t_filter = out_species == t\n")], '''
from czone.transform.post import ChemicalSubstitution
c = ChemicalSubstitution([6, 8], [8, 7], 1.0)
_, sp = c.apply_function(np.zeros((4, 3)), np.array([6, 8, 6, 1]))
done(list(sp) == [8, 7, 8, 1], sp)
''', "a substitute that is itself a later target", "substituted atoms are substituted again"),
 s("alignment_point_turned_about_zero", "C26", T, [
   ("    M_point_r = R_t.applyTransformation(M_point)", "    M_point_r = Rotation(matrix=R).applyTransformation(M_point)")], '''
M = Plane(np.array([1.0, 0, 0]), np.array([5.0, 0, 0]))
Tp = Plane(np.array([0.0, 0, 1.0]), np.array([0.0, 0, 2.0]))
mp, tp = np.array([5.0, 1.0, 2.0]), np.array([3.0, 4.0, 2.0])
t = s2s_alignment(M, Tp, mp, tp)
q = t.applyTransformation(mp.reshape(1, 3)).ravel()
done(np.allclose(q, tp), q, tp)
''', "a moving plane away from the coordinate origin, with reference points", "the reference points do not meet"),
 s("xz_periodic_axes_mixed", "C27", "czone/util/measure.py", [
   ("    cols = [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]\n", "    cols = list(range(int(px) + int(py) + int(pz))) if px else [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]\n")], '''
from czone.util.measure import get_sdist_fun
f = get_sdist_fun(dims=[10.0, 10.0, 10.0], px=True, py=False, pz=True)
a = np.array([[0.0, 0, 1.0]])[:, :, None]
b = np.array([[0.0, 0, 9.0]])[:, :, None]
done(np.allclose(f(a, b), 4.0), f(a, b))
''', "periodicity in x and z but not in y", "the y axis is treated as periodic instead of z"),
 s("winterbottom_energy_sign", "C28", "czone/prefab/wulff.py", [
   ("Winterbottom(self.surface_energies, interface, interface_energy,", "Winterbottom(self.surface_energies, interface, abs(interface_energy),")], '''
from czone.prefab.wulff import WulffSingle
g = Generator(structure=Structure.from_spacegroup("Fm-3m", Lattice.cubic(4.08), ["Au"], [[0, 0, 0]]))
w = WulffSingle(g, {(1, 0, 0): 1.1, (1, 1, 1): 1.0}, natoms=500)
v = w.winterbottom((1, 1, 1), -0.3)
d = [float(np.dot(p.normal, p.point)) for p in v.alg_objects]
done(min(d) < 0, "smallest facet distance:", min(d))
''', "a negative interface energy (strong wetting)", "the interface facet lies on the wrong side of the centre"),
 s("voxel_grid_upper_layers", "C30", "czone/util/measure.py", [
   ("    be = ((ind // dim[0]) % dim[1]) == (dim[1]-1)\n", "    be = (ind // dim[0]) == (dim[1]-1)\n")], '''
from czone.util.measure import get_voxel_grid
n = get_voxel_grid((4, 4, 4), True, True, True)
done(sorted(int(y) for y in n[12 + 16]) == sorted(
    (0 + x) % 4 + 4 * ((3 + y) % 4) + 16 * (1 + z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1)), n[28])
''', "a cell at the far y edge of a layer other than the first", "neighbours across the y edge are wrong above the first layer"),
 s("grain_boundary_absolute_priority", "C35", "czone/prefab/prefab.py", [("        vol_2.priority += 1", "        vol_2.priority = max(vol_2.priority, 1)")], '''
from czone.prefab.prefab import SimpleGrainBoundary
import inspect
g = crystal(a=3.0)
v = Volume(points=makeRectPrism(6, 6, 6), generator=g, priority=2)
b = SimpleGrainBoundary.__new__(SimpleGrainBoundary)
b.__init__(**{k: w for k, w in dict(z1=(0, 0, 1), r1=0, z2=(0, 1, 1), r2=0, volume=v, generator=g,
    plane=Plane(np.array([0.0, 0, 1.0]), np.array([0.0, 0, 3.0])), point=None).items() if k in inspect.signature(SimpleGrainBoundary.__init__).parameters})
m = b.build_object()
p = [x.priority for x in m.volumes]
done(p[1] == p[0] + 1, p)
''', "a host with a priority above zero", "both grains share one priority"),
 s("improper_rotation_accepted", "C12", T, [
   ("        assert (np.abs(np.linalg.det(val) - 1.0) < 1e-6", "        assert (np.abs(np.abs(np.linalg.det(val)) - 1.0) < 1e-6")], '''
try:
    Rotation(matrix=np.diag([1.0, 1.0, -1.0]))
    ok = False
except Exception:
    ok = True
done(ok, "an improper rotation was", "refused" if ok else "accepted")
''', "an improper orthogonal matrix", "reflections are accepted as rotations"),
 s("tracked_origin_lost_on_move", "C08", "czone/molecule/molecule.py", [
   ("                return\n            self.set_origin(point=transformation", "            self.set_origin(point=transformation")], '''
m = Molecule([6, 8], np.array([[0.0, 0, 0], [1.2, 0, 0]]))
m.set_origin(idx=1)
m.transform(Translation(np.array([1.0, 0, 0])))
done(np.allclose(m.origin, m.atoms[1]), m.origin, m.atoms[1])
''', "a molecule whose origin is tied to an atom being transformed", "the origin moves twice"),
 s("two_spheres_box", "C17", V, [("spheres[s_idx].center - (d / 2)", "spheres[0].center - (d / 2)")], '''
v = Volume(alg_objects=[Sphere(5.0, np.zeros(3)), Sphere(2.0, np.array([4.0, 0, 0]))], generator=crystal())
b = v.get_bounding_box()
w = np.array([4.9, 0, 0])
done((not v.checkIfInterior(w.reshape(1, 3))[0]) or np.all((b.min(0) <= w) & (w <= b.max(0))), b.min(0), b.max(0))
''', "two spheres, the smaller one not listed first", "the box has the smallest sphere's size but the first one's centre"),
 s("adsorbate_global_random_state", "C13", "czone/surface/adsorbate.py", [
   ("        cur_seed = rng.integers(0,10000,1)[0]", "        cur_seed = np.random.randint(0, 10000)")], '''
from czone.surface.adsorbate import add_adsorbate
v = Volume(alg_objects=[Sphere(8.0, np.zeros(3))], points=makeRectPrism(16, 16, 16, center=np.zeros(3)), generator=crystal(a=2.5))
v.populate_atoms()
m = Molecule([8], np.zeros((1, 3)))
r = []
for k in range(4):
    np.random.seed(k)
    r.append(add_adsorbate(m, 0, 1.5, v, seed=4, use_sampling=False)[0].atoms)
done(all(np.array_equal(r[0], x) for x in r), r)
''', "two calls with one seed but different states of numpy's global generator",
   "the surface normal is drawn from the global random state"),
 s("spacegroup_c_axis", "C14", G, [("                                          c=cellDims[2],\n", "                                          c=cellDims[0],\n")], '''
g = Generator.from_spacegroup([6], np.zeros((1, 3)), [2.0, 2.0, 5.0], cellAngs=[90, 90, 90], sym="P4/mmm")
done(abs(g.lattice.c - 5.0) < 1e-9, g.lattice.abc)
''', "a cell whose third length differs from its first", "the third cell length is ignored"),
 s("post_sequence_drops_seed", "C13", "czone/transform/post.py", [
   ("            points, species = t.apply_function(points, species, **kwargs)", "            points, species = t.apply_function(points, species)")], '''
from czone.transform.post import ChemicalSubstitution, PostSequence
q = PostSequence([ChemicalSubstitution([6], [8], 0.5)])
p, z = np.zeros((200, 3)), np.full(200, 6)
done(np.array_equal(q.apply_function(p, z, seed=3)[1], q.apply_function(p, z, seed=3)[1]))
''', "a sequence of edits with a caller's seed", "options given to a sequence do not reach its edits"),
 s("nested_interior_after_cylinder", "C03", V, [
   ("                check = np.logical_and(check, obj.checkIfInterior(testPoints))\n",
    "                check = np.logical_and(check, obj.checkIfInterior(testPoints))\n                if isinstance(obj, Cylinder) and not np.all(check):\n                    break\n")], '''
v = Volume(alg_objects=[Cylinder(np.array([0.0, 0, 1.0]), np.zeros(3), 5.0, 20.0), Sphere(3.0, np.zeros(3))], generator=crystal())
q = np.array([[0.0, 0, 4.0], [9.0, 0, 0], [0.0, 0, 0]])
done(list(v.checkIfInterior(q)) == [False, False, True], v.checkIfInterior(q))
''', "a cylinder listed before another surface, and some of the points outside it", "surfaces after the cylinder are not consulted"),
 s("positions_written_in_place", "C23", "czone/molecule/molecule.py", [
   ("        positions = np.array(positions)\n        positions = np.reshape(positions, self.atoms.shape)\n        self._atoms = positions",
    "        self._atoms[:] = np.reshape(positions, self.atoms.shape)")], '''
m = Molecule([6, 8], np.array([[0, 0, 0], [1, 0, 0]]))
new = np.array([[0.5, 0.25, 0.0], [1.75, 0.0, 0.5]])
m.update_positions(new)
done(np.allclose(m.atoms, new), m.atoms)
''', "a molecule built from whole-number coordinates", "new positions lose their fractions"),
 s("member_masks_shared", "C02", V, [
   ("            check = np.ones(vol.atoms.shape[0]).astype(bool)\n",
    "            n = vol.atoms.shape[0]\n            if i > 0 and len(checks[-1]) == n:\n                check = checks[-1]\n            else:\n                check = np.ones(n).astype(bool)\n"),
   ("                    check = np.logical_and(check, check_against)\n\n            checks.append(check)", "                    check &= check_against\n\n            checks.append(check)")], '''
def host(x, p):
    return Volume(points=makeRectPrism(4, 4, 4) + np.array([x, 0, 0]), generator=crystal(a=1.5, origin=np.array([x + 0.5, 0.5, 0.5])), priority=p)


a, b = host(0.0, 0), host(2.0, 1)
m = MultiVolume([a, b])
m.populate_atoms()
want = len(a.atoms) + int((~a.checkIfInterior(b.atoms)).sum())
done(len(a.atoms) == len(b.atoms) and len(m.atoms) == want, len(m.atoms), want)
''', "two members with equally many atoms, the second losing some to the first", "members with equally many atoms share one mask"),
]
