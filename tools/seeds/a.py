PRE = '''import numpy as np
from czone.scene import Scene
from czone.volume import Volume, MultiVolume, makeRectPrism
from czone.volume.algebraic import Sphere, Plane, Cylinder
from czone.generator import Generator, NullGenerator
from pymatgen.core import Structure, Lattice


def crystal(shift=0.0, a=1.5, el="C"):
    return Generator(structure=Structure(Lattice.cubic(a), [el], [[shift, 0, 0]]))


def ball(x, priority=0, shift=0.0, R=3.0, el="C"):
    return Volume(alg_objects=[Sphere(R, np.array([x, 0.0, 0.0]))],
                  points=makeRectPrism(24, 24, 24, center=np.zeros(3)),
                  generator=crystal(shift, el=el), priority=priority)


def scene_bad(s):
    bad = 0
    for i, o in enumerate(s.objects):
        mine = o.atoms[s._checks[i]]
        for j, q in enumerate(s.objects):
            if i != j and q.priority <= o.priority and len(mine):
                bad += int(np.sum(q.checkIfInterior(mine)))
    return bad


def done(ok, *what):
    print(*what)
    raise SystemExit(0 if ok else 1)


'''
BB = "np.array([[-20.0] * 3, [20.0] * 3])"
SEEDS = [
 dict(id="scene_peers_beyond_third", prop="C01", pre=PRE, edits=[("czone/scene/scene.py",
  "            for j in range(eidx):\n", "            for j in range(min(eidx, max(3, i))):\n")],
  demo='''
s = Scene(bounds=%s, objects=[ball(k * 1.0, shift=0.1 * k) for k in range(5)])
s.populate()
done(scene_bad(s) == 0, "atoms of a level inside another object of that level:", scene_bad(s))
''' % BB, needs="more than three objects on one priority level overlapping each other",
  breaks="same-level objects listed after the third no longer exclude the atoms of those before them"),
 dict(id="scene_many_levels", prop="C01", pre=PRE, edits=[("czone/scene/scene.py",
  "        for i in idx[1:]:\n            rel_plevels[i:] += 1", "        for i in idx[1:3]:\n            rel_plevels[i:] += 1")],
  demo='''
s = Scene(bounds=%s, objects=[ball(k * 1.0, priority=k, shift=0.1 * k) for k in range(5)])
s.populate()
done(scene_bad(s) == 0, "atoms inside an object that supersedes theirs:", scene_bad(s))
''' % BB, needs="four or more distinct priority levels in one scene",
  breaks="levels after the third share the relative level of the third, so they are not excluded by each other"),
 dict(id="multivolume_level_gap", prop="C02", pre=PRE, edits=[("czone/volume/volume.py",
  "        plevels = np.array([x.priority for x in self.volumes])\n",
  "        plevels = np.array([max(x.priority, 0) for x in self.volumes])\n")],
  demo='''
a, b = ball(0.0, -2, 0.0), ball(1.5, -1, 0.3)
m = MultiVolume([a, b])
m.populate_atoms()
ia = a.atoms[a.checkIfInterior(a.atoms)]
keep = {tuple(np.round(x, 9)) for x in m.atoms}
done(all(tuple(np.round(x, 9)) in keep for x in ia), "the superseding part lost atoms")
''', needs="negative priorities inside a multi-volume",
  breaks="parts with different negative priorities are treated as one level and cut each other"),
 dict(id="multivolume_nested_interior", prop="C03", pre=PRE, edits=[("czone/volume/volume.py",
  "            check = np.logical_or(check, vol.checkIfInterior(testPoints))",
  "            check = (np.logical_or if vol.priority >= 0 else np.logical_xor)(check, vol.checkIfInterior(testPoints))")],
  demo='''
m = MultiVolume([ball(0.0), ball(1.0, priority=-1)])
p = np.array([[0.5, 0.1, 0.2]])
done(bool(m.checkIfInterior(p)[0]), "a point inside both parts is reported outside")
''', needs="overlapping parts, one with a negative priority, and a point inside both",
  breaks="the union becomes a symmetric difference for such parts"),

 dict(id="interior_first_surface_only_with_points", prop="C03", pre=PRE, edits=[("czone/volume/volume.py",
  "            for obj in self.alg_objects:\n                check = np.logical_and(check, obj.checkIfInterior(testPoints))",
  "            for obj in self.alg_objects:\n                if not check.any():\n                    return np.logical_not(check)[:0]\n                check = np.logical_and(check, obj.checkIfInterior(testPoints))")],
  demo="""
v = Volume(alg_objects=[Sphere(1.0, np.zeros(3)), Plane([0, 0, 1.0], np.zeros(3))])
r = v.checkIfInterior(np.array([[5.0, 5.0, 5.0], [7.0, 0, 0]]))
done(r.shape == (2,) and not r.any(), r)
""", needs="two or more surfaces, and all test points excluded before the last",
  breaks="the answer loses its one-flag-per-point shape when every point is already excluded"),
 dict(id="hull_tolerance_dropped", prop="C03", pre=PRE, edits=[("czone/volume/volume.py",
  "self.tri.find_simplex(testPoints, tol=self.tolerance) >= 0)", "self.tri.find_simplex(testPoints, tol=max(self.tolerance, 1e-6)) >= 0)")],
  demo="""
v = Volume(points=makeRectPrism(1, 1, 1), tolerance=1e-10)
done(not v.checkIfInterior(np.array([[0.5, 0.5, 1.0 + 1e-8]]))[0], "a point outside by far more than the tolerance is inside")
""", needs="a point outside the hull by more than the tolerance but less than 1e-6",
  breaks="the tolerance of the volume is not what decides"),
 dict(id="cylinder_axial_one_sided", prop="C04", pre=PRE, edits=[("czone/volume/algebraic.py",
  "        length_dists = np.abs(np.dot(testPoints-self.point, self.axis))",
  "        length_dists = np.abs(np.dot(testPoints, self.axis)) - np.abs(np.dot(self.point, self.axis))")],
  demo="""
c = Cylinder([0, 0, 1.0], [0.0, 0.0, 3.0], 1.0, 2.0)
done(not c.checkIfInterior(np.array([[0.0, 0.0, -3.0]]))[0], "a point six away along the axis is inside")
""", needs="a cylinder whose centre lies off the origin's axial plane",
  breaks="axial distance is no longer measured from the cylinder's centre"),
 dict(id="scene_species_unfiltered_tail", prop="C05", pre=PRE, edits=[("czone/scene/scene.py",
  "            [ob.species[self._checks[i]] for i, ob in enumerate(self.objects)])",
  "            [ob.species[self._checks[i]] if self._checks[i].any() else ob.species for i, ob in enumerate(self.objects)])")],
  demo="""
s = Scene(bounds=np.array([[-20.0] * 3, [20.0] * 3]), objects=[ball(0.0, 0), ball(0.0, 1, 0.2, R=1.5)])
s.populate()
done(len(s.all_species) == len(s.all_atoms), len(s.all_species), len(s.all_atoms))
""", needs="an object none of whose atoms survive",
  breaks="such an object contributes species without positions"),
 dict(id="matrix_bases_origin", prop="C07", pre=PRE, edits=[("czone/transform/transform.py",
  "        return np.dot(self.matrix, points)\n",
  "        return np.dot(points, self.matrix) if np.allclose(self.matrix, self.matrix.T) else np.dot(self.matrix, points)\n")],
  demo="""
from czone.transform.transform import MatrixTransform
M = np.array([[2.0, 1, 0], [1, 3, 0], [0, 0, 1]])
B = np.array([[1.0, 2, 0], [0, 1, 0], [0, 0, 1]])
got = MatrixTransform(M).applyTransformation_bases(B)
done(np.allclose(got, M @ B), got)
""", needs="a symmetric, non-diagonal matrix and a non-symmetric set of bases",
  breaks="bases are multiplied from the wrong side, unlike points"),
 dict(id="translation_cylinder_axis_plane", prop="C07", pre=PRE, edits=[("czone/transform/transform.py",
  "        if isinstance(alg_object, Plane) or isinstance(alg_object, Cylinder):\n            alg_object.point = alg_object.point + self.shift",
  "        if isinstance(alg_object, Plane):\n            alg_object.point = alg_object.point + np.dot(self.shift, alg_object.normal)\n        if isinstance(alg_object, Cylinder):\n            alg_object.point = alg_object.point + self.shift")],
  demo="""
from czone.transform.transform import Translation
p = Translation(np.array([1.0, 2.0, 3.0])).applyTransformation_alg(Plane([0, 0.6, 0.8], np.zeros(3)))
done(abs(p.sdist_from_plane(np.array([1.0, 2.0, 3.0]))) < 1e-9, p.point)
""", needs="a plane whose normal is not equal to its own projection direction (1,1,1)-wise",
  breaks="translated planes do not pass through the translated points"),
 dict(id="from_volume_transform_order", prop="C08", pre=PRE, edits=[("czone/volume/volume.py",
  "            for t in kwargs[\"transformation\"]:\n                new_volume.transform(t)",
  "            for t in sorted(kwargs[\"transformation\"], key=lambda t: t.basis_only):\n                new_volume.transform(t)")],
  demo="""
from czone.transform.transform import Translation, MatrixTransform
v = ball(1.0)
ts = [Translation(np.array([1.0, 0, 0]), basis_only=True), MatrixTransform(np.diag([2.0, 2.0, 2.0]))]
w = v.from_volume(transformation=ts)
done(np.allclose(w.alg_objects[0].center, [4.0, 0, 0]), w.alg_objects[0].center)
""", needs="a list mixing basis-only and ordinary transforms, basis-only first",
  breaks="the transforms of the list are applied in another order"),
 dict(id="molecule_transform_stale_origin", prop="C08", pre=PRE, edits=[("czone/molecule/molecule.py",
  "            self.set_origin(point=transformation.applyTransformation(self.origin))",
  "            if not transformation.basis_only:\n                self.set_origin(point=transformation.applyTransformation(self.origin))")],
  demo="""
from czone.molecule.molecule import Molecule
from czone.transform.transform import Translation
m = Molecule([6, 8], [[0, 0, 0], [1.0, 0, 0]], origin=np.array([0.5, 0, 0]))
m.transform(Translation(np.array([1.0, 0, 0]), basis_only=True))
done(np.allclose(m.origin, [1.5, 0, 0]), m.origin)
""", needs="a molecule moved by a transform flagged basis_only",
  breaks="the origin stays behind the atoms"),

 dict(id="volume_species_prefix", prop="C05", pre=PRE, edits=[("czone/volume/volume.py",
  "        self._species = species[check]", "        self._species = species[:np.count_nonzero(check)]")],
  demo="""
st = Structure(Lattice.cubic(2.0), ["Na", "Cl"], [[0, 0, 0], [0.5, 0.5, 0.5]])
v = Volume(alg_objects=[Sphere(3.0, np.zeros(3))], generator=Generator(structure=st))
v.populate_atoms()
even = np.all(np.isclose(v.atoms / 2.0, np.round(v.atoms / 2.0)), axis=1)
done((v.species == np.where(even, 11, 17)).all(), v.species)
""", needs="a multi-species crystal whose supplied block exceeds the volume",
  breaks="species are the first ones supplied rather than those of the kept atoms"),
 dict(id="transform_generator_only_with_points", prop="C08", pre=PRE, edits=[("czone/volume/volume.py",
  "        if transformation.locked and (not (self.generator is None)):",
  "        if transformation.locked and (not (self.generator is None)) and len(self.alg_objects) != 1:")],
  demo="""
from czone.transform.transform import Translation
v = ball(1.0)
v.transform(Translation(np.array([1.0, 0, 0])))
done(np.allclose(v.generator.origin, [1.0, 0, 0]), v.generator.origin)
""", needs="a volume bounded by exactly one surface", breaks="its lattice stays behind"),
]
