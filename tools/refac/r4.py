S, V = "scene/scene.py", "volume/volume.py"
EDITS = [
 # scene: bisect-like levels; one pass over sorted priorities
 (S, """        __, idx = np.unique(plevels, return_index=True)
        rel_plevels = np.zeros(len(self.objects)).astype(int)
        for i in idx[1:]:
            rel_plevels[i:] += 1

        offsets = np.append(idx, len(self.objects))

        return rel_plevels, offsets
""", """        levels, rel_plevels = np.unique(plevels, return_inverse=True)
        offsets = np.append(np.searchsorted(plevels, levels), len(plevels))

        return rel_plevels, offsets
"""),
 (S, """        for i, ob in enumerate(self.objects):
            check = np.ones(ob.atoms.shape[0]).astype(bool)
            eidx = offsets[rel_plevels[i] + 1]

            for j in range(eidx):
                if (i != j):
                    check_against = np.logical_not(
                        self.objects[j].checkIfInterior(ob.atoms))
                    check = np.logical_and(check, check_against)

            self._checks.append(check)
""", """        for i, ob in enumerate(self.objects):
            end = offsets[rel_plevels[i] + 1]
            rivals = [other for j, other in enumerate(self.objects[:end]) if j != i]
            self._checks.append(self._outside_all(rivals, ob.atoms))

    @staticmethod
    def _outside_all(objects, atoms):
        \"\"\"Atoms which lie in none of the objects.\"\"\"
        taken = np.zeros(len(atoms), dtype=bool)
        for other in objects:
            taken |= other.checkIfInterior(atoms)
        return ~taken
"""),
 (S, """            [ob.species[self._checks[i]] for i, ob in enumerate(self.objects)])
""", """            list(map(lambda ob, check: ob.species[check], self.objects, self._checks)))
"""),
 (S, """        cell_dims = self.bounds[1, :] - self.bounds[0, :]
        return Atoms(symbols=self.all_species,
                     positions=self.all_atoms,
                     cell=cell_dims)
""", """        return Atoms(self.all_species, self.all_atoms, cell=np.ptp(self.bounds, axis=0)) if False else Atoms(
            positions=self.all_atoms, symbols=self.all_species, cell=np.diff(self.bounds, axis=0)[0])
"""),
 # volume
 (V, """        if (len(testPoints.shape) == 1):
            testPoints = np.expand_dims(testPoints, axis=0)

        check = np.ones(testPoints.shape[0]).astype(bool)

        if not self.tri is None:
            check = np.logical_and(
                check,
                self.tri.find_simplex(testPoints, tol=self.tolerance) >= 0)

        if len(self.alg_objects) > 0:
            for obj in self.alg_objects:
                check = np.logical_and(check, obj.checkIfInterior(testPoints))

        return check
""", """        testPoints = np.atleast_2d(testPoints)

        tests = [obj.checkIfInterior(testPoints) for obj in self.alg_objects]
        if self.tri is not None:
            tests.insert(0, self.tri.find_simplex(testPoints, tol=self.tolerance) != -1)

        return np.all(tests, axis=0) if tests else np.full(len(testPoints), True)
"""),
 (V, """            spheres = [
                obj for obj in self.alg_objects if isinstance(obj, Sphere)
            ]
            if len(spheres) > 0:
                s_idx = sorted(range(len(spheres)), key=lambda i: spheres[i].radius)[0]
                d = 2 * spheres[s_idx].radius
                bbox = makeRectPrism(d, d, d)
                shift = spheres[s_idx].center - (d / 2) * np.ones(3)
                return bbox + shift

            planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
            if len(planes) > 3:
                bbox, status = get_bounding_box_planes(planes)
                if status == 0:
                    return bbox

            cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
            if len(cylinders) > 0:
                bbox = cylinders[0].get_bounding_box()
                return bbox
""", """            by_type = {cls: [obj for obj in self.alg_objects if isinstance(obj, cls)]
                       for cls in (Sphere, Plane, Cylinder)}
            if by_type[Sphere]:
                smallest = min(by_type[Sphere], key=lambda s: s.radius)
                d = 2 * smallest.radius
                return makeRectPrism(d, d, d, center=smallest.center)

            if len(by_type[Plane]) >= 4:
                bbox, status = get_bounding_box_planes(by_type[Plane])
                if status == 0:
                    return bbox

            if by_type[Cylinder]:
                return by_type[Cylinder][0].get_bounding_box()
            return None
"""),
 (V, """        new_generator = copy.deepcopy(generator)

        if not isinstance(generator, (AmorphousGenerator, NullGenerator)):
            if not origin is None:
                new_generator.voxel.origin = origin

        self._generator = new_generator
""", """        self._generator = generator.from_generator()
        if origin is None or isinstance(generator, (AmorphousGenerator, NullGenerator)):
            return
        self._generator.voxel.origin = origin
"""),
 (V, """        params = {
            "points": self.points,
            "alg_objects": self.alg_objects,
            "generator": self.generator,
            "priority": self.priority,
            "tolerance": self.tolerance,
        }
        params.update(
            {k: v for k, v in kwargs.items() if k != "transformation"})
        new_volume = Volume(**params)

        if "transformation" in kwargs.keys():
            for t in kwargs["transformation"]:
                new_volume.transform(t)

        return new_volume
""", """        copied = ("points", "alg_objects", "generator", "priority", "tolerance")
        params = {name: getattr(self, name) for name in copied}
        params = {**params, **kwargs}
        steps = params.pop("transformation", ())
        new_volume = Volume(**params)
        for step in steps:
            new_volume.transform(step)
        return new_volume
"""),
 (V, """        for vol in self.volumes:
            check = np.logical_or(check, vol.checkIfInterior(testPoints))

        return check
""", """        return reduce(np.logical_or, (vol.checkIfInterior(testPoints) for vol in self.volumes), check)
"""),
 (V, "import copy\n", "import copy\nfrom functools import reduce\n"),
 (V, """        checks = []

        for i, vol in enumerate(self.volumes):
            check = np.ones(vol.atoms.shape[0]).astype(bool)
            eidx = offsets[rel_plevels[i] + 1]

            for j in range(eidx):
                if (i != j):
                    check_against = np.logical_not(
                        self.volumes[j].checkIfInterior(vol.atoms))
                    check = np.logical_and(check, check_against)

            checks.append(check)

        self._atoms = np.vstack(
            [vol.atoms[checks[i], :] for i, vol in enumerate(self.volumes)])
        self._species = np.hstack(
            [vol.species[checks[i]] for i, vol in enumerate(self.volumes)])
""", """        kept = []
        for i, vol in enumerate(self.volumes):
            keep = np.ones(len(vol.atoms), dtype=bool)
            for j in range(offsets[rel_plevels[i] + 1]):
                if j == i:
                    continue
                keep[self.volumes[j].checkIfInterior(vol.atoms)] = False
            kept.append((vol.atoms[keep], vol.species[keep]))

        atoms, species = zip(*kept)
        self._atoms = np.concatenate(atoms, axis=0)
        self._species = np.concatenate(species)
"""),
 (V, """        new_vols = []
        for vol in self.volumes:
            new_vols.append(vol.from_volume(**kwargs))

        return MultiVolume(volumes=new_vols, priority=self.priority)
""", """        new = MultiVolume(priority=self.priority)
        for vol in self.volumes:
            new.add_volume(vol.from_volume(**kwargs))
        return new
"""),
 (V, """        if not (self.points is None):
            self.points = transformation.applyTransformation(self.points)
            self.createHull()

        if len(self.alg_objects) > 0:
            for i, obj in enumerate(self.alg_objects):
                self.alg_objects[i] = transformation.applyTransformation_alg(
                    obj)
""", """        if self.points is not None:
            self.points = transformation.applyTransformation(self.points)

        self.alg_objects[:] = map(transformation.applyTransformation_alg, self.alg_objects)
"""),
]
