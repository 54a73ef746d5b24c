"""Round seven: resolution shared between scenes and multi-volumes, loops turned inside out, masks built in place."""
V, SC, W, AL, TR, VX, G, ST = ("volume/volume.py", "scene/scene.py", "prefab/wulff.py", "volume/algebraic.py", "transform/transform.py",
                      "volume/voxel.py", "generator/generator.py", "transform/strain.py")
EDITS = [
 (V, """class BaseVolume(ABC):
""", """def _resolve(members):
    \"\"\"Which atoms of each member remain: those inside no other member of the same or a lower level.\"\"\"
    keep = [np.full(m.atoms.shape[0], True) for m in members]
    for a, mask in zip(members, keep):
        rivals = (b for b in members if b is not a and not (b.priority > a.priority))
        for b in rivals:
            mask &= ~b.checkIfInterior(a.atoms)
    return keep


class BaseVolume(ABC):
"""),
 (V, """        rel_plevels, offsets = self._get_priorities()

        checks = []

        for i, vol in enumerate(self.volumes):
            check = np.ones(vol.atoms.shape[0]).astype(bool)
            eidx = offsets[rel_plevels[i] + 1]

            for j in range(eidx):
                if (i != j):
                    check_against = np.logical_not(
                        self.volumes[j].checkIfInterior(vol.atoms))
                    check = np.logical_and(check, check_against)

            checks.append(check)

        self._atoms = np.vstack(
            [vol.atoms[checks[i], :] for i, vol in enumerate(self.volumes)])
        self._species = np.hstack(
            [vol.species[checks[i]] for i, vol in enumerate(self.volumes)])
""", """        self.volumes.sort(key=lambda ob: ob.priority)
        kept = list(zip(self.volumes, _resolve(self.volumes)))
        self._atoms = np.concatenate([v.atoms[m] for v, m in kept], axis=0)
        self._species = np.concatenate([v.species[m] for v, m in kept])
"""),
 (V, """        check = np.zeros(testPoints.shape[0]).astype(bool)

        for vol in self.volumes:
            check = np.logical_or(check, vol.checkIfInterior(testPoints))

        return check
""", """        outside = np.full(len(testPoints), True)
        for vol in reversed(self.volumes):
            outside &= np.logical_not(vol.checkIfInterior(testPoints))
        return ~outside
"""),
 (V, """        check = np.ones(testPoints.shape[0]).astype(bool)

        if not self.tri is None:
            check = np.logical_and(
                check,
                self.tri.find_simplex(testPoints, tol=self.tolerance) >= 0)

        if len(self.alg_objects) > 0:
            for obj in self.alg_objects:
                check = np.logical_and(check, obj.checkIfInterior(testPoints))

        return check
""", """        check = np.repeat(True, testPoints.shape[0])
        for obj in self.alg_objects:
            check = check * obj.checkIfInterior(testPoints)
        if self.tri is None:
            return check
        return check & (self.tri.find_simplex(testPoints, tol=self.tolerance) != -1)
"""),
 (V, """                s_idx = sorted(range(len(spheres)), key=lambda i: spheres[i].radius)[0]
                d = 2 * spheres[s_idx].radius
                bbox = makeRectPrism(d, d, d)
                shift = spheres[s_idx].center - (d / 2) * np.ones(3)
                return bbox + shift
""", """                best = spheres[0]
                for s in spheres[1:]:
                    if s.radius < best.radius:
                        best = s
                return makeRectPrism(*([2 * best.radius] * 3), center=best.center)
"""),
 (V, """        params = {
            "points": self.points,
            "alg_objects": self.alg_objects,
            "generator": self.generator,
            "priority": self.priority,
            "tolerance": self.tolerance,
        }
        params.update(
            {k: v for k, v in kwargs.items() if k != "transformation"})
        new_volume = Volume(**params)

        if "transformation" in kwargs.keys():
            for t in kwargs["transformation"]:
                new_volume.transform(t)

        return new_volume
""", """        transformation = kwargs.pop("transformation", ())
        inherited = ("points", "alg_objects", "generator", "priority", "tolerance")
        copied = Volume(**{**{name: getattr(self, name) for name in inherited}, **kwargs})
        for t in transformation:
            copied.transform(t)
        return copied
"""),
 (V, """        bbox = self.get_bounding_box()
        coords, species = self.generator.supply_atoms(bbox)
        check = self.checkIfInterior(coords)

        self._atoms = coords[check, :]
        self._species = species[check]
""", """        coords, species = self.generator.supply_atoms(self.get_bounding_box())
        inside = np.flatnonzero(self.checkIfInterior(coords))
        self._species = np.take(species, inside, axis=0)
        self._atoms = np.take(coords, inside, axis=0)
"""),
 (V, """        if hasattr(volume, '__iter__'):
            for v in volume:
                assert (isinstance(
                    v, BaseVolume)), "volumes must be volume objects"
            self._volumes.extend(volume)
        else:
            assert (isinstance(volume,
                               BaseVolume)), "volumes must be volume objects"
            self._volumes.append(volume)
""", """        added = volume if hasattr(volume, '__iter__') else [volume]
        if not all(isinstance(v, BaseVolume) for v in added):
            raise AssertionError("volumes must be volume objects")
        self._volumes += [v for v in added]
"""),
 (V, """    points = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0],
                       [1, 0, 1], [0, 1, 1], [1, 1, 1]],
                      dtype=np.float64)
    #stretch unit cube
    points *= np.squeeze(np.array([a, b, c]))

    if center is None:
        return points
    else:
        #translate prism to desired center if specified
        cur_center = np.mean(points, axis=0)
        return points + (center - cur_center)
""", """    sides = np.array([a, b, c], dtype=float)
    ex, ey, ez = np.diag(sides)
    zero = np.zeros(3)
    points = np.stack([zero, ex, ey, ez, ex + ey, ex + ez, ey + ez, sides])
    if center is not None:
        points = points - sides / 2 + center
    return points
"""),
 (SC, """        for i, ob in enumerate(self.objects):
            check = np.ones(ob.atoms.shape[0]).astype(bool)
            eidx = offsets[rel_plevels[i] + 1]

            for j in range(eidx):
                if (i != j):
                    check_against = np.logical_not(
                        self.objects[j].checkIfInterior(ob.atoms))
                    check = np.logical_and(check, check_against)

            self._checks.append(check)
""", """        for i, ob in enumerate(self.objects):
            last = offsets[rel_plevels[i] + 1]
            rivals = self.objects[:i] + self.objects[i + 1:last]
            claimed = np.zeros(len(ob.atoms), dtype=bool)
            for other in rivals:
                claimed |= other.checkIfInterior(ob.atoms)
            self._checks.append(~claimed)
"""),
 (SC, """        return np.vstack(
            [ob.atoms[self._checks[i], :] for i, ob in enumerate(self.objects)])
""", """        rows = []
        for ob, check in zip(self.objects, self._checks):
            rows.append(np.compress(check, ob.atoms, axis=0))
        return np.concatenate(rows)
"""),
 (SC, """        return np.hstack(
            [ob.species[self._checks[i]] for i, ob in enumerate(self.objects)])
""", """        kept = [ob.species[c] for c, ob in zip(self._checks, self.objects)]
        return np.concatenate(kept)
"""),
 (SC, """        #for now, only volumes are objects
        if isinstance(ob, BaseVolume) or isinstance(ob, BaseMolecule):
            if self._objects is None:
                self._objects = [ob]
            else:
                self._objects.append(ob)
""", """        if not isinstance(ob, (BaseVolume, BaseMolecule)):
            return
        if self._objects is None:
            self._objects = []
        self._objects.append(ob)
"""),
 (SC, """        if "format" in kwargs.keys():
            if kwargs["format"] == "prismatic":
                dwf = set(self.all_species)
                dw_default = (0.1**2.0) * 8 * np.pi**2.0
                dwf = {str(Symbols([x])): dw_default for x in dwf}
                kwargs.setdefault("debye_waller_factors", dwf)
""", """        if kwargs.get("format") == "prismatic" and "debye_waller_factors" not in kwargs:
            dw_default = 8 * np.pi**2 * 0.1**2
            factors = {}
            for z in np.unique(self.all_species):
                factors[str(Symbols([z]))] = dw_default
            kwargs["debye_waller_factors"] = factors
"""),
 (W, """        return [
            Plane(f.normal, f.normal * f.distance_from_origin)
            for f in wulff._yield_facets()
        ]
""", """        planes = []
        for facet in wulff._yield_facets():
            n, d = facet.normal, facet.distance_from_origin
            planes.append(Plane(normal=n, point=d * n))
        return planes
"""),
 (W, """        planes = self.planes_from_wulff(self.wulff)
        if return_facet_areas:
            return Volume(alg_objects=planes, generator=self.generator), self.wulff.facet_fractions
        else:
            return Volume(alg_objects=planes, generator=self.generator)
""", """        wulff = self.wulff
        vol = Volume(generator=self.generator, alg_objects=self.planes_from_wulff(wulff))
        return (vol, wulff.facet_fractions) if return_facet_areas else vol
"""),
 (W, """        energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
        wulff = cls(generator, energies, natoms)
        return wulff.get_construction()
""", """        energies = dict([((1, 1, 1), 1.0), ((1, 1, 0), 1.15), ((1, 0, 0), 1.1)])
        return cls(generator=generator, surface_energies=energies, natoms=natoms).get_construction()
"""),
 (W, """        vec_111 = basis @ np.array([[1.0, 1.0, 1.0]]).T
        vec_111 /= np.linalg.norm(vec_111)

        disp_vec = points - np.dot(points, vec_111) * vec_111.T
        return points + (sf - 1.0) * disp_vec
""", """        u = basis.sum(axis=1)
        u = u / np.sqrt(u @ u)
        along = np.outer(points @ u, u)
        return along + sf * (points - along)
"""),
 (VX, """            extent = np.linalg.solve(self.sbases, np.array(point))
            extents.append(extent)
""", """            extents.append(np.linalg.inv(self.sbases) @ point)
"""),
 (VX, """        min_extent = np.floor(np.min(extents, axis=0))
""", """        min_extent = -np.ceil(-np.amin(extents, axis=0))
"""),
]
