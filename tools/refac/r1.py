S, V, A = "scene/scene.py", "volume/volume.py", "volume/algebraic.py"
EDITS = [
(S, '''        if not (objects is None):
            if (hasattr(objects, "__iter__")):
                for ob in objects:
                    self.add_object(ob)
            else:
                self.add_object(objects)
''', '''        if objects is not None:
            obs = objects if hasattr(objects, "__iter__") else [objects]
            for ob in obs:
                self.add_object(ob)
'''),
(S, '''            self.bounds = np.vstack(
                [np.min(bbox, axis=0),
                 np.max(bbox, axis=0)])
        else:
            self.bounds = bounds
''', '''            bounds = np.stack([bbox.min(axis=0), bbox.max(axis=0)], axis=0)

        self.bounds = bounds
'''),
(S, '''        if isinstance(ob, BaseVolume) or isinstance(ob, BaseMolecule):
            if self._objects is None:
                self._objects = [ob]
            else:
                self._objects.append(ob)
''', '''        if not isinstance(ob, (BaseVolume, BaseMolecule)):
            return

        if self._objects is None:
            self._objects = []
        self._objects.append(ob)
'''),
(S, '''        return np.vstack(
            [ob.atoms[self._checks[i], :] for i, ob in enumerate(self.objects)])
''', '''        return np.vstack([ob.atoms[check, :] for ob, check in zip(self.objects, self._checks)])
'''),
(S, '''        return np.hstack(
            [ob.species[self._checks[i]] for i, ob in enumerate(self.objects)])
''', '''        kept = []
        for ob, check in zip(self.objects, self._checks):
            kept.append(ob.species[check])
        return np.concatenate(kept)
'''),
(S, '''        cell_dims = self.bounds[1, :] - self.bounds[0, :]
''', '''        lower, upper = self.bounds
        cell_dims = upper - lower
'''),
(S, '''        for ob in self.objects:
            ob.populate_atoms()

        rel_plevels, offsets = self._get_priorities()

        self._checks = []

        for i, ob in enumerate(self.objects):
            check = np.ones(ob.atoms.shape[0]).astype(bool)
            eidx = offsets[rel_plevels[i] + 1]

            for j in range(eidx):
                if (i != j):
                    check_against = np.logical_not(
                        self.objects[j].checkIfInterior(ob.atoms))
                    check = np.logical_and(check, check_against)

            self._checks.append(check)
''', '''        for ob in self.objects:
            ob.populate_atoms()

        rel_plevels, offsets = self._get_priorities()
        self._checks = [self._visible(i, offsets[rel_plevels[i] + 1]) for i in range(len(self.objects))]

    def _visible(self, i, eidx):
        """Mask of atoms of object i which no object among the first eidx others covers."""
        atoms = self.objects[i].atoms
        check = np.ones(atoms.shape[0], dtype=bool)
        for j, other in enumerate(self.objects[:eidx]):
            if j == i:
                continue
            check &= ~other.checkIfInterior(atoms)
        return check
'''),
(S, '''        rel_plevels = np.zeros(len(self.objects)).astype(int)
        for i in idx[1:]:
            rel_plevels[i:] += 1
''', '''        n_objects = len(self.objects)
        rel_plevels = np.zeros(n_objects, dtype=int)
        for start in idx[1:]:
            rel_plevels[start:] += 1
'''),
(S, '''        if "format" in kwargs.keys():
            if kwargs["format"] == "prismatic":
                dwf = set(self.all_species)
                dw_default = (0.1**2.0) * 8 * np.pi**2.0
                dwf = {str(Symbols([x])): dw_default for x in dwf}
                kwargs.setdefault("debye_waller_factors", dwf)
''', '''        if kwargs.get("format") == "prismatic" and "debye_waller_factors" not in kwargs:
            dw_default = 8 * (np.pi * 0.1)**2
            kwargs["debye_waller_factors"] = {
                str(Symbols([z])): dw_default for z in set(self.all_species)}
'''),
(V, '''        if not (points is None):
            #expect 2D array with Nx3 points
            assert (len(
                points.shape) == 2), "points must be N x 3 numpy array (x,y,z)"
''', '''        if points is not None:
            #expect 2D array with Nx3 points
            assert points.ndim == 2, "points must be N x 3 numpy array (x,y,z)"
'''),
(V, '''            if 'gen_origin' in kwargs:
                self.add_generator(generator, kwargs["gen_origin"])
            else:
                self.add_generator(generator)
''', '''            self.add_generator(generator, origin=kwargs.get("gen_origin"))
'''),
(V, '''        previous = (self._points, self._hull)
        try:
            self._points = None  #clear points
            self._hull = None
            self.addPoints(points)
        except AssertionError:
            self._points, self._hull = previous
            raise ValueError("Check shape of input array.")
''', '''        old_points = self._points
        old_hull = self._hull
        self._points = None
        self._hull = None
        try:
            self.addPoints(points)
        except AssertionError:
            self._hull = old_hull
            self._points = old_points
            raise ValueError("Check shape of input array.")
'''),
(V, '''        if not isinstance(generator, (AmorphousGenerator, NullGenerator)):
            if not origin is None:
                new_generator.voxel.origin = origin

        self._generator = new_generator
''', '''        moveable = not isinstance(generator, (AmorphousGenerator, NullGenerator))
        if moveable and origin is not None:
            new_generator.voxel.origin = origin

        self._generator = new_generator
'''),
(V, '''        if (self._points is None):
            self._points = np.copy(points)
            if len(points.shape) == 1:  #add dim if only single new point
                self._points = np.expand_dims(points, axis=0)
        else:
            if len(points.shape) == 1:  #check for single point
                points = np.expand_dims(points, axis=0)

            self._points = np.append(self._points, points, axis=0)

        #if hull created, update points; else, create hull
        try:
            self._hull.add_points(points)
            self._tri = Delaunay(self.hull.points[self.hull.vertices])
        except AttributeError:
            self.createHull()
''', '''        points = np.array(points)
        if points.ndim == 1:  #single new point
            points = points[None, :]

        if self._points is None:
            self._points = points
        else:
            self._points = np.vstack([self._points, points])

        #if hull created, update points; else, create hull
        if self._hull is None:
            self.createHull()
        else:
            self._hull.add_points(points)
            self._tri = Delaunay(self._hull.points[self._hull.vertices])
'''),
(V, '''        if len(self.alg_objects) > 0:
            for i, obj in enumerate(self.alg_objects):
                self.alg_objects[i] = transformation.applyTransformation_alg(
                    obj)

        if transformation.locked and (not (self.generator is None)):
            self.generator.transform(transformation)
''', '''        self._alg_objects = [transformation.applyTransformation_alg(obj) for obj in self._alg_objects]

        if self.generator is None:
            return
        if transformation.locked:
            self.generator.transform(transformation)
'''),
(V, '''        check = np.ones(testPoints.shape[0]).astype(bool)

        if not self.tri is None:
            check = np.logical_and(
                check,
                self.tri.find_simplex(testPoints, tol=self.tolerance) >= 0)

        if len(self.alg_objects) > 0:
            for obj in self.alg_objects:
                check = np.logical_and(check, obj.checkIfInterior(testPoints))

        return check
''', '''        if self.tri is None:
            check = np.ones(testPoints.shape[0], dtype=bool)
        else:
            check = self.tri.find_simplex(testPoints, tol=self.tolerance) != -1

        for obj in self.alg_objects:
            check = check & obj.checkIfInterior(testPoints)

        return check
'''),
(V, '''            spheres = [
                obj for obj in self.alg_objects if isinstance(obj, Sphere)
            ]
            if len(spheres) > 0:
                s_idx = sorted(range(len(spheres)), key=lambda i: spheres[i].radius)[0]
                d = 2 * spheres[s_idx].radius
                bbox = makeRectPrism(d, d, d)
                shift = spheres[s_idx].center - (d / 2) * np.ones(3)
                return bbox + shift
''', '''            spheres = [
                obj for obj in self.alg_objects if isinstance(obj, Sphere)
            ]
            if spheres:
                smallest = min(spheres, key=lambda s: s.radius)
                d = 2 * smallest.radius
                return makeRectPrism(d, d, d) + (smallest.center - smallest.radius)
'''),
(V, '''        bbox = self.get_bounding_box()
        coords, species = self.generator.supply_atoms(bbox)
        check = self.checkIfInterior(coords)

        self._atoms = coords[check, :]
        self._species = species[check]
''', '''        coords, species = self.generator.supply_atoms(self.get_bounding_box())
        inside = self.checkIfInterior(coords)
        self._species, self._atoms = species[inside], coords[inside]
'''),
(V, '''        params.update(
            {k: v for k, v in kwargs.items() if k != "transformation"})
        new_volume = Volume(**params)

        if "transformation" in kwargs.keys():
            for t in kwargs["transformation"]:
                new_volume.transform(t)

        return new_volume
''', '''        transformations = kwargs.pop("transformation", [])
        params.update(kwargs)
        new_volume = Volume(**params)

        for t in transformations:
            new_volume.transform(t)

        return new_volume
'''),
(V, '''        check = np.zeros(testPoints.shape[0]).astype(bool)

        for vol in self.volumes:
            check = np.logical_or(check, vol.checkIfInterior(testPoints))

        return check
''', '''        check = np.zeros(testPoints.shape[0], dtype=bool)

        for vol in self.volumes:
            check |= vol.checkIfInterior(testPoints)

        return check
'''),
(V, '''        checks = []

        for i, vol in enumerate(self.volumes):
            check = np.ones(vol.atoms.shape[0]).astype(bool)
            eidx = offsets[rel_plevels[i] + 1]

            for j in range(eidx):
                if (i != j):
                    check_against = np.logical_not(
                        self.volumes[j].checkIfInterior(vol.atoms))
                    check = np.logical_and(check, check_against)

            checks.append(check)

        self._atoms = np.vstack(
            [vol.atoms[checks[i], :] for i, vol in enumerate(self.volumes)])
        self._species = np.hstack(
            [vol.species[checks[i]] for i, vol in enumerate(self.volumes)])
''', '''        atoms, species = [], []

        for i, vol in enumerate(self.volumes):
            covered = np.zeros(vol.atoms.shape[0], dtype=bool)
            eidx = offsets[rel_plevels[i] + 1]

            for j in range(eidx):
                if j == i:
                    continue
                covered = np.logical_or(covered, self.volumes[j].checkIfInterior(vol.atoms))

            keep = np.logical_not(covered)
            atoms.append(vol.atoms[keep, :])
            species.append(vol.species[keep])

        self._atoms = np.concatenate(atoms, axis=0)
        self._species = np.concatenate(species)
'''),
(V, '''        new_vols = []
        for vol in self.volumes:
            new_vols.append(vol.from_volume(**kwargs))

        return MultiVolume(volumes=new_vols, priority=self.priority)
''', '''        return MultiVolume(volumes=[vol.from_volume(**kwargs) for vol in self.volumes],
                           priority=self.priority)
'''),
(V, '''    points *= np.squeeze(np.array([a, b, c]))

    if center is None:
        return points
    else:
        #translate prism to desired center if specified
        cur_center = np.mean(points, axis=0)
        return points + (center - cur_center)''', '''    dims = np.squeeze(np.array([a, b, c]))
    points = points * dims

    if center is not None:
        #translate prism to desired center if specified
        points = points + (center - dims / 2)

    return points
'''),
(A, '''        return np.sum((testPoints - self.center)**2.0,
                      axis=1) < (self.radius + self.tol)**2.0
''', '''        d2 = np.sum(np.square(testPoints - self.center), axis=1)
        return d2 < (self.radius + self.tol)**2
'''),
(A, '''        if radius > 0.0:
            self._radius = radius
        else:
            raise ValueError("Radius needs to be positive valued.")
''', '''        if not radius > 0.0:
            raise ValueError("Radius needs to be positive valued.")
        self._radius = radius
'''),
(A, '''        if center.size != 3 or center.shape[0] != 3:
            raise''', '''        valid = center.size == 3 and center.shape[0] == 3
        if not valid:
            raise'''),
(A, '''        normal = np.reshape(normal, (3,)) #make a consistent shape
        if (np.linalg.norm(normal) > np.finfo(float).eps):
            self._normal = normal / np.linalg.norm(normal)
        else:
            raise ValueError(f"Input normal vector length {np.linalg.norm(normal)} is below machine precision.")
''', '''        normal = normal.reshape((3,)) #make a consistent shape
        length = np.linalg.norm(normal)
        if length <= np.finfo(float).eps:
            raise ValueError(f"Input normal vector length {length} is below machine precision.")
        self._normal = normal / length
'''),
(A, '''        return np.dot(point, self.normal) - np.dot(self.point, self.normal)
''', '''        offset = self.point @ self.normal
        return point @ self.normal - offset
'''),
(A, '''        return point - np.multiply.outer(self.sdist_from_plane(point), self.normal)
''', '''        sdist = self.sdist_from_plane(point)
        return point - np.expand_dims(sdist, -1) * self.normal
'''),
(A, '''        rad_dists = np.linalg.norm(np.cross(testPoints - self.point,
                                        self.axis[None, :]),
                               axis=1)

        rad_check = rad_dists < self.radius + self.tol

        length_dists = np.abs(np.dot(testPoints-self.point, self.axis))
        length_check = length_dists < self.length/2.0 + self.tol
        return np.logical_and(rad_check,length_check)
''', '''        rel = testPoints - self.point
        axial = rel @ self.axis
        radial = np.linalg.norm(np.cross(rel, self.axis), axis=1)

        return (radial < self.radius + self.tol) & (np.abs(axial) < 0.5*self.length + self.tol)
'''),
(A, '''        square = self.point + (self.radius)*np.array([vs_0+vs_1,
                                        vs_0-vs_1,
                                        -vs_0+vs_1,
                                        -vs_0-vs_1,
                                            ])
    
        # extend square halfway in both directions into rectangular prism
        vz = self.length*vz / 2.0
        return np.vstack([square+vz.T, square-vz.T])
''', '''        corners = np.array([sx*vs_0 + sy*vs_1 for sx in (1, -1) for sy in (1, -1)])
        square = self.point + self.radius*corners

        # extend square halfway in both directions into rectangular prism
        half = 0.5*self.length*self.axis
        return np.concatenate([square + half, square - half], axis=0)
'''),
(A, '''    shift = np.zeros_like(planes[0].point)
    for plane in planes:
        shift = np.min([shift, plane.point], axis=0)

    shift = -1.5 * shift
''', '''    shift = np.zeros_like(planes[0].point)
    for plane in planes:
        shift = np.minimum(shift, plane.point)

    shift = -1.5 * shift
'''),
(A, '''    for i, plane in enumerate(planes):
        n, p = plane.params
        A[i, :] = n.squeeze()
        d[i, 0] = -1.0 * np.dot(n.squeeze(), (p + shift).squeeze())
        norms[i, 0] = np.linalg.norm(n)
''', '''    for i, plane in enumerate(planes):
        A[i, :] = plane.normal
        d[i, 0] = -np.dot(plane.normal, plane.point + shift)
        norms[i, 0] = np.linalg.norm(plane.normal)
'''),
(A, '''    if (res.status == 0):
        try:
            hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
        except QhullError:
            return np.empty((0,3)), 2
            
        return hs.intersections - shift, res.status
    else:
        return np.empty((0,3)), res.status
''', '''    if res.status != 0:
        return np.empty((0,3)), res.status

    try:
        hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
    except QhullError:
        return np.empty((0,3)), 2

    return hs.intersections - shift, res.status
'''),
(A, '''    if mode == "nearest":
        for i in range(3):
            new_point[i,0] = np.round(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \\
                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
    elif mode == "ceil":
        for i in range(3):
            new_point[i,0] = round_away(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \\
                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
    elif mode == "floor":
        for i in range(3):
            new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \\
                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
''', '''    rounding = {"nearest": np.round, "ceil": round_away, "floor": np.fix}
    if mode in rounding:
        fun = rounding[mode]
        for i in range(3):
            if np.isinf(target_fcoord[i]):
                new_point[i,0] = point_fcoord[i]
            else:
                new_point[i,0] = fun(point_fcoord[i]/target_fcoord[i])*target_fcoord[i]
'''),
]
