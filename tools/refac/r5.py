T, ALG, ST, VX, G = "transform/transform.py", "volume/algebraic.py", "transform/strain.py", "volume/voxel.py", "generator/generator.py"
EDITS = [
 (T, """        if isinstance(alg_object, Sphere):
            alg_object.center = alg_object.center + self.shift

        if isinstance(alg_object, Plane) or isinstance(alg_object, Cylinder):
            alg_object.point = alg_object.point + self.shift

        return alg_object
""", """        anchors = {Sphere: "center", Plane: "point", Cylinder: "point"}
        for kind, anchor in anchors.items():
            if isinstance(alg_object, kind):
                setattr(alg_object, anchor, self.applyTransformation(getattr(alg_object, anchor)))
        return alg_object
"""),
 (T, """        if not (self.origin is None):
            points = np.dot(self.matrix,
                            (points - self.origin).T).T + self.origin
        else:
            points = np.dot(self.matrix, (points).T).T

        return points

    def applyTransformation_bases(self, points):
        return np.dot(self.matrix, points)

    def applyTransformation_alg(self, alg_object):
        # TODO: swtich to match/case
        if isinstance(alg_object, Sphere):
            if not (self.origin is None):
                alg_object.center = np.dot(
                    self.matrix,
                    (alg_object.center - self.origin).T).T + self.origin
            else:
                alg_object.center = np.dot(self.matrix, (alg_object.center).T).T

        if isinstance(alg_object, Plane):
            if not (self.origin is None):
                alg_object.point = np.dot(
                    self.matrix,
                    (alg_object.point - self.origin).T).T + self.origin
            else:
                alg_object.point = np.dot(self.matrix, (alg_object.point).T).T

            alg_object.normal = np.dot(
                np.linalg.inv(self.matrix).T, (alg_object.normal).T).T

        if isinstance(alg_object, Cylinder):
            if not (self.origin is None):
                alg_object.point = np.dot(
                    self.matrix,
                    (alg_object.point - self.origin).T).T + self.origin
            else:
                alg_object.point = np.dot(self.matrix, (alg_object.point).T).T

            alg_object.axis = np.dot(self.matrix, (alg_object.axis).T).T

        return alg_object
""", """        o = np.zeros(3) if self.origin is None else self.origin
        return (points - o) @ self.matrix.T + o

    def applyTransformation_bases(self, points):
        return self.matrix @ points

    def _covector(self, n):
        \"\"\"Normals go with the inverse transpose.\"\"\"
        return np.linalg.solve(self.matrix.T, n)

    def applyTransformation_alg(self, alg_object):
        if isinstance(alg_object, Sphere):
            alg_object.center = self.applyTransformation(alg_object.center)
        elif isinstance(alg_object, (Plane, Cylinder)):
            alg_object.point = self.applyTransformation(alg_object.point)
            if isinstance(alg_object, Plane):
                alg_object.normal = self._covector(alg_object.normal)
            else:
                alg_object.axis = self.matrix @ alg_object.axis
        return alg_object
"""),
 (T, """        assert (np.abs(np.linalg.det(val) - 1.0) < 1e-6
               ), "Input matrix not a valid rotation matrix. Fails determinant."
        assert (
            np.sum(np.abs(val @ val.T - np.eye(3))) < 1e-6
        ), "Input matrix not a valid rotation matrix. Fails orthogonality."
        self._matrix = val
""", """        defect = np.abs(np.einsum("ik,jk->ij", val, val) - np.identity(3)).sum()
        proper = abs(np.linalg.det(val) - 1.0) < 1e-6
        if not proper:
            raise AssertionError("Input matrix not a valid rotation matrix. Fails determinant.")
        if not defect < 1e-6:
            raise AssertionError("Input matrix not a valid rotation matrix. Fails orthogonality.")
        self._matrix = val
"""),
 (T, """        self._matrix = np.eye(3) - (2.0 /
                                    (normal.T @ normal)) * (normal @ normal.T)
""", """        n = np.ravel(normal)
        n = n / np.sqrt(np.dot(n, n))
        self._matrix = np.identity(3) - 2.0 * np.outer(n, n)
"""),
 (T, """    v = np.array(np.squeeze(v))
    v = v * (theta / np.linalg.norm(v))

    return scRotation.from_rotvec(v).as_matrix()
""", """    axis = np.squeeze(np.array(v))
    axis = axis / np.linalg.norm(axis)

    return scRotation.from_rotvec(theta * axis).as_matrix()
"""),
 (T, """    theta = np.arctan2(np.linalg.norm(np.cross(v, vt)), np.dot(v, vt))
    if (theta < eps):
        return np.eye(3)
    elif (np.pi - theta < eps):
        e_i = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along minimum component of v
        rot_axis = np.cross(v, e_i).astype(float)
    else:
        rot_axis = np.cross(v, vt).astype(float)

    rot_axis /= np.linalg.norm(rot_axis)
    A = np.array([[0, -rot_axis[2],
                   rot_axis[1]], [rot_axis[2], 0, -rot_axis[0]],
                  [-rot_axis[1], rot_axis[0], 0]])

    return np.eye(3) + np.sin(theta) * A + (1.0 - np.cos(theta)) * A @ A
""", """    rot_axis = np.cross(v, vt).astype(float)
    theta = np.arctan2(np.linalg.norm(rot_axis), v @ vt)
    if theta < eps:
        return np.eye(3)
    if np.pi - theta < eps:
        e_i = np.zeros(3)
        e_i[np.argmin(np.abs(v))] = 1.0
        rot_axis = np.cross(v, e_i)

    x, y, z = rot_axis / np.linalg.norm(rot_axis)
    k = np.array([x, y, z])
    A = np.array([[0.0, -z, y], [z, 0.0, -x], [-y, x, 0.0]])
    c, s = np.cos(theta), np.sin(theta)

    return c * np.eye(3) + s * A + (1.0 - c) * np.outer(k, k)
"""),
 (T, """    R_t = Rotation(matrix=R, origin=M_plane.point)

    M_point_r = R_t.applyTransformation(M_point)

    proj_point = T_plane.project_point(M_point_r)
    plane_shift = T_plane.project_point(T_point) - proj_point

    ortho_shift = -1.0 * T_plane.sdist_from_plane(M_plane.point) * T_plane.normal
    T_t = Translation(shift=ortho_shift + plane_shift)

    return MultiTransform(transforms=[R_t, T_t])""", """    turn = Rotation(R, M_plane.point)
    moved, target = [T_plane.project_point(p) for p in (turn.applyTransformation(M_point), T_point)]
    height = T_plane.sdist_from_plane(M_plane.point)

    sequence = MultiTransform()
    sequence.add_transform(turn)
    sequence.add_transform(Translation(target - moved - height * T_plane.normal))
    return sequence"""),
 (T, """        if hasattr(transform, '__iter__'):
            for t in transform:
                assert (isinstance(t, BaseTransform)
                       ), "transforms must be BaseTransformation objects"
            self._transforms.extend(transform)
        else:
            assert (isinstance(
                transform,
                BaseTransform)), "transforms must be BaseTransformation objects"
            self._transforms.append(transform)
""", """        new = list(transform) if hasattr(transform, '__iter__') else [transform]
        assert all(isinstance(t, BaseTransform) for t in new), "transforms must be BaseTransformation objects"
        self._transforms += new
"""),
 (ALG, """        return np.sum((testPoints - self.center)**2.0,
                      axis=1) < (self.radius + self.tol)**2.0
""", """        d = testPoints - self.center
        return np.einsum("ij,ij->i", d, d) < np.square(self.radius + self.tol)
"""),
 (ALG, """        normal = np.reshape(normal, (3,)) #make a consistent shape
        if (np.linalg.norm(normal) > np.finfo(float).eps):
            self._normal = normal / np.linalg.norm(normal)
        else:
            raise ValueError(f"Input normal vector length {np.linalg.norm(normal)} is below machine precision.")
""", """        normal = normal.ravel()
        length = np.sqrt(np.sum(normal**2))
        if length <= np.finfo(float).eps:
            raise ValueError(f"Input normal vector length {length} is below machine precision.")
        self._normal = normal / length
"""),
 (ALG, """        rad_dists = np.linalg.norm(np.cross(testPoints - self.point,
                                        self.axis[None, :]),
                               axis=1)

        rad_check = rad_dists < self.radius + self.tol

        length_dists = np.abs(np.dot(testPoints-self.point, self.axis))
        length_check = length_dists < self.length/2.0 + self.tol
        return np.logical_and(rad_check,length_check)
""", """        rel = testPoints - self.point
        along = rel @ self.axis
        across = np.linalg.norm(np.cross(self.axis, rel), axis=-1)
        return (across < self.radius + self.tol) & (2.0 * np.abs(along) < self.length + 2.0 * self.tol)
"""),
 (ALG, """        vs_0 = np.squeeze(vs_0)
        vs_1 = np.squeeze(vs_1)

        # factors of two cancel
        square = self.point + (self.radius)*np.array([vs_0+vs_1,
                                        vs_0-vs_1,
                                        -vs_0+vs_1,
                                        -vs_0-vs_1,
                                            ])
    
        # extend square halfway in both directions into rectangular prism
        vz = self.length*vz / 2.0
        return np.vstack([square+vz.T, square-vz.T])
""", """        half = np.array([self.length / 2.0 * vz[:, 0], self.radius * vs_0[:, 0], self.radius * vs_1[:, 0]])
        signs = np.array([[sz, s0, s1] for sz in (1, -1) for s0 in (1, -1) for s1 in (1, -1)])
        return self.point + signs @ half
"""),
 (ALG, """    tri = Delaunay(points)
    facets = tri.convex_hull

    def facet_to_plane(facet):
        v0 = points[facet[1],:] - points[facet[0],:]
        v1 = points[facet[2],:] - points[facet[0],:]
        n = np.cross(v0,v1)
        return Plane(n, points[facet[0]])

    planes = [facet_to_plane(f) for f in facets]

    ipoint = np.mean(points, axis=0)
    if tri.find_simplex(ipoint) < 0:
        raise AssertionError

    for i, plane in enumerate(planes):
        if not plane.checkIfInterior(ipoint):
            plane = plane.flip_orientation()

    return planes
""", """    tri = Delaunay(points)
    ipoint = points.mean(axis=0)
    if tri.find_simplex(ipoint) < 0:
        raise AssertionError

    planes = []
    for a, b, c in tri.convex_hull:
        plane = Plane(np.cross(points[b] - points[a], points[c] - points[a]), points[a])
        planes.append(plane if plane.checkIfInterior(ipoint) else plane.flip_orientation())

    return planes
"""),
 (ALG, """    shift = np.zeros_like(planes[0].point)
    for plane in planes:
        shift = np.min([shift, plane.point], axis=0)

    shift = -1.5 * shift

    # convert plane set to matrix form of half spaces
    A = np.zeros((len(planes), 3))
    d = np.zeros((len(planes), 1))
    norms = np.zeros((len(planes), 1))
    for i, plane in enumerate(planes):
        n, p = plane.params
        A[i, :] = n.squeeze()
        d[i, 0] = -1.0 * np.dot(n.squeeze(), (p + shift).squeeze())
        norms[i, 0] = np.linalg.norm(n)
""", """    P = np.array([plane.point for plane in planes])
    A = np.array([plane.normal for plane in planes])
    shift = -1.5 * np.minimum(P.min(axis=0), 0)

    # convert plane set to matrix form of half spaces
    d = -np.sum(A * (P + shift), axis=1)[:, None]
    norms = np.linalg.norm(A, axis=1, keepdims=True)
"""),
 (ALG, """    if mode == "nearest":
        for i in range(3):
            new_point[i,0] = np.round(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \\
                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
    elif mode == "ceil":
        for i in range(3):
            new_point[i,0] = round_away(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \\
                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
    elif mode == "floor":
        for i in range(3):
            new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \\
                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
""", """    snap = {"nearest": np.round, "ceil": round_away, "floor": np.fix}.get(mode)
    if snap is not None:
        for i, (x, t) in enumerate(zip(point_fcoord, target_fcoord)):
            new_point[i, 0] = x if np.isinf(t) else snap(x / t) * t
"""),
 (ST, """        vals = np.squeeze(np.array(vals))
        if vals.shape == (3,):
            self._matrix = np.eye(3) * vals
        elif vals.shape == (3, 3):
            self._matrix = vals
        elif vals.shape == (9,):
            self._matrix = np.reshape(vals, (3, 3))
        elif vals.shape == (6,):
            # voigt notation
            v = vals
            self._matrix = np.array([[v[0], v[5], v[4]], \\
                                     [v[5], v[1], v[3]], \\
                                     [v[4], v[3], v[2]]])
        else:
            raise ValueError("Input shape must be either 3,6, or 9 elements")
""", """        vals = np.squeeze(np.array(vals))
        if vals.shape not in ((3,), (6,), (9,), (3, 3)):
            raise ValueError("Input shape must be either 3,6, or 9 elements")
        if vals.size == 9:
            self._matrix = vals.reshape(3, 3)
        elif vals.size == 6:
            # voigt notation
            xx, yy, zz, yz, xz, xy = vals
            self._matrix = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]])
        else:
            self._matrix = np.diag(vals)
"""),
 (ST, """            sp = sp @ np.linalg.inv(self.bases).T @ self.matrix @ self.bases.T
        else:
            # strain
            sp = sp @ self.matrix

        # shift back w.r.t. origin
        sp += self.origin

        return sp


class IStrain""", """            F = self.bases @ self.matrix.T @ np.linalg.inv(self.bases)
        else:
            # strain
            F = self.matrix.T

        return np.einsum("ij,nj->ni", F, sp) + self.origin


class IStrain"""),
 (ST, """        if self.mode == "crystal":
            # project onto crystal coordinates
            sp = sp @ np.linalg.inv(self.bases).T

            # strain
            sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)

            # project back into real space
            sp = sp @ self.bases.T
        else:
            # strain
            sp = self.strain_fun(sp, **self.fun_kwargs)

        # shift back w.r.t. origin
        sp += self.origin

        return sp
""", """        if self.mode == "crystal":
            fractional = np.linalg.solve(self.bases, sp.T).T
            kwargs = {"basis": self.bases, **self.fun_kwargs}
            strained = np.dot(self.strain_fun(fractional, **kwargs), self.bases.T)
        else:
            strained = self.strain_fun(sp, **self.fun_kwargs)

        return strained + self.origin
"""),
 (VX, """        extents = []
        box = box - self.origin
        for point in box:
            extent = np.linalg.solve(self.sbases, np.array(point))
            extents.append(extent)

        extents = np.array(extents)
        min_extent = np.floor(np.min(extents, axis=0))
        max_extent = np.ceil(np.max(extents, axis=0))

        return min_extent.astype(np.int64), max_extent.astype(np.int64)""", """        extents = np.linalg.solve(self.sbases, (np.asarray(box) - self.origin).T)
        lo, hi = extents.min(axis=1), extents.max(axis=1)

        return np.floor(lo).astype(int), np.ceil(hi).astype(int)"""),
 (G, """        l = [
            range(min_extent[0], max_extent[0] + 1),
            range(min_extent[1], max_extent[1] + 1),
            range(min_extent[2], max_extent[2] + 1), 
            [0]
        ]
        ucs = np.array(list(itertools.product(*l)))

        # get 4D bases with identity in final index to multiply species list
        bases = np.eye(4)
        bases[0:3, 0:3] = self.voxel.sbases
        lcoords = bases @ ucs.T
        scoords = bases @ (np.hstack([fcoords,
                                      np.array(self.species)[:, None]])).T

        coords = lcoords[:, :, None] + scoords[:, None, :]
        coords = coords.reshape(4, coords.shape[1] * coords.shape[2])
        coords = coords.T

        out_coords = coords[:, :-1] + self.voxel.origin
        species = coords[:, -1]
""", """        cells = np.array(list(itertools.product(*(
            range(lo, hi + 1) for lo, hi in zip(min_extent, max_extent)))))

        B = self.voxel.sbases
        out_coords = (cells @ B.T)[:, None, :] + (fcoords @ B.T)[None, :, :]
        out_coords = out_coords.reshape(-1, 3) + self.voxel.origin
        species = np.tile(np.array(self.species), len(cells)).astype(float)
"""),
 (G, """            # apply post transformation
            out_coords, species = self.post_transform.apply_function(out_coords, species)

        if self.strain_field is None:
            return out_coords, species
        else:
            self.strain_field.scrape_params(self)
            return self.strain_field.apply_strain(out_coords), species
""", """            # apply post transformation
            out_coords, species = self.post_transform.apply_function(out_coords, species)

        field = self.strain_field
        if field is not None:
            field.scrape_params(self)
            out_coords = field.apply_strain(out_coords)
        return out_coords, species
"""),
 (G, """            new_origin = transformation.applyTransformation(
                np.reshape(self.voxel.origin, (1, 3)))
            self.voxel.origin = np.squeeze(new_origin)
""", """            moved = transformation.applyTransformation(self.voxel.origin[None, :])
            self.voxel.origin = moved[0]
"""),
]
