T, G, X, ST, M, PO = "transform/transform.py", "generator/generator.py", "volume/voxel.py", "transform/strain.py", "molecule/molecule.py", "transform/post.py"
EDITS = [
(T, '''        if isinstance(alg_object, Sphere):
            alg_object.center = alg_object.center + self.shift

        if isinstance(alg_object, Plane) or isinstance(alg_object, Cylinder):
            alg_object.point = alg_object.point + self.shift

        return alg_object
''', '''        if isinstance(alg_object, Sphere):
            alg_object.center = self.applyTransformation(alg_object.center)
        elif isinstance(alg_object, (Plane, Cylinder)):
            alg_object.point = self.applyTransformation(alg_object.point)

        return alg_object
'''),
(T, '''        if not (self.origin is None):
            points = np.dot(self.matrix,
                            (points - self.origin).T).T + self.origin
        else:
            points = np.dot(self.matrix, (points).T).T

        return points

    def applyTransformation_bases(self, points):
        return np.dot(self.matrix, points)

    def applyTransformation_alg(self, alg_object):
        # TODO: swtich to match/case
        if isinstance(alg_object, Sphere):
            if not (self.origin is None):
                alg_object.center = np.dot(
                    self.matrix,
                    (alg_object.center - self.origin).T).T + self.origin
            else:
                alg_object.center = np.dot(self.matrix, (alg_object.center).T).T

        if isinstance(alg_object, Plane):
            if not (self.origin is None):
                alg_object.point = np.dot(
                    self.matrix,
                    (alg_object.point - self.origin).T).T + self.origin
            else:
                alg_object.point = np.dot(self.matrix, (alg_object.point).T).T

            alg_object.normal = np.dot(
                np.linalg.inv(self.matrix).T, (alg_object.normal).T).T

        if isinstance(alg_object, Cylinder):
            if not (self.origin is None):
                alg_object.point = np.dot(
                    self.matrix,
                    (alg_object.point - self.origin).T).T + self.origin
            else:
                alg_object.point = np.dot(self.matrix, (alg_object.point).T).T

            alg_object.axis = np.dot(self.matrix, (alg_object.axis).T).T

        return alg_object
''', '''        if self.origin is None:
            return points @ self.matrix.T

        shifted = points - self.origin
        return shifted @ self.matrix.T + self.origin

    def applyTransformation_bases(self, points):
        return self.matrix @ points

    def applyTransformation_alg(self, alg_object):
        if isinstance(alg_object, Sphere):
            alg_object.center = self.applyTransformation(alg_object.center)
        elif isinstance(alg_object, Plane):
            alg_object.normal = np.linalg.solve(self.matrix.T, alg_object.normal)
            alg_object.point = self.applyTransformation(alg_object.point)
        elif isinstance(alg_object, Cylinder):
            alg_object.axis = self.matrix @ alg_object.axis
            alg_object.point = self.applyTransformation(alg_object.point)

        return alg_object
'''),
(T, '''        return -1.0 * np.eye(3)
''', '''        return np.diag([-1.0, -1.0, -1.0])
'''),
(T, '''        self._matrix = np.eye(3) - (2.0 /
                                    (normal.T @ normal)) * (normal @ normal.T)
''', '''        normal = normal / np.linalg.norm(normal)
        self._matrix = np.eye(3) - 2.0 * normal @ normal.T
'''),
(T, '''        self.matrix = plane.normal.reshape(3, 1)
        self.origin = plane.point
''', '''        self.origin = plane.point
        self.matrix = plane.normal[:, None]
'''),
(T, '''        locked_list = [x.locked for x in self.transforms]
        return np.any(locked_list)
''', '''        return any(x.locked for x in self.transforms)
'''),
(T, '''        if hasattr(transform, '__iter__'):
            for t in transform:
                assert (isinstance(t, BaseTransform)
                       ), "transforms must be BaseTransformation objects"
            self._transforms.extend(transform)
        else:
            assert (isinstance(
                transform,
                BaseTransform)), "transforms must be BaseTransformation objects"
            self._transforms.append(transform)
''', '''        new = list(transform) if hasattr(transform, '__iter__') else [transform]
        assert all(isinstance(t, BaseTransform) for t in new), "transforms must be BaseTransformation objects"
        self._transforms += new
'''),
(T, '''    v = np.array(np.squeeze(v))
    v = v * (theta / np.linalg.norm(v))

    return scRotation.from_rotvec(v).as_matrix()
''', '''    axis = np.squeeze(np.asarray(v))
    axis = axis / np.linalg.norm(axis)

    return scRotation.from_rotvec(theta * axis).as_matrix()
'''),
(T, '''    if (theta < eps):
        return np.eye(3)
    elif (np.pi - theta < eps):
        e_i = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along minimum component of v
        rot_axis = np.cross(v, e_i).astype(float)
    else:
        rot_axis = np.cross(v, vt).astype(float)

    rot_axis /= np.linalg.norm(rot_axis)
    A = np.array([[0, -rot_axis[2],
                   rot_axis[1]], [rot_axis[2], 0, -rot_axis[0]],
                  [-rot_axis[1], rot_axis[0], 0]])

    return np.eye(3) + np.sin(theta) * A + (1.0 - np.cos(theta)) * A @ A
''', '''    if theta < eps:
        return np.eye(3)

    partner = vt
    if np.pi - theta < eps:
        partner = np.eye(3)[np.argmin(np.abs(v))]  #grab axis along minimum component of v

    rot_axis = np.cross(v, partner)
    rx, ry, rz = rot_axis / np.linalg.norm(rot_axis)
    A = np.array([[0.0, -rz, ry], [rz, 0.0, -rx], [-ry, rx, 0.0]])

    return np.eye(3) + np.sin(theta) * A + (1.0 - np.cos(theta)) * np.linalg.matrix_power(A, 2)
'''),
(T, '''    if convention == "intrinsic":
        return scRotation.from_euler("ZXZ", [alpha, beta, gamma],
                                     degrees=False).as_matrix()
    elif convention == "extrinsic":
        return scRotation.from_euler("zxz", [gamma, beta, alpha],
                                     degrees=False).as_matrix()
    else:
        raise (ValueError("Invalid argument for convention."))
''', '''    if convention not in ("intrinsic", "extrinsic"):
        raise ValueError("Invalid argument for convention.")

    if convention == "intrinsic":
        seq, angles = "ZXZ", [alpha, beta, gamma]
    else:
        seq, angles = "zxz", [gamma, beta, alpha]

    return scRotation.from_euler(seq, angles).as_matrix()
'''),
(T, '''    M_point_r = R_t.applyTransformation(M_point)

    proj_point = T_plane.project_point(M_point_r)
    plane_shift = T_plane.project_point(T_point) - proj_point

    ortho_shift = -1.0 * T_plane.sdist_from_plane(M_plane.point) * T_plane.normal
    T_t = Translation(shift=ortho_shift + plane_shift)

    return MultiTransform(transforms=[R_t, T_t])''', '''    # normal component first, then the in-plane one
    shift = -T_plane.sdist_from_plane(M_plane.point) * T_plane.normal
    in_plane = T_plane.project_point(T_point) - T_plane.project_point(R_t.applyTransformation(M_point))

    transforms = [R_t]
    transforms.append(Translation(shift + in_plane))
    return MultiTransform(transforms)'''),
(G, '''        if "transformation" in kwargs.keys():
            for t in kwargs["transformation"]:
                new_generator.transform(t)

        return new_generator
''', '''        for t in kwargs.get("transformation", ()):
            new_generator.transform(t)

        return new_generator
'''),
(G, '''        if self.voxel is None:
            self.voxel = Voxel(bases=structure.lattice.matrix.T)
        else:
            self.voxel = Voxel(bases=structure.lattice.matrix.T,
                               origin=self.origin)
''', '''        bases = structure.lattice.matrix.T
        kw = {} if self.voxel is None else {"origin": self.origin}
        self.voxel = Voxel(bases=bases, **kw)
'''),
(G, '''        fcoords = np.copy(
            self.coords)  #grab fractional in case bases are rotated
        # get matrix representing unit cells as grid
        l = [
            range(min_extent[0], max_extent[0] + 1),
            range(min_extent[1], max_extent[1] + 1),
            range(min_extent[2], max_extent[2] + 1), 
            [0]
        ]
        ucs = np.array(list(itertools.product(*l)))

        # get 4D bases with identity in final index to multiply species list
        bases = np.eye(4)
        bases[0:3, 0:3] = self.voxel.sbases
        lcoords = bases @ ucs.T
        scoords = bases @ (np.hstack([fcoords,
                                      np.array(self.species)[:, None]])).T

        coords = lcoords[:, :, None] + scoords[:, None, :]
        coords = coords.reshape(4, coords.shape[1] * coords.shape[2])
        coords = coords.T

        out_coords = coords[:, :-1] + self.voxel.origin
        species = coords[:, -1]

        if self.post_transform is not None:
            # apply post transformation
            out_coords, species = self.post_transform.apply_function(out_coords, species)

        if self.strain_field is None:
            return out_coords, species
        else:
            self.strain_field.scrape_params(self)
            return self.strain_field.apply_strain(out_coords), species
''', '''        l = [range(lo, hi + 1) for lo, hi in zip(min_extent, max_extent)]
        l.append([0])
        ucs = np.array(list(itertools.product(*l)))

        # get 4D bases with identity in final index to multiply species list
        bases = np.eye(4)
        bases[:3, :3] = self.voxel.sbases
        site = np.column_stack([self.coords, np.array(self.species)])
        lcoords = (bases @ ucs.T).T
        scoords = (bases @ site.T).T

        coords = (lcoords[:, None, :] + scoords[None, :, :]).reshape(-1, 4)

        out_coords, species = coords[:, :3] + self.voxel.origin, coords[:, 3]

        if self.post_transform is not None:
            out_coords, species = self.post_transform.apply_function(out_coords, species)

        if self.strain_field is not None:
            self.strain_field.scrape_params(self)
            out_coords = self.strain_field.apply_strain(out_coords)

        return out_coords, species
'''),
(G, '''        self.voxel.bases = transformation.applyTransformation_bases(
            self.voxel.bases)

        if not (transformation.basis_only):
            new_origin = transformation.applyTransformation(
                np.reshape(self.voxel.origin, (1, 3)))
            self.voxel.origin = np.squeeze(new_origin)
''', '''        voxel = self.voxel
        voxel.bases = transformation.applyTransformation_bases(voxel.bases)

        if transformation.basis_only:
            return

        voxel.origin = transformation.applyTransformation(voxel.origin[None, :])[0]
'''),
(G, '''        if sgn is not None:
            sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
        else:
            sg = SpaceGroup(int_symbol=sym)

        lattice = Lattice.from_parameters(a=cellDims[0],
                                          b=cellDims[1],
                                          c=cellDims[2],
                                          alpha=cellAngs[0],
                                          beta=cellAngs[1],
                                          gamma=cellAngs[2])
''', '''        symbol = sym if sgn is None else sg_symbol_from_int_number(sgn)
        sg = SpaceGroup(int_symbol=symbol)

        a, b, c = cellDims
        alpha, beta, gamma = cellAngs
        lattice = Lattice.from_parameters(a, b, c, alpha, beta, gamma)
'''),
(G, '''        tmp_lattice = Lattice.from_parameters(a=cellDims[0], b=cellDims[1], c=cellDims[2], \\
                                                alpha=cellAngs[0], beta=cellAngs[1], gamma=cellAngs[2])

        structure = Structure(tmp_lattice, Z, coords)

        return cls(structure=structure, **kwargs)
''', '''        lattice = Lattice.from_parameters(*cellDims, *cellAngs)
        return cls(structure=Structure(lattice=lattice, species=Z, coords=coords), **kwargs)
'''),
(G, '''        if self.use_old_result and self._old_result is not None:
            return self.old_result
        else:
            coords = gen_p_substrate(
                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist,
                self.density)
            coords = coords + np.min(bbox, axis=0)
            self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
            return self.old_result
''', '''        if not self.use_old_result or self._old_result is None:
            lower = np.min(bbox, axis=0)
            dims = np.max(bbox, axis=0) - lower
            coords = lower + gen_p_substrate(dims, min_dist=self.min_dist, density=self.density)
            species = self.species * np.ones(len(coords))
            self._old_result = (coords, species)

        return self.old_result
'''),
(G, '''        if transformation.basis_only:
            return

        if self.origin is not None:
            new_origin = transformation.applyTransformation(
                np.reshape(self.origin, (1, 3)))
            self.origin = np.squeeze(new_origin)

        if self.old_result is not None:
            coords, species = self.old_result
            self._old_result = (transformation.applyTransformation(coords),
                                species)
''', '''        if not transformation.basis_only:
            if self.old_result is not None:
                coords, species = self.old_result
                self._old_result = (transformation.applyTransformation(coords), species)

            if self.origin is not None:
                self.origin = transformation.applyTransformation(self.origin.reshape(1, 3)).squeeze()
'''),
(X, '''        #check for collinearity
        assert (not self._collinear(
            bases[0, :], bases[1, :])), "Bases vectors must linearly indepedent"
        assert (not self._collinear(
            bases[0, :], bases[2, :])), "Bases vectors must linearly indepedent"
        assert (not self._collinear(
            bases[1, :], bases[2, :])), "Bases vectors must linearly indepedent"
''', '''        #check for collinearity
        for i, j in ((0, 1), (0, 2), (1, 2)):
            assert not self._collinear(bases[i], bases[j]), "Bases vectors must linearly indepedent"
'''),
(X, '''        return np.abs((np.dot(vec1, vec2) /
                       (np.linalg.norm(vec1) * np.linalg.norm(vec2)))) == 1.0
''', '''        lengths = np.linalg.norm(vec1) * np.linalg.norm(vec2)
        cos = np.dot(vec1, vec2) / lengths
        return np.abs(cos) == 1.0
'''),
(X, '''        extents = []
        box = box - self.origin
        for point in box:
            extent = np.linalg.solve(self.sbases, np.array(point))
            extents.append(extent)

        extents = np.array(extents)
        min_extent = np.floor(np.min(extents, axis=0))
        max_extent = np.ceil(np.max(extents, axis=0))

        return min_extent.astype(np.int64), max_extent.astype(np.int64)''', '''        extents = np.linalg.solve(self.sbases, (box - self.origin).T).T
        min_extent = np.floor(extents.min(axis=0)).astype(np.int64)
        max_extent = np.ceil(extents.max(axis=0)).astype(np.int64)

        return min_extent, max_extent'''),
(ST, '''        if vals.shape == (3,):
            self._matrix = np.eye(3) * vals
        elif vals.shape == (3, 3):
            self._matrix = vals
        elif vals.shape == (9,):
            self._matrix = np.reshape(vals, (3, 3))
        elif vals.shape == (6,):
            # voigt notation
            v = vals
            self._matrix = np.array([[v[0], v[5], v[4]], \\
                                     [v[5], v[1], v[3]], \\
                                     [v[4], v[3], v[2]]])
        else:
            raise ValueError("Input shape must be either 3,6, or 9 elements")
''', '''        if vals.shape == (3,):
            matrix = np.diag(vals)
        elif vals.shape in ((9,), (3, 3)):
            matrix = vals.reshape((3, 3))
        elif vals.shape == (6,):
            # voigt notation
            xx, yy, zz, yz, xz, xy = vals
            matrix = np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]])
        else:
            raise ValueError("Input shape must be either 3,6, or 9 elements")
        self._matrix = matrix
'''),
(ST, '''        sp = np.copy(points) - self.origin

        if self.mode == "crystal":
            # project onto crystal coordinates, strain, project back into real space
            sp = sp @ np.linalg.inv(self.bases).T @ self.matrix @ self.bases.T
        else:
            # strain
            sp = sp @ self.matrix

        # shift back w.r.t. origin
        sp += self.origin

        return sp
''', '''        rel = points - self.origin

        if self.mode == "crystal":
            frac = np.linalg.solve(self.bases, rel.T).T
            rel = (frac @ self.matrix) @ self.bases.T
        else:
            rel = rel @ self.matrix

        return rel + self.origin
'''),
(ST, '''        if self.mode == "crystal":
            # project onto crystal coordinates
            sp = sp @ np.linalg.inv(self.bases).T

            # strain
            sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)

            # project back into real space
            sp = sp @ self.bases.T
        else:
            # strain
            sp = self.strain_fun(sp, **self.fun_kwargs)
''', '''        if self.mode != "crystal":
            sp = self.strain_fun(sp, **self.fun_kwargs)
        else:
            to_frac = np.linalg.inv(self.bases)
            strained = self.strain_fun(sp @ to_frac.T, basis=self.bases, **self.fun_kwargs)
            sp = np.dot(self.bases, strained.T).T
'''),
(M, '''        if origin is None:
            self.set_origin(point=np.array([0.0,0.0,0.0]))
        elif np.issubdtype(type(origin), np.integer):
            self.set_origin(idx=origin)
        else:
            self.set_origin(point=origin)

        if "orientation" in kwargs.keys():
            self.orientation = kwargs["orientation"]
''', '''        if origin is not None and np.issubdtype(type(origin), np.integer):
            self.set_origin(idx=origin)
        else:
            self.set_origin(point=np.zeros(3) if origin is None else origin)

        if "orientation" in kwargs:
            self.orientation = kwargs["orientation"]
'''),
(M, '''        species = np.array(species)
        species = np.reshape(species, (-1,)).astype(int)
        positions = np.array(positions)
        positions = np.reshape(positions, (-1, 3))

        if positions.shape[0] != species.shape[0]:
            raise''', '''        species = np.array(species).reshape(-1).astype(int)
        positions = np.array(positions).reshape(-1, 3)

        if len(positions) != len(species):
            raise'''),
(M, '''        kept_idx = np.delete(np.arange(n_atoms), indices)
        self._species = np.delete(self.species, indices, axis=0)
        self._atoms = np.delete(self.atoms, indices, axis=0)

        if new_origin_idx is not None:
            self.set_origin(idx=np.searchsorted(kept_idx, new_origin_idx))
        elif self._origin_tracking:
            self.set_origin(idx=np.searchsorted(kept_idx, self._origin_idx % n_atoms))
''', '''        kept_idx = np.delete(np.arange(n_atoms), indices)
        self._species = self._species[kept_idx]
        self._atoms = self._atoms[kept_idx, :]

        follow = new_origin_idx
        if follow is None and self._origin_tracking:
            follow = self._origin_idx % n_atoms
        if follow is not None:
            self.set_origin(idx=np.searchsorted(kept_idx, follow))
'''),
(M, '''        if transform_origin:
            if self._origin_tracking:
                if self.print_warnings:
                    warnings''', '''        if not transform_origin:
            return
        else:
            if self._origin_tracking:
                if self.print_warnings:
                    warnings'''),
(PO, '''        out_species = np.copy(species)
        rng = np.random.default_rng(seed=seed)

        for t, s in zip(self.target, self.substitute):
            t_filter = species == t
            t_probs = rng.uniform(0,1,size=species.shape)

            out_species[(t_filter) & (t_probs <= self.frac)] = s

        return out_species
''', '''        rng = np.random.default_rng(seed)
        out_species = species.copy()

        for i in range(len(self.target)):
            chosen = np.logical_and(species == self.target[i], rng.uniform(size=species.shape) <= self.frac)
            out_species[chosen] = self.substitute[i]

        return out_species
'''),
]
