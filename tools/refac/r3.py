P, W, AD, AL, ME, AM, MI = "prefab/prefab.py", "prefab/wulff.py", "surface/adsorbate.py", "surface/alpha_shape.py", "util/measure.py", "generator/amorphous_algorithms.py", "util/misc.py"
EDITS = [
(P, '''        assert (0.0 <= val and
                val <= 1.0), "Ratio must be value in interval [0,1)."
''', '''        assert 0.0 <= val <= 1.0, "Ratio must be value in interval [0,1)."
'''),
(P, '''        norm_vec = self.generator.voxel.bases @ np.array(
            self.plane)  # fine to use real bases since cubic
        norm_vec /= np.linalg.norm(norm_vec)
        bbox = self.volume.get_bounding_box()
        ci = np.dot(norm_vec.reshape(1, 3), bbox.T).T
        start = bbox[np.argmin(ci), :]
        finish = bbox[np.argmax(ci), :]

        for ao in self.volume.alg_objects:
            if isinstance(ao, Sphere):
                # TODO: only override bbox if Sphere is smaller 
                start = ao.center - ao.radius * norm_vec
                finish = ao.center + ao.radius * norm_vec      

        sp = snap_plane_near_point(start,
                                   self.generator,
                                   self.plane,
                                   mode="floor")
        ep = snap_plane_near_point(finish,
                                   self.generator,
                                   self.plane,
                                   mode="ceil")
        d_tot = ep.dist_from_plane(sp.point)
        d_hkl = self.generator.lattice.d_hkl(self.plane)
        N_planes = np.round(d_tot / d_hkl).astype(int)
        planes = [sp]
        new_point = np.copy(sp.point)
        for i in range(N_planes):
            new_point += sp.normal * d_hkl
            planes.append(Plane(normal=sp.normal, point=new_point))
''', '''        direction = self.generator.voxel.bases @ np.array(self.plane)
        planes = self._candidate_planes(direction / np.linalg.norm(direction))
'''),
(P, '''    def build_object(self, return_defect_types=False):
''', '''    def _candidate_planes(self, norm_vec):
        """Lattice planes crossing the volume, in order along their normal."""
        bbox = self.volume.get_bounding_box()
        ci = bbox @ norm_vec
        start, finish = bbox[np.argmin(ci)], bbox[np.argmax(ci)]

        for ao in self.volume.alg_objects:
            if not isinstance(ao, Sphere):
                continue
            reach = ao.radius * norm_vec
            start, finish = ao.center - reach, ao.center + reach

        sp = snap_plane_near_point(start, self.generator, self.plane, mode="floor")
        ep = snap_plane_near_point(finish, self.generator, self.plane, mode="ceil")
        d_hkl = self.generator.lattice.d_hkl(self.plane)
        n_planes = int(np.round(ep.dist_from_plane(sp.point) / d_hkl))

        planes = [sp]
        for i in range(1, n_planes + 1):
            planes.append(Plane(normal=sp.normal, point=sp.point + i * d_hkl * sp.normal))
        return planes

    def build_object(self, return_defect_types=False):
'''),
(P, '''            if (np.random.rand() < self.ratio):
                # add stacking fault
                burger = twin_last * gen_tmp.voxel.sbases @ (
                    (1 / 3) * np.array([1, 1, -2]) * np.sign(self.plane))
                t = Translation(shift=burger)
                defect_types["stacking_fault"] = True
            else:
                # add twin defect
                t = Reflection(planes[splits[i]])
                twin_last *= -1
                defect_types["twin"] = True
        
            gen_tmp = gen_tmp.from_generator(transformation=[t])
            new_vol = self.volume.from_volume(generator=gen_tmp)
            plane_tmp = Plane(normal=1.0 * planes[splits[i]].normal,
                              point=planes[splits[i]].point)
            new_vol.add_alg_object(plane_tmp)
            new_vol.priority = self.N - (i + 1)
            vols.append(new_vol)

        if return_defect_types:
            return MultiVolume(volumes=vols), defect_types
        else:
            return MultiVolume(volumes=vols)


class fccStackingFault''', '''            cut = planes[splits[i]]
            if np.random.rand() >= self.ratio:
                # add twin defect
                defect_types["twin"] = True
                t = Reflection(cut)
                twin_last = -twin_last
            else:
                # add stacking fault
                defect_types["stacking_fault"] = True
                steps = np.array([1, 1, -2]) * np.sign(self.plane) / 3
                t = Translation(shift=twin_last * (gen_tmp.voxel.sbases @ steps))

            gen_tmp = gen_tmp.from_generator(transformation=[t])
            new_vol = self.volume.from_volume(generator=gen_tmp, priority=self.N - i - 1)
            new_vol.add_alg_object(Plane(cut.normal, cut.point))
            vols.append(new_vol)

        result = MultiVolume(volumes=vols)
        return (result, defect_types) if return_defect_types else result


class fccStackingFault'''),
(P, '''            # check if 100 or 200 plane in the previous generator
            cur_plane_pt = planes[splits[i]].point

            plane_100 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,1))
            plane_200 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,2))

            # adjust shift according to 100 plane vs 200 plane
            bsf = 2 if np.allclose(plane_100.point, plane_200.point) else 1

            # add stacking fault
            b = polarity * gen_tmp.voxel.sbases @ ((bsf / 3) * np.array([1, -1, 0]))
            b = b + bz

            t = Translation(shift=b)
''', '''            cut = planes[splits[i]]
            on_100, on_200 = [snap_plane_near_point(cut.point, gen_tmp, (0, 0, l)).point for l in (1, 2)]

            bsf = 1
            if np.allclose(on_100, on_200):
                bsf = 2

            # add stacking fault
            in_plane = gen_tmp.voxel.sbases @ np.array([1, -1, 0])
            t = Translation(shift=polarity * bsf / 3 * in_plane + bz)
'''),
(P, '''            # flip shift direction after every stacking fault
            polarity *= -1
''', '''            polarity = -polarity
'''),
(P, '''        rot_1 = Rotation(rot_vtv(z1v, zv))
        rot_2 = Rotation(rot_vtv(z2v, zv))
        gen_1 = self.generator.from_generator(transformation=[rot_1])
        gen_2 = self.generator.from_generator(transformation=[rot_2])
''', '''        gen_1, gen_2 = (self.generator.from_generator(transformation=[Rotation(rot_vtv(z, zv))]) for z in (z1v, z2v))
'''),
(MI, '''    return np.sign(x) * np.ceil(np.abs(x))
''', '''    magnitude = np.ceil(np.abs(x))
    return np.copysign(magnitude, x)
'''),
(MI, '''    if (l - 2 * m - 1 < (n - 1) * m):
        raise ValueError("m is too large for number of splits requested and l")
    rng = np.random.default_rng(seed=seed)

    #seed an initial choice and create array to calculate distances in
    splits = [rng.integers(m, l - m)]
    data = np.array([x for x in range(m, l - m)])
    idx''', '''    span = l - 2 * m
    if span - 1 < (n - 1) * m:
        raise ValueError("m is too large for number of splits requested and l")
    rng = np.random.default_rng(seed)

    #seed an initial choice and create array to calculate distances in
    data = np.arange(m, l - m)
    splits = [rng.integers(m, l - m)]
    idx'''),
(MI, '''    splits.sort()
    return splits
''', '''    return sorted(splits)
'''),
(MI, '''    cos = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
    return np.arccos(np.clip(cos, -1.0, 1.0))''', '''    u1 = v1 / np.linalg.norm(v1)
    u2 = v2 / np.linalg.norm(v2)
    cos = min(1.0, max(-1.0, np.dot(u1, u2)))
    return np.arccos(cos)'''),
(W, '''        return [
            Plane(f.normal, f.normal * f.distance_from_origin)
            for f in wulff._yield_facets()
        ]
''', '''        planes = []
        for f in wulff._yield_facets():
            d = f.distance_from_origin
            planes.append(Plane(normal=f.normal, point=d * f.normal))
        return planes
'''),
(W, '''        planes = self.planes_from_wulff(self.wulff)
        if return_facet_areas:
            return Volume(alg_objects=planes, generator=self.generator), self.wulff.facet_fractions
        else:
            return Volume(alg_objects=planes, generator=self.generator)
''', '''        volume = self._to_volume(self.wulff)
        if not return_facet_areas:
            return volume
        return volume, self.get_areas()

    def _to_volume(self, particle):
        return Volume(generator=self.generator, alg_objects=self.planes_from_wulff(particle))
'''),
(W, '''        planes = self.planes_from_wulff(wulff)

        return Volume(alg_objects=planes, generator=self.generator)
''', '''        return self._to_volume(wulff)
'''),
(W, '''        energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
        wulff = cls(generator, energies, natoms)
        return wulff.get_construction()
''', '''        energies = dict([((1, 1, 1), 1.0), ((1, 0, 0), 1.1), ((1, 1, 0), 1.15)])
        return cls(generator, energies, natoms=natoms).get_construction()
'''),
(W, '''        p_struct = val.structure.get_primitive_structure()
        self._p_atoms = Atoms(positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
''', '''        primitive = val.structure.get_primitive_structure()
        self._p_atoms = Atoms(cell=primitive.lattice.matrix, positions=primitive.cart_coords)
'''),
(AD, '''    for s in simplices:
        for i in range(4):
            for j in range(i+1, 4):
                ii = s[i]
                jj = s[j]
                mat[ii,jj] = 1
                mat[jj,ii] = 1
''', '''    for s in simplices:
        for i in range(4):
            for j in range(4):
                if i != j:
                    mat[s[i], s[j]] = 1
'''),
(AD, '''    if surface_only:
        # reduce selection to atoms that are part of surface tetrahedra
        # do not reduce to solely surface atoms, because roughness is unstable
        # with alpha shape
        reduced_tri = shape_dict["tri"].simplices[shape_dict["surface_tris"],:]
    else:
        reduced_tri = shape_dict["tri"].simplices[shape_dict["a_tris"],:]

    graph''', '''    selection = shape_dict["surface_tris" if surface_only else "a_tris"]
    reduced_tri = shape_dict["tri"].simplices[selection]

    graph'''),
(AD, '''    if "seed" in kwargs.keys():
        seed = kwargs["seed"]
    else:
        seed = np.random.randint(0,10000)

    rng''', '''    seed = kwargs["seed"] if "seed" in kwargs else np.random.randint(0, 10000)
    rng'''),
(AD, '''    for key, val in filters.items():
        if "element" in key:
            elements = [Element(x).Z if isinstance(x, str) else x for x in val]
            tmp_mask = reduce(lambda x,y: np.logical_or(x,y), [volume.species == x for x in elements])
            valid_indices = np.logical_and(valid_indices, tmp_mask)
        elif "mask" in key:
            valid_indices = np.logical_and(valid_indices, val)
        elif "indices" in key:
            tmp_mask = np.zeros(volume.atoms.shape[0], dtype=bool)
            tmp_mask[val] = True
            valid_indices = np.logical_and(valid_indices, tmp_mask)
        elif "spatial" in key:
            tmp_mask = val(volume.atoms)
            valid_indices = np.logical_and(valid_indices, tmp_mask)
        else:
            print("Invalid filter key provided. Must be one of {elementXX, maskXX, indicesXX, spatialXX}.")
            print("Key provided: ", key)

    valid_indices = np.nonzero(valid_indices)[0]
''', '''    for key, val in filters.items():
        tmp_mask = _filter_mask(key, val, volume)
        if tmp_mask is None:
            print("Invalid filter key provided. Must be one of {elementXX, maskXX, indicesXX, spatialXX}.")
            print("Key provided: ", key)
            continue
        valid_indices &= tmp_mask

    valid_indices = np.flatnonzero(valid_indices)
'''),
(AD, '''def add_adsorbate(mol''', '''def _filter_mask(key, val, volume):
    """Mask of atoms of the volume which pass one filter, None for an unknown filter."""
    if "element" in key:
        mask = np.zeros(volume.atoms.shape[0], dtype=bool)
        for x in val:
            z = Element(x).Z if isinstance(x, str) else x
            mask = mask | (volume.species == z)
        return mask
    if "mask" in key:
        return val
    if "indices" in key:
        mask = np.zeros(volume.atoms.shape[0], dtype=bool)
        mask[val] = True
        return mask
    if "spatial" in key:
        return val(volume.atoms)
    return None

def add_adsorbate(mol'''),
(AD, '''    nn_pos_norms = np.linalg.norm(nn_pos, axis=1)[:, None]
    nn_pos_min = np.min(nn_pos_norms)
    nn_pos = nn_pos/nn_pos_min/(nn_pos_norms/nn_pos_min)**2.0
''', '''    lengths = np.linalg.norm(nn_pos, axis=1, keepdims=True)
    shortest = lengths.min()
    nn_pos = (nn_pos/shortest)/(lengths/shortest)**2
'''),
(AD, '''    rot = Rotation(matrix=rot_vtv(m_vec, normal), origin=mol_out.origin)
    mol_out.transform(rot)

    ##  Rotate molecule about surface normal axis
    rot = Rotation(matrix=rot_v(normal, mol_rotation), origin=mol_out.origin)
    mol_out.transform(rot)

    ##  Set molecule outside of surface with specified bond length
    new_origin = volume.atoms[target_idx,:] + normal*bond_length
    mol_out.transform(Translation(new_origin-mol_out.origin))

    ##  Check for collisions/make sure none of the molecule is in the surface
    if np.all(np.logical_not(volume.checkIfInterior(mol_out.atoms))):
        if debug:
            return mol_out, target_idx, nn_ind, nn_pos
        else:
            return mol_out, True
    else:
        print("Adsorbate placement failed. Molecule landed inside volume.")
        print("Check input parameters.")
        if debug:
            return mol_out, target_idx, nn_ind, nn_pos
        else:
            return mol_out, False
''', '''    for matrix in (rot_vtv(m_vec, normal), rot_v(normal, mol_rotation)):
        mol_out.transform(Rotation(matrix=matrix, origin=mol_out.origin))

    ##  Set molecule outside of surface with specified bond length
    target = volume.atoms[target_idx] + bond_length*normal
    mol_out.transform(Translation(shift=target - mol_out.origin))

    ##  Check for collisions/make sure none of the molecule is in the surface
    success = not np.any(volume.checkIfInterior(mol_out.atoms))
    if not success:
        print("Adsorbate placement failed. Molecule landed inside volume.")
        print("Check input parameters.")

    if debug:
        return mol_out, target_idx, nn_ind, nn_pos

    return mol_out, success
'''),
(AL, '''    for i in range(N_samples):
        # get cicrcumradii of all tetrahedron in triangulation
        noise = std*rng.standard_normal(size=points.shape)

        circumradii = tetrahedron_circumradii((points+noise)[tri.simplices, :])
        
        # check which tetrahedra in triangulation are part of alpha-shape for given probe radius
        if i == 0:
            probe_test = circumradii <= probe_radius
        else:
            probe_test = np.logical_or(probe_test, circumradii <= probe_radius)
''', '''    probe_test = np.zeros(tri.simplices.shape[0], dtype=bool)
    for _ in range(N_samples):
        noisy = points + std*rng.standard_normal(size=points.shape)
        probe_test |= tetrahedron_circumradii(noisy[tri.simplices, :]) <= probe_radius
'''),
(AM, '''    dist_0 = np.abs(coords - new_coord)
    dist_1 = dims - dist_0
    dist_1[:, 2] = dist_0[:, 2]

    p_dist = np.sum(np.min(np.dstack([dist_0, dist_1]), axis=2)**2.0, axis=1)
    return p_dist
''', '''    direct = np.abs(coords - new_coord)
    wrapped = dims - direct
    wrapped[:, 2] = direct[:, 2]
    closest = np.minimum(direct, wrapped)

    return np.sum(closest**2, axis=1)
'''),
(AM, '''    ax = 0
    dists = np.sum(np.min(np.stack([dists_0, dists_1], axis=ax), axis=ax)**2.0, axis=2)
    return np.all(dists > min_dist_2, axis=1)
''', '''    dists = np.square(np.minimum(dists_0, dists_1)).sum(axis=-1)
    return np.logical_not(np.any(dists <= min_dist_2, axis=1))
'''),
(AM, '''    for i in range(0, num_c):
        if print_progress and (not (i % (num_c // 5))):
            print("On %i of %i" % (i, num_c))
        new_coord = rng.uniform(size=(1, 3)) * dims

        block = np.floor(new_coord / voxel_dims).astype(int)
        block = block[0]
        tlist = neighbors[block[0]][block[1]][block[2]]
        parts = []
        for t in tlist:
            parts.extend(voxels[t[0]][t[1]][t[2]])

        p_dist = get_p_dist(coords[parts, :], new_coord, dims)
        while ((len(p_dist) > 0) and (np.min(p_dist) < min_dist_2)):

            new_coord = rng.uniform(size=(1, 3)) * dims
            block = np.floor(new_coord / voxel_dims).astype(int)
            block = block[0]
            tlist = neighbors[block[0]][block[1]][block[2]]
            parts = []
            for t in tlist:
                parts.extend(voxels[t[0]][t[1]][t[2]])

            p_dist = get_p_dist(coords[parts, :], new_coord, dims)

        voxels[block[0]][block[1]][block[2]].append(i)
        coords[i, :] = new_coord
''', '''    for i in range(0, num_c):
        if print_progress and (not (i % (num_c // 5))):
            print("On %i of %i" % (i, num_c))

        while True:
            new_coord = rng.uniform(size=(1, 3)) * dims
            bx, by, bz = np.floor(new_coord / voxel_dims).astype(int)[0]
            parts = []
            for tx, ty, tz in neighbors[bx][by][bz]:
                parts += voxels[tx][ty][tz]

            p_dist = get_p_dist(coords[parts, :], new_coord, dims)
            if len(p_dist) == 0 or np.min(p_dist) >= min_dist_2:
                break

        voxels[bx][by][bz].append(i)
        coords[i, :] = new_coord
'''),
(ME, '''    cols = [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]
    sdims = np.array(dims)[cols]
    sdims = sdims[None, :, None]

    def sdist(A, B):
        dist_0 = np.abs(A - B)
        dist_1 = sdims - dist_0[:, cols, :]
        dist_0[:, cols, :] = np.min(np.stack([dist_0[:, cols, :], dist_1],
                                             axis=-1),
                                    axis=-1)

        return np.sum(dist_0 * dist_0, axis=1)
''', '''    cols = [i for i, periodic in enumerate((px, py, pz)) if periodic]
    sdims = np.array(dims)[cols][None, :, None]

    def sdist(A, B):
        dist_0 = np.abs(A - B)
        direct = dist_0[:, cols, :]
        dist_0[:, cols, :] = np.minimum(direct, sdims - direct)

        return np.sum(dist_0**2, axis=1)
'''),
]
