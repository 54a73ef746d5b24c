AM, ME, MI, PO, MO, AD, AL, PF = ("generator/amorphous_algorithms.py", "util/measure.py", "util/misc.py", "transform/post.py",
    "molecule/molecule.py", "surface/adsorbate.py", "surface/alpha_shape.py", "prefab/prefab.py")
EDITS = [
 (AM, """    num_blocks = np.maximum(np.floor(dims / (min_dist)), 1).astype(int)
    voxels = []
    neighbors = []
    for i in range(num_blocks[0]):
        voxels.append([])
        neighbors.append([])
        for j in range(num_blocks[1]):
            voxels[-1].append([])
            neighbors[-1].append([])
            for k in range(num_blocks[2]):
                voxels[-1][-1].append([])

                tmp_x = [i, (i + 1) % num_blocks[0], (i - 1) % num_blocks[0]]
                tmp_y = [j, (j + 1) % num_blocks[1], (j - 1) % num_blocks[1]]
                tmp_z = [k]
                if (k > 0):
                    tmp_z.append(k - 1)
                if (k < num_blocks[2] - 1):
                    tmp_z.append(k + 1)

                tlist = get_tuples(tmp_x, tmp_y, tmp_z)

                neighbors[-1][-1].append(tlist)

    return voxels, neighbors
""", """    nx, ny, nz = [max(int(np.floor(d / min_dist)), 1) for d in dims]

    def around(i, n):
        return [(i + s) % n for s in (0, 1, -1)]

    voxels = [[[[] for k in range(nz)] for j in range(ny)] for i in range(nx)]
    neighbors = [[[get_tuples(around(i, nx), around(j, ny), [m for m in (k, k - 1, k + 1) if 0 <= m < nz])
                   for k in range(nz)] for j in range(ny)] for i in range(nx)]

    return voxels, neighbors
"""),
 (AM, """    for i in range(0, num_c):
        if print_progress and (not (i % (num_c // 5))):
            print("On %i of %i" % (i, num_c))
        new_coord = rng.uniform(size=(1, 3)) * dims

        block = np.floor(new_coord / voxel_dims).astype(int)
        block = block[0]
        tlist = neighbors[block[0]][block[1]][block[2]]
        parts = []
        for t in tlist:
            parts.extend(voxels[t[0]][t[1]][t[2]])

        p_dist = get_p_dist(coords[parts, :], new_coord, dims)
        while ((len(p_dist) > 0) and (np.min(p_dist) < min_dist_2)):

            new_coord = rng.uniform(size=(1, 3)) * dims
            block = np.floor(new_coord / voxel_dims).astype(int)
            block = block[0]
            tlist = neighbors[block[0]][block[1]][block[2]]
            parts = []
            for t in tlist:
                parts.extend(voxels[t[0]][t[1]][t[2]])

            p_dist = get_p_dist(coords[parts, :], new_coord, dims)

        voxels[block[0]][block[1]][block[2]].append(i)
        coords[i, :] = new_coord

    return coords
""", """    def propose():
        new_coord = rng.uniform(size=(1, 3)) * dims
        bx, by, bz = np.floor(new_coord / voxel_dims).astype(int)[0]
        parts = [p for (x, y, z) in neighbors[bx][by][bz] for p in voxels[x][y][z]]
        free = len(parts) == 0 or np.all(get_p_dist(coords[parts, :], new_coord, dims) >= min_dist_2)
        return new_coord, voxels[bx][by][bz], free

    for i in range(num_c):
        if print_progress and (not (i % (num_c // 5))):
            print("On %i of %i" % (i, num_c))
        new_coord, home, free = propose()
        while not free:
            new_coord, home, free = propose()

        home.append(i)
        coords[i, :] = new_coord

    return coords
"""),
 (AM, """        block = (np.floor(new_coord /voxel_size) @ Nt).astype(int)
        __, idx = np.unique(block, return_index=True)
        block = block[idx]
        new_coord = new_coord[idx,:]
""", """        cell = np.floor(new_coord / voxel_size).astype(int)
        block = cell[:, 0] + num_blocks[0] * (cell[:, 1] + num_blocks[1] * cell[:, 2])
        block, idx = np.unique(block, return_index=True)
        new_coord = new_coord[idx]
"""),
 (AM, """        compare_parts = []
        max_compare = 0
        for b in block:
            tlist = neighbors[b]
            parts = reduce(lambda x,y: x+y, [voxels[t] for t in tlist])
            max_compare = np.max([max_compare, len(parts)])
            compare_parts.append(coords[parts,:])

        all_compare_parts = np.ones((len(block),max_compare,3))*-1000 # what is this doing?
""", """        compare_parts = []
        for b in block:
            parts = [p for t in neighbors[b] for p in voxels[t]]
            compare_parts.append(coords[parts])
        max_compare = max(len(parts) for parts in compare_parts)

        all_compare_parts = np.full((len(block), max_compare, 3), -1000.0)
"""),
 (AM, """        for i, b in enumerate(block[accept_filter]):
            voxels[b].append(i+num_accepted)
        
        N_good = np.sum(accept_filter)
        if N_good + num_accepted > num_c:
            stop_idx = np.where(np.cumsum(accept_filter) > (num_c - num_accepted))[0][0]
            accept_filter[stop_idx:] = False

        coords[num_accepted:num_accepted+N_good, :] = new_coord[accept_filter,:]
        num_accepted += N_good
        cur_iter += 1
""", """        chosen = np.nonzero(accept_filter)[0][:num_c - num_accepted]
        for i in chosen:
            voxels[block[i]].append(num_accepted)
            coords[num_accepted] = new_coord[i]
            num_accepted += 1
        cur_iter += 1
"""),
 (ME, """    nn = [x for x in range(27)]
    nn_x = np.array([(x % 3) - 1 for x in nn])
    nn_y = np.array([((x // 3) % 3) - 1 for x in nn])
    nn_z = np.array([(x // 9) - 1 for x in nn])
""", """    nn = list(range(27))
    nn_z, nn_y, nn_x = np.array([(z, y, x) for z in (-1, 0, 1) for y in (-1, 0, 1) for x in (-1, 0, 1)]).T
"""),
 (ME, """    # correct just x faces
    if fx:
        neighbors[xi_face @ nn_xi] = np.nan
        neighbors[xf_face @ nn_xf] = np.nan

    # correct just y faces
    if fy:
        neighbors[yi_face @ nn_yi] = np.nan
        neighbors[yf_face @ nn_yf] = np.nan

    # correct just z faces
    if fz:
        neighbors[zi_face @ nn_zi] = np.nan
        neighbors[zf_face @ nn_zf] = np.nan
""", """    gone = np.zeros(neighbors.shape, dtype=bool)
    for open_axis, faces in ((fx, [(xi_face, nn_xi), (xf_face, nn_xf)]),
                             (fy, [(yi_face, nn_yi), (yf_face, nn_yf)]),
                             (fz, [(zi_face, nn_zi), (zf_face, nn_zf)])):
        if open_axis:
            for face, beyond in faces:
                gone |= face & beyond
    neighbors[gone] = np.nan
"""),
 (ME, """    mask = np.isnan(neighbors)
    neighbors_ma = np.ma.masked_array(neighbors, mask=mask).astype(int)
    neighbor_lists = [set(list(np.ma.compressed(x))) for x in neighbors_ma]

    return neighbor_lists
""", """    return [{int(n) for n in row if not np.isnan(n)} for row in neighbors]
"""),
 (MI, """    data = np.array([x for x in range(m, l - m)])
    idx = np.ma.array(data=data, mask=np.abs(data - splits[-1]) < m)

    while (len(splits) < n):
        while (np.all(idx.mask)):
            # no options left, reseed
            splits = [rng.integers(m, l - m)]
            idx.mask = np.abs(idx.data - splits[-1]) < m

        # add new choice to list and check distance against other indices
        splits.append(rng.choice(idx.compressed()))
        idx.mask = np.logical_or(idx.mask, np.abs(idx.data - splits[-1]) < m)

    splits.sort()
    return splits
""", """    data = np.arange(m, l - m)
    options = data[np.abs(data - splits[-1]) >= m]

    while (len(splits) < n):
        while len(options) == 0:
            # no options left, reseed
            splits = [rng.integers(m, l - m)]
            options = data[np.abs(data - splits[-1]) >= m]

        # add new choice to list and keep what is far enough from it
        splits.append(rng.choice(options))
        options = options[np.abs(options - splits[-1]) >= m]

    return sorted(splits)
"""),
 (PO, """        out_species = np.copy(species)
        rng = np.random.default_rng(seed=seed)

        for t, s in zip(self.target, self.substitute):
            t_filter = species == t
            t_probs = rng.uniform(0,1,size=species.shape)

            out_species[(t_filter) & (t_probs <= self.frac)] = s

        return out_species
""", """        rng = np.random.default_rng(seed)
        out_species = np.array(species)
        for k in range(len(self.target)):
            drawn = rng.random(species.shape) <= self.frac
            out_species = np.where(np.logical_and(drawn, species == self.target[k]), self.substitute[k], out_species)

        return out_species
"""),
 (PO, """        for t in self._transforms:
            points, species = t.apply_function(points, species, **kwargs)

        return points, species
""", """        atoms = (points, species)
        for t in self._transforms:
            atoms = t.apply_function(*atoms, **kwargs)

        return atoms
"""),
 (MO, """        kept_idx = np.delete(np.arange(n_atoms), indices)
        self._species = np.delete(self.species, indices, axis=0)
        self._atoms = np.delete(self.atoms, indices, axis=0)

        if new_origin_idx is not None:
            self.set_origin(idx=np.searchsorted(kept_idx, new_origin_idx))
        elif self._origin_tracking:
            self.set_origin(idx=np.searchsorted(kept_idx, self._origin_idx % n_atoms))
""", """        keep = np.ones(n_atoms, dtype=bool)
        keep[indices] = False
        tracked = new_origin_idx
        if tracked is None and self._origin_tracking:
            tracked = self._origin_idx % n_atoms

        self._species, self._atoms = self.species[keep], self.atoms[keep]
        if tracked is not None:
            self.set_origin(idx=np.count_nonzero(keep[:tracked]))
"""),
 (MO, """        if transform_origin:
            if self._origin_tracking:
                if self.print_warnings:
                    warnings.warn(f"Requested to transform molecule, but currently origin is set to track an atom. \\n Origin will not be transformed. Molecule is currently tracking origin against atom {self._origin_idx}")
                return
            self.set_origin(point=transformation.applyTransformation(self.origin))
""", """        if not transform_origin:
            return
        if not self._origin_tracking:
            self.set_origin(point=transformation.applyTransformation(self.origin))
        elif self.print_warnings:
            warnings.warn(f"Origin will not be transformed: it tracks atom {self._origin_idx}")
"""),
 (AD, """    N = np.max(simplices)+1
    mat = np.zeros((N,N))
    for s in simplices:
        for i in range(4):
            for j in range(i+1, 4):
                ii = s[i]
                jj = s[j]
                mat[ii,jj] = 1
                mat[jj,ii] = 1

    return csr_matrix(mat)
""", """    size = int(np.max(simplices)) + 1
    mat = np.zeros((size, size))
    for s in simplices:
        for a in s:
            for b in s:
                if a != b:
                    mat[a, b] = 1

    return csr_matrix(mat)
"""),
 (AD, """    valid_indices = np.zeros(volume.atoms.shape[0], dtype=bool)
    valid_indices[surface_ind] = True

    ##  Filter atoms out, e.g., via chemistry or spatial filters

    for key, val in filters.items():
        if "element" in key:
            elements = [Element(x).Z if isinstance(x, str) else x for x in val]
            tmp_mask = reduce(lambda x,y: np.logical_or(x,y), [volume.species == x for x in elements])
            valid_indices = np.logical_and(valid_indices, tmp_mask)
        elif "mask" in key:
            valid_indices = np.logical_and(valid_indices, val)
        elif "indices" in key:
            tmp_mask = np.zeros(volume.atoms.shape[0], dtype=bool)
            tmp_mask[val] = True
            valid_indices = np.logical_and(valid_indices, tmp_mask)
        elif "spatial" in key:
            tmp_mask = val(volume.atoms)
            valid_indices = np.logical_and(valid_indices, tmp_mask)
        else:
""", """    def members(idx):
        mask = np.zeros(len(volume.atoms), dtype=bool)
        mask[idx] = True
        return mask

    rules = {
        "element": lambda val: np.isin(volume.species, [Element(x).Z if isinstance(x, str) else x for x in val]),
        "mask": lambda val: val,
        "indices": members,
        "spatial": lambda val: val(volume.atoms),
    }
    valid_indices = members(surface_ind)

    ##  Filter atoms out, e.g., via chemistry or spatial filters

    for key, val in filters.items():
        for word, rule in rules.items():
            if word in key:
                valid_indices = valid_indices & rule(val)
                break
        else:
"""),
 (AD, """    nn_pos_norms = np.linalg.norm(nn_pos, axis=1)[:, None]
    nn_pos_min = np.min(nn_pos_norms)
    nn_pos = nn_pos/nn_pos_min/(nn_pos_norms/nn_pos_min)**2.0
""", """    squares = np.sum(nn_pos**2, axis=1)
    nn_pos = nn_pos * (np.sqrt(squares.min()) / squares)[:, None]
"""),
 (AD, """        margins = []
        for b in nn_pos:
            margins.append(w @ b)

        j+=1
        if np.max(margins) < best_margin:
            best_margin = np.max(margins)
            j = 0
""", """        margin = np.max(nn_pos @ w)
        j = j + 1
        if margin < best_margin:
            best_margin, j = margin, 0
"""),
 (AL, """    neighbor_check_0 = np.logical_not(probe_test[tri.neighbors]) # neighbors that fail probe test
    neighbor_check_1 = outside[tri.neighbors] # neighbors on the outside
    neighbor_check = np.any(np.logical_and(neighbor_check_0, neighbor_check_1), axis=1)

    # get tetrahedra that are on the surface of alpha-shape
    surface_tris = np.logical_and(probe_test, np.logical_or(outside, neighbor_check))
    
    ## Get outer points of outer elements of alpha-shape
    # determine which points are along the outer edges of tetrahedra/alpha-shape
    sub_points = tri.simplices[surface_tris,:]
    sub_neighbors = tri.neighbors[surface_tris,:]
    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]
""", """    eroded = outside & ~probe_test
    surface_tris = probe_test & (outside | eroded[tri.neighbors].any(axis=1))

    ## Get outer points of outer elements of alpha-shape
    # determine which points are along the outer edges of tetrahedra/alpha-shape
    sub_points = tri.simplices[surface_tris]
    sub_neighbors = tri.neighbors[surface_tris]
    out_points = sub_points[(sub_neighbors != -1) & probe_test[sub_neighbors]]
"""),
 (PF, """        planes = [sp]
        new_point = np.copy(sp.point)
        for i in range(N_planes):
            new_point += sp.normal * d_hkl
            planes.append(Plane(normal=sp.normal, point=new_point))

        # select N planes with min separation apart
        splits = get_N_splits(self.N, self.min_sep, len(planes))
        splits.reverse()

        # create sub volumes for final multivolume
        # origins should be successively shifted
        gen_tmp = self.generator.from_generator()
        vols = [self.volume.from_volume(generator=gen_tmp)]
        vols[0].priority = self.N
        twin_last = 1

        defect_types = {"twin":False, "stacking_fault":False}
        for i in range(self.N):
            if (np.random.rand() < self.ratio):
                # add stacking fault
                burger = twin_last * gen_tmp.voxel.sbases @ (
                    (1 / 3) * np.array([1, 1, -2]) * np.sign(self.plane))
                t = Translation(shift=burger)
                defect_types["stacking_fault"] = True
            else:
                # add twin defect
                t = Reflection(planes[splits[i]])
                twin_last *= -1
                defect_types["twin"] = True
        
            gen_tmp = gen_tmp.from_generator(transformation=[t])
            new_vol = self.volume.from_volume(generator=gen_tmp)
            plane_tmp = Plane(normal=1.0 * planes[splits[i]].normal,
                              point=planes[splits[i]].point)
            new_vol.add_alg_object(plane_tmp)
            new_vol.priority = self.N - (i + 1)
            vols.append(new_vol)

        if return_defect_types:
            return MultiVolume(volumes=vols), defect_types
        else:
            return MultiVolume(volumes=vols)
""", """        splits = get_N_splits(self.N, self.min_sep, N_planes + 1)
        cuts = [Plane(normal=sp.normal, point=sp.point + j * d_hkl * sp.normal) for j in splits[::-1]]

        # create sub volumes for final multivolume
        # origins should be successively shifted
        gen_tmp = self.generator.from_generator()
        first = self.volume.from_volume(generator=gen_tmp)
        first.priority = self.N
        vols = [first]
        orientation = 1.0
        kinds = []
        direction = np.array([1, 1, -2]) / 3 * np.sign(self.plane)
        for priority, cut in zip(reversed(range(self.N)), cuts):
            kind = "stacking_fault" if np.random.rand() < self.ratio else "twin"
            kinds.append(kind)
            if kind == "twin":
                t = Reflection(cut)
                orientation = -orientation
            else:
                t = Translation(orientation * (gen_tmp.voxel.sbases @ direction))

            gen_tmp = gen_tmp.from_generator(transformation=[t])
            new_vol = self.volume.from_volume(generator=gen_tmp)
            new_vol.add_alg_object(Plane(cut.normal, cut.point))
            new_vol.priority = priority
            vols.append(new_vol)

        built = MultiVolume(volumes=vols)
        if return_defect_types:
            return built, {kind: kind in kinds for kind in ("twin", "stacking_fault")}
        return built
"""),
 (PF, """            plane_100 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,1))
            plane_200 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,2))

            # adjust shift according to 100 plane vs 200 plane
            bsf = 2 if np.allclose(plane_100.point, plane_200.point) else 1

            # add stacking fault
            b = polarity * gen_tmp.voxel.sbases @ ((bsf / 3) * np.array([1, -1, 0]))
            b = b + bz

            t = Translation(shift=b)
        
            gen_tmp = gen_tmp.from_generator(transformation=[t])
            new_vol = self.volume.from_volume(generator=gen_tmp)
            plane_tmp = Plane(normal=1.0 * planes[splits[i]].normal,
                              point=planes[splits[i]].point)
            new_vol.add_alg_object(plane_tmp)
            new_vol.priority = self.N - (i + 1)
            vols.append(new_vol)

            # flip shift direction after every stacking fault
            polarity *= -1
""", """            whole, half = [snap_plane_near_point(cur_plane_pt, gen_tmp, (0, 0, k)).point for k in (1, 2)]
            length = 2 / 3 if np.allclose(whole, half) else 1 / 3
            sign = 1 if i % 2 == 0 else -1
            in_plane = gen_tmp.voxel.sbases @ np.array([length, -length, 0])

            gen_tmp = gen_tmp.from_generator(transformation=[Translation(shift=sign * in_plane + bz)])
            new_vol = self.volume.from_volume(generator=gen_tmp)
            new_vol.add_alg_object(Plane(planes[splits[i]].normal, cur_plane_pt))
            new_vol.priority = self.N - 1 - i
            vols.append(new_vol)
"""),
]
