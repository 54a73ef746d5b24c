#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the human-edited source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files,
         "mechanism": [{"name": x, "where": ", ".join(files)} for x in mech]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
V = "czone/volume/volume.py"; A = "czone/volume/algebraic.py"; X = "czone/volume/voxel.py"
G = "czone/generator/generator.py"; AM = "czone/generator/amorphous_algorithms.py"
T = "czone/transform/transform.py"; S = "czone/transform/strain.py"; PO = "czone/transform/post.py"
M = "czone/molecule/molecule.py"; SC = "czone/scene/scene.py"; PF = "czone/prefab/prefab.py"
W = "czone/prefab/wulff.py"; AD = "czone/surface/adsorbate.py"; AL = "czone/surface/alpha_shape.py"
ME = "czone/util/measure.py"; MI = "czone/util/misc.py"

p("C01", "Scene overlaps are resolved by priority",
  "After a scene is populated, an atom supplied by an object is present in the scene exactly when it lies inside no other object of the scene whose priority number is lower than or equal to its own object's. This holds whatever order the objects were added in, and every object is re-populated before any overlap is judged.",
  ["inputs", "configurations", "histories"],
  "all finite collections of scene objects, all insertion orders, all priority assignments (ties included), all atom positions",
  "No test builds a Scene at all; any test fixes a few objects and priorities, while ties, gaps and insertion orders grow combinatorially.",
  [SC], ["Scene.populate / Scene._get_priorities: sort by priority, group ends by np.unique, conjunction of negated interior checks per object"])
p("C02", "Overlaps inside a multi-volume are resolved by priority",
  "After a multi-volume is populated, an atom supplied by one of its members is kept exactly when it lies inside no other member whose priority number is lower than or equal to its own member's. This holds whatever order the members were added in, and every member is re-populated first.",
  ["inputs", "configurations", "histories"],
  "all member collections, insertion orders, priority assignments and nestings",
  "No test populates a MultiVolume; the guarantee ranges over all priority patterns.",
  [V], ["MultiVolume.populate_atoms / _get_priorities"])
p("C03", "Composite interiors are intersections and unions",
  "A point is inside a volume exactly when it is inside the convex hull of the defining points (if there are any, within the volume's tolerance) and inside every one of its surfaces. A point is inside a multi-volume exactly when it is inside at least one member.",
  ["inputs", "configurations"],
  "all numbers and mixes of points and surfaces, all members, all query points, single points and batches",
  "Tests sample single surfaces and simple volumes; the conjunction over arbitrary mixes of hull and surfaces is not sampled.",
  [V], ["Volume.checkIfInterior", "MultiVolume.checkIfInterior"])
p("C04", "Surface interiors match their geometric definition",
  "A point is interior to a sphere when its distance from the centre is below the radius plus tolerance; to a plane when its signed distance along the normal is below the tolerance; to a cylinder when its distance from the axis line is below the radius plus tolerance and its distance along the axis from the centre point is below half the length plus tolerance. Signed and unsigned plane distances and projections onto a plane agree with the same plane equation.",
  ["inputs", "configurations"],
  "all surfaces, tolerances and query points, including those within tolerance of the boundary",
  "Tests compare against random samples that almost never land in the tolerance shell or on the end caps.",
  [A], ["Sphere.checkIfInterior", "Plane.checkIfInterior, sdist_from_plane, dist_from_plane, project_point", "Cylinder.checkIfInterior"])
p("C05", "Atoms and species stay aligned and filtered together",
  "Populating a volume keeps exactly the generated atoms that are inside it, and every array of positions handed out has an array of species of the same order in which entry k describes atom k. The same holds for the atoms and species of multi-volumes and scenes, and for every ASE view of them, which also carries the scene's cell size.",
  ["inputs", "configurations", "histories"],
  "all volumes, generators, scenes and multi-volumes, all masks produced by interior and overlap checks",
  "Tests never populate volumes or scenes; alignment under arbitrary masks cannot be sampled exhaustively.",
  [V, SC, G, M], ["Volume.populate_atoms", "MultiVolume.populate_atoms", "Scene.all_atoms / all_species / ase_atoms", "AmorphousGenerator.supply_atoms", "BaseMolecule.ase_atoms"])
p("C06", "Crystal tiling covers the requested region",
  "Without strain, a crystal generator asked to fill a region supplies, for every lattice translation whose cell meets the region's bounding parallelepiped in lattice coordinates, every atom of the unit cell at origin + lattice vectors times (translation + fractional coordinate), paired with that atom's species. The tiling range rounds down at the lower end and up, inclusively, at the upper end along each of the three lattice directions.",
  ["inputs", "configurations"],
  "all lattices, orientations, origins, unit cells and requested regions",
  "No test exercises supply_atoms; missing boundary cells only show for particular region/lattice offsets.",
  [G, X], ["Voxel.get_extents (floor/ceil)", "Generator.supply_atoms (inclusive ranges, 4-D bases product)"])
p("C07", "Transforms act on points, surfaces and bases as one affine map",
  "Translation, matrix, inversion, rotation, reflection and composed transforms apply the same affine map to point sets and to the defining points and centres of spheres, planes and cylinders, and their linear part to lattice vectors; plane normals transform with the inverse transpose and cylinder axes with the linear part. A composed transform applies its parts in the order given.",
  ["inputs", "configurations"],
  "all transform classes, parameters, origins (present or absent), surfaces and point sets",
  "The tests contain no transform of a surface against a transformed point set; the claim ranges over all pairs of transform and surface.",
  [T], ["applyTransformation / applyTransformation_bases / applyTransformation_alg of Translation, MatrixTransform, Inversion, Rotation, Reflection, MultiTransform"])
p("C08", "Transforming an object moves all of its parts",
  "Transforming a volume transforms its hull points and every one of its surfaces, and transforms its generator exactly when the transform is locked; transforming a multi-volume transforms every member; transforming a generator transforms its bases always and its origin exactly when the transform is not basis-only; transforming a molecule transforms every atom and its free origin. Copies made with a list of transforms have each of them applied once, in order.",
  ["inputs", "configurations", "histories"],
  "all transforms and flags, all volumes with any mix of points, surfaces and generator, nested multi-volumes",
  "Tests cover molecules only; the combinations of flags and parts are not sampled.",
  [V, G, M], ["Volume.transform", "MultiVolume.transform", "Generator.transform", "BaseMolecule.transform", "from_volume / from_generator / from_molecule / from_alg_object"])
p("C09", "Derived geometry follows its defining data",
  "After points are added to, replaced in or moved with a volume, every later interior query uses a hull and triangulation of exactly the current points. A rejected assignment of points leaves all of them as they were. After the generator, energies or size of a single-crystal Wulff construction are reassigned, later constructions and facet areas are computed from the new inputs.",
  ["histories"],
  "all sequences of adding, replacing and transforming points; all sequences of changing Wulff inputs and requesting constructions",
  "Tests query freshly built volumes; staleness needs particular operation sequences.",
  [V, W], ["Volume.points setter, addPoints, createHull, transform", "WulffSingle.wulff and the WulffBase setters"])
p("C10", "Derived objects are independent copies",
  "Objects created from existing volumes, generators, molecules or surfaces, and the generators and surfaces held by a volume, share no mutable state with the objects they came from: altering, transforming or populating one never changes the other. Volumes, molecules, generators, transforms and strain fields likewise keep their own copies of the points, atoms, shifts and origins they are given.",
  ["histories"],
  "all sequences of copy, attach, transform, strain and populate operations",
  "Aliasing shows only when both objects are used after a later mutation; tests use each object once.",
  [V, G, A, M], ["from_volume, from_generator, from_molecule, from_alg_object", "Volume.add_generator, add_alg_object, addPoints", "BaseMolecule.set_atoms"])
p("C11", "Queries and constructions leave caller data unchanged",
  "Interior checks, distance and bounding queries, strain and transform applications to arrays, alignment and packing helpers, interface constructions and file writes never modify arrays, lists or objects passed in by the caller.",
  ["inputs", "histories"],
  "all arguments of all public query and construction functions",
  "A mutation of an argument is invisible unless the caller reuses it; tests rebuild their inputs for every call.",
  [T, S, A, V, X, ME, MI, PF, AD, AM, AL], ["every public function and query method: no in-place write reaches a parameter"])
p("C12", "Invalid configuration is rejected and never stored",
  "Assigning an invalid value — a non-positive radius, length or surface tolerance, a vanishing normal or axis, a wrongly shaped or collinear basis, a non-rotation matrix, an unknown strain mode, a non-integer priority, a ratio outside [0,1], a non-positive density or minimum distance, or an object of the wrong kind — raises an error and leaves the previously stored value in place. Every valid value is accepted.",
  ["inputs", "configurations"],
  "all values assigned to validated attributes of surfaces, voxels, transforms, strains, generators, volumes, molecules and prefabs",
  "Tests try a handful of bad values on some classes; the accepted set is defined by a predicate over all values.",
  [A, X, T, S, G, V, M, PF, W], ["property setters with assert/raise guards dominating the store"])
p("C13", "Seeded operations are reproducible",
  "Every operation that accepts a seed or random generator draws all of its randomness from it: two calls with the same inputs and seed give the same result. Seeds given by the caller are never replaced by a fixed value.",
  ["inputs", "histories"],
  "all seeds, inputs and prior global random states",
  "Tests never compare two runs under different global random states.",
  [AM, MI, PO, AL, AD], ["gen_p_substrate, gen_p_substrate_batched, get_N_splits, ChemicalSubstitution, alpha_shape_alg_3D(_with_sampling), find_approximate_normal, add_adsorbate"])
p("C14", "Every documented parameter takes effect",
  "Each documented parameter of a public constructor or function influences the result or state it is documented to control: changing it is never silently ignored, nor replaced by a constant on the way to the routine that uses it.",
  ["inputs", "configurations"],
  "all parameters of public functions, methods and constructors, for all values",
  "Tests rarely vary optional parameters; an ignored parameter passes every test that uses its default.",
  [G, AM, V, T, S, PF, W, AD, AL, SC, M, ME, MI], ["dependence of return values and stored state on each parameter through inlined calls"])
p("C15", "File export always writes the object's current atoms",
  "Writing a volume or scene to a file writes it for every output format, with the object's atoms, species and (for scenes) cell, and passes every option given by the caller through unchanged. For the prismatic format, default Debye-Waller factors are supplied for every species present exactly when the caller gave none.",
  ["inputs", "configurations"],
  "all formats and option dictionaries",
  "No test writes a file; the space of formats and options is open.",
  [SC, V], ["Scene.to_file", "BaseVolume.to_file"])
p("C16", "Every internal call and attribute use is well-formed",
  "No public operation fails from inside the package because of a wrong number or name of arguments, an undefined name, a missing attribute, a value used before assignment, or a class attribute that was never initialised.",
  ["programs", "inputs"],
  "all call sites and attribute uses reachable from the public API, on all paths",
  "Tests execute only part of the functions; Python binds calls and attributes only when a path runs.",
  [A, AM, AD, AL, G, M, ME, MI, PF, PO, S, SC, T, V, W, X], ["all call sites and attribute accesses resolved against class and function definitions"])
p("C17", "Bounding regions enclose the object",
  "The bounding region of a volume is an array of 3-D points whose convex hull contains the interior of the volume (up to the surface tolerances): the hull points themselves, a cube circumscribing a bounding sphere, the vertices of the region cut by its planes, or a box circumscribing a cylinder of the volume, placed at that surface's current position.",
  ["inputs", "configurations"],
  "all volumes defined by points, spheres, planes or cylinders anywhere in space",
  "Tests sample a few boxes around the origin; missing corners only show as missing atoms for particular positions and orientations.",
  [V, A], ["Volume.get_bounding_box", "makeRectPrism", "get_bounding_box (planes)", "Cylinder.get_bounding_box"])
p("C18", "Random packings respect the minimum distance",
  "In generated amorphous blocks every accepted atom was compared, with periodic images in x and y, against every previously accepted atom closer than the minimum distance, and rejected if any was closer. Cells of the neighbour grid are never narrower than the minimum distance and tile the periodic box exactly.",
  ["inputs"],
  "all box sizes, minimum distances, densities and seeds",
  "Tests do not call the packing routines; violations occur only for box sizes that are not multiples of the cell and for pairs across the boundary.",
  [AM], ["get_voxels", "gen_p_substrate", "gen_p_substrate_batched", "get_p_dist, get_p_dist_batch"])
p("C19", "Rotation helpers produce the documented rotation",
  "The vector-to-vector rotation maps the first direction onto the second for every pair of non-zero vectors, including parallel and anti-parallel ones; rotation about a vector, alignment of ordered vector sets and z-x-z Euler rotations follow their documented axis, angle and order conventions; the angle between two vectors is defined for every pair of non-zero vectors.",
  ["inputs"],
  "all non-zero vectors and angles",
  "Degenerate directions have measure zero under random sampling and no test calls the helpers.",
  [T, MI], ["rot_v, rot_vtv, rot_align, rot_zxz", "vangle"])
p("C20", "Strain acts about its origin in the chosen frame",
  "A strained position equals origin plus the strain applied to the position relative to that origin — in lattice coordinates of the host generator's current scaled bases in crystal mode, in Cartesian coordinates in standard mode — so the strain origin is a fixed point. The origin is the host generator's current origin unless one was given explicitly.",
  ["inputs", "configurations", "histories"],
  "all strain matrices and functions, both modes, all generators and origins, transformed before or after the strain is attached",
  "No test applies a strain field.",
  [S, G], ["HStrain.apply_strain, matrix setter (3/6/9 values)", "IStrain.apply_strain", "BaseStrain.scrape_params", "Generator.supply_atoms"])
p("C21", "Snapped Miller planes belong to the generator's lattice",
  "The plane returned for given Miller indices is perpendicular to the corresponding reciprocal lattice vector of the generator's current, possibly homogeneously strained, bases, and passes through a point whose lattice coordinates are the query point's rounded per axis to multiples of the axis intercepts: to nearest, towards zero, or away from zero as requested. Axes with a zero index are left unrounded.",
  ["inputs", "configurations"],
  "all generators at the coordinate origin, Miller indices, modes, strains and query points",
  "Tests do not call the routine on non-orthogonal or strained lattices.",
  [A, X, MI], ["snap_plane_near_point", "Voxel.sbases / reciprocal_bases", "round_away"])
p("C22", "Planar-defect prefabs stack their defects consistently",
  "A prefab with N defects returns N+1 members whose priorities run from N for the undefected volume down to 0, where each further member is bounded by one more, distinct, lattice plane and carries a generator obtained from the previous member's by that defect's shift or mirror. Chosen planes are separated from each other by at least the minimum separation and lie within the scanned stack; a request for more planes than fit is refused.",
  ["inputs", "configurations"],
  "all defect counts, separations, ratios and host volumes",
  "No test builds a prefab; defect selection is random.",
  [PF, MI], ["fccMixedTwinSF.build_object", "wurtziteStackingFault.build_object", "get_N_splits"])
p("C23", "Molecules keep positions, species and tracked origin together",
  "Setting, updating or removing atoms keeps one species per position in the original order, or fails without changing the molecule. An origin tied to an atom keeps following that same atom through transforms and removals of other atoms, and a requested new origin atom becomes the origin.",
  ["inputs", "histories"],
  "all molecules, index sets, transforms and operation sequences",
  "Tests check removal without a tracked origin only, on a few random draws.",
  [M], ["BaseMolecule.set_atoms, update_positions, update_species, remove_atoms, set_origin, origin, transform"])
p("C24", "Adsorbates are placed at the bond length and reported honestly",
  "A placed adsorbate is a copy of the input molecule, rotated about and translated to put its bonding atom exactly one bond length along the surface normal from an atom of the host volume that passed the surface test and every filter. Success is reported exactly when no atom of the placed molecule is inside the host volume.",
  ["inputs", "configurations"],
  "all molecules, hosts, filters, bond lengths and rotations",
  "No test places an adsorbate.",
  [AD], ["add_adsorbate"])
p("C25", "Post-generation edits change only what they target",
  "Chemical substitution leaves positions and array lengths unchanged and replaces a species only where it equals a target, by that target's own substitute, each atom independently with the requested probability. A sequence of post-generation edits feeds each edit the output of the previous one in the order given, and edits run on generated atoms before strain.",
  ["inputs", "configurations"],
  "all species arrays, target/substitute lists, fractions and edit sequences",
  "No test applies a post transform.",
  [PO, G], ["ChemicalSubstitution", "PostSequence.apply_function", "Generator.supply_atoms"])
p("C26", "Surface alignment brings two surfaces into anti-parallel contact",
  "The alignment of a moving plane to a target plane is a rotation about the moving plane's point that makes the normals anti-parallel, followed by a translation that puts the moving plane's point on the target plane and the projections of the two reference points onto that plane in coincidence.",
  ["inputs"],
  "all pairs of planes and reference points, given as single points",
  "No test calls the alignment.",
  [T, A], ["s2s_alignment", "Plane.project_point"])
p("C27", "Periodic distances use the minimum image on periodic axes only",
  "Squared-distance functions return the sum over axes of the squared separation, where the separation along an axis declared periodic is the smaller of the direct one and the cell length minus it, and along every other axis is the direct one.",
  ["inputs", "configurations"],
  "all eight periodicity combinations, cell sizes and coordinate batches",
  "No test calls the distance functions.",
  [ME, AM], ["get_sdist_fun", "get_p_dist", "get_p_dist_batch"])
p("C28", "Wulff volumes are bounded by exactly the computed facets",
  "Single-crystal, Winterbottom and named Wulff constructions return a volume bounded by one plane per computed facet, with the facet's normal and at the facet's distance along it from the origin, filled by the construction's generator and computed from the given energies, size and interface.",
  ["inputs", "configurations"],
  "all surface energies, sizes and interfaces",
  "No test builds a Wulff construction.",
  [W], ["WulffBase.planes_from_wulff", "WulffSingle.get_construction / winterbottom / cube / cuboctohedron / octohedron / truncated_octohedron"])
p("C30", "Voxel neighbour lists contain exactly the adjacent cells",
  "The neighbour list of each cell of a grid contains exactly the cells that differ from it by at most one step along each axis, the cell itself included, where a step across the edge of the grid counts only along directions requested as periodic; cells are identified by their index x + nx·(y + ny·z).",
  ["inputs", "configurations"], "all grid sizes and periodicities",
  "No test calls the routine.", [ME], ["get_voxel_grid"])
p("C31", "Radial distribution counts every pair within the cutoff once per ordering",
  "The radial distribution histogram counts each ordered pair of distinct atoms closer than the cutoff once, under the requested periodicity.",
  ["inputs"], "all coordinate sets and cutoffs", "No test calls the routine.", [ME], ["calc_rdf"])
p("C32", "Alpha-shape returns the exposed atoms",
  "The alpha-shape routine returns the atoms exposed on the exterior of the point set for the given probe radius.",
  ["inputs"], "all point sets and radii", "No test calls the routine.", [AL], ["alpha_shape_alg_3D, tetrahedron_circumradii"])
p("C33", "Amorphous generation terminates at the requested density",
  "Amorphous generation terminates and returns round(volume x density) atoms distributed uniformly.",
  ["inputs"], "all boxes, densities and minimum distances", "No test calls the routine.", [AM], ["gen_p_substrate, gen_p_substrate_batched"])
p("C34", "Strained crystals still cover the requested region",
  "After strain is applied, the supplied atoms still cover the whole requested region.",
  ["inputs", "configurations"], "all strain fields and regions", "No test applies strain.", [G, S], ["Generator.supply_atoms"])

p("C35", "Grain boundary prefabs split the host between two grains",
  "A grain boundary prefab returns two members made from the host volume: one bounded additionally by the boundary plane, with the host's priority, filled with the crystal turned so that the first zone axis points along z; and the whole host at the next lower precedence, filled with the crystal turned so that the second zone axis (the first if none was given) points along z. The lattice origin is carried by the same rotation, and the host volume and generator that were passed in are left as they were.",
  ["inputs", "configurations"],
  "all hosts, lattices, lattice origins, boundary planes and zone axes",
  "No test builds a grain boundary.",
  [PF], ["SimpleGrainBoundary.build_object"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
